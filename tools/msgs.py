"""first line of the message of every saved counterexample of a property, and the counters of its last evidence"""
import sys,json,glob,collections
p=sys.argv[1]; n=collections.Counter()
for f in sorted(glob.glob('/verif/evidence/replay/%s/*.json'%p)):
    d=json.load(open(f)); print(d['scenario'],d['trace'],'|',d['msg'].split('\n')[0][:260])
