"""kinds of counterexamples of a property, with counts"""
import sys,json,collections,glob,re
n=collections.Counter(); ex={}
for f in glob.glob('/verif/evidence/replay/%s/*.json'%sys.argv[1]):
    d=json.load(open(f)); k=(d['scenario'],re.sub(r'[-0-9.e+]+','#',d['msg'].split('\n')[0][:160])); n[k]+=1; ex[k]=d
for k,v in n.items(): print(v,k,ex[k]['trace'],'|',ex[k]['msg'].split('\n')[0][:200])
