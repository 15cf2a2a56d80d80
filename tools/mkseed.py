#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS [more FILE OLD NEW ...]: edits a scratch copy, writes patch.diff and meta.json."""
import sys, os, subprocess, json, tempfile, shutil
a = sys.argv[1:]; id, prop = a[0], a[1]; needs, brk = a[5], a[6]; edits = [a[2:5]] + [a[i:i + 3] for i in range(7, len(a), 3)]
d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True); w = tempfile.mkdtemp(prefix="mkseed-", dir="/tmp")
subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
try:
    for f, o, n in edits:
        p = w + "/r/" + f; s = open(p, newline="").read(); crlf = "\r\n" in s
        if crlf: o = o.replace("\n", "\r\n"); n = n.replace("\n", "\r\n")
        assert s.count(o) == 1, (f, s.count(o)); open(p, "w", newline="").write(s.replace(o, n))
    open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", w + "/r", "diff"], stdout=subprocess.PIPE).stdout)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=brk), open(d + "/meta.json", "w"), indent=1)
finally:
    shutil.rmtree(w)
