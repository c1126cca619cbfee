import sys, threading; sys.setrecursionlimit(20000); threading.stack_size(512<<20)
from sa import front, oblig, terms as t
front.load_repo(sys.argv[1] if len(sys.argv)>1 and sys.argv[1].startswith('/') else '/repo')
sp=oblig.load_specs()
pat=[a for a in sys.argv[1:] if not a.startswith('/')]
import json
for n,s in sp.items():
    if pat and not any(p in n for p in pat): continue
    o=oblig.run_spec(s)
    print('%-55s %-8s %.2fs leaves=%d splits=%d %s'%(n,o.verdict,o.wall,o.leaves,o.splits,o.why))
    if o.verdict!='EQUAL': print(json.dumps(o.detail,indent=1))
