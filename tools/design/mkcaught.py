"""caught.json from the output of tools/seed.py catch."""
import json,sys,os,re
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
p=V+"/tools/design/caught.json"
c=json.load(open(p)) if os.path.exists(p) else {}
cur=None
for l in open(sys.argv[1]):
    m=re.match(r"== (\S+) exit (\d+)",l)
    if m: cur=m[1]; c[cur]=None if m[2]=="0" else ""
    m=re.match(r"VIOLATION property=(\S+)",l)
    if m and cur: c[cur]=m[1]
json.dump(dict(sorted(c.items())),open(p,"w"),indent=1)
