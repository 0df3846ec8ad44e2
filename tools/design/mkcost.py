import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
c={}
for f in sorted(glob.glob(V+"/evidence/???.json")):
    e=json.load(open(f)); k=e["coverage"]
    c[e["property"]]=f"{k['states']} paths, {round(e['wall_s'])} s"
json.dump(c,open(V+"/tools/design/cost.json","w"),indent=1)
