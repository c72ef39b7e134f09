import json,os,re
HERE="/verif"
props=[json.loads(l) for l in open(HERE+"/properties.jsonl")]
DEF={}
kf=json.load(open(HERE+"/known_findings.json"))
import sys; sys.path.insert(0,HERE+"/tools")
body=open("/verif/tools/design_body.md").read()
fixes="\n".join("| %s | %s | %s |"%re.match(r"fixed: property=(\w+) (\w+) (.*)",f).groups() for f in kf["fixed"])
finds="\n".join("| %s | `%s` | %s |"%(f["property"],f["key"],f["what"]) for f in kf["findings"])
bugs=[]
for b in sorted(os.listdir(HERE+"/seeded")):
    p=HERE+"/seeded/"+b+"/meta.json"
    if not os.path.exists(p): continue
    m=json.load(open(p)); bugs.append("| %s | %s | %s | %s |"%(b,m["needs"],m["what_it_breaks"],m["property"]))
na=json.load(open(HERE+"/MANIFEST.json"))["not_applicable"]
body=body.replace("@NC@","\n".join("* **%s** %s."%(n["property"],n["reason"]) for n in na) or "None.")
open(HERE+"/DESIGN.md","w").write(body.replace("@FIXES@",fixes).replace("@FINDINGS@",finds).replace("@BUGS@","\n".join(bugs)))
