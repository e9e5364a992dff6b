#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json,os,props
here=os.path.dirname(os.path.abspath(__file__))
ids=sorted(props.P)
with open(here+"/properties.jsonl","w") as f:
    for i in ids:
        p=props.P[i]; assert len(p["title"])<=80,(i,len(p["title"]))
        f.write(json.dumps(dict(id=i,title=p["title"],statement=p["statement"],quantifier=p["quantifier"],why_tests_cant=p["why"],anchors=p["anchors"]))+"\n")
    for p in props.NA: f.write(json.dumps({k:p[k] for k in ("id","title","statement","quantifier","why_tests_cant","anchors")})+"\n")
m=dict(version=1,setup_cmd="make -s -j8 -C /verif/engine BIN=/verif/build/symex",
 checks=[dict(property=i,quick_cmd="/verif/check.py %s --tier quick"%i,thorough_cmd="/verif/check.py %s --tier thorough"%i,evidence_file="evidence/%s.json"%i,technique="symbolic execution of the LLVM bitcode of the real sources, assertions decided by z3; counterexamples replayed natively",level=props.P[i].get("level","model_checking"),level_note=props.P[i].get("note","bounded: "+props.P[i]["bounds"])) for i in ids],
 not_applicable=[dict(property=p["id"],reason=p["reason"]) for p in props.NA],
 notes="See DESIGN.md. Quick checks take under two minutes each on 8 cores; exit 0 means every obligation that was explored was discharged, NOT-EXPLORED lines name anything that was not.")
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
# DESIGN.md from design.in.md
def para(i):
    p=props.P[i]; j=props.jobs(p,"quick"); t=props.jobs(p,"thorough")
    how=p.get("how") or props.HOW.get(i,"")
    assert how,("no HOW for",i)
    return "### %s %s\n\n*Claim.* %s\n\n*How it is decided.* %s\n\n*Bounds.* %s. Quick: %d jobs; thorough: %d jobs. Entry points: %s.\n\n*Why tests cannot.* %s\n"%(i,p["title"],p["statement"],how,p["bounds"],len(j),len(t),", ".join(sorted({"`"+x["entry"]+"`"+" ("+props.H[x["h"]]["file"]+")" for x in j})),p["why"])
import glob
cat=json.load(open(here+"/seeded/catch.json")) if os.path.exists(here+"/seeded/catch.json") else {}
rows=["| bug | property | breaks | needs | caught by |","|---|---|---|---|---|"]
for d in sorted(glob.glob(here+"/seeded/*/meta.json")):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d)); rows.append("| %s | %s | %s | %s | %s |"%(n,m["property"],m["what_it_breaks"],m["needs"],", ".join(cat.get(n,[])) or "not caught"))
s=open(here+"/design.in.md").read()
s=s.replace("@PROPS@","\n".join(para(i) for i in ids)).replace("@SEEDS@","\n".join(rows)).replace("@NA@","\n".join("* **%s** %s: %s"%(p["id"],p["title"],p["reason"]) for p in props.NA))
open(here+"/DESIGN.md","w").write("<!-- written by gen.py from design.in.md, proplist.py and seeded/ -->\n"+s)
