#!/usr/bin/env python3
"""Writes DESIGN.md. The evidence files it reads are those of the last run of all checks (argument: their directory)."""
import json,sys,os,glob,textwrap
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+"/tools")
from claims import CLAIMS,NA,COMMON
from design_text import OBS,LIMITS,CANNOT,SEEDNOTE
ev=sys.argv[1] if len(sys.argv)>1 else V+"/evidence"
def wrap(s,ind=""): return textwrap.fill(s,118,initial_indent=ind,subsequent_indent=" "*len(ind),break_long_words=False,break_on_hyphens=False)
head=open(V+"/tools/design_head.md").read()
head=head.replace("@OBS@","\n".join(wrap(o,"* ") for o in OBS)).replace("@LIMITS@","\n".join(wrap(o,"* ") for o in LIMITS))
seeds={}
for f in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(f)); seeds.setdefault(m["property"],[]).append((os.path.basename(os.path.dirname(f)),m))
out=[head.rstrip()+"\n\n## 7. The properties\n"]
na=[]
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    if i in NA: na.append((i,p)); continue
    d=json.load(open(f"{ev}/{i}.json")); c=d["coverage"]
    out.append(f"### {i} {p['title']}\n")
    out.append(wrap(p["statement"])+"\n")
    out.append(wrap("*Deciding method:* "+CLAIMS[i][0]+". *Reach:* "+CLAIMS[i][1])+"\n")
    out.append(wrap("*What is analysed and against what:* "+c["explanation"]+".")+"\n")
    if c.get("rules"):
        out.append(wrap("*Rules:* "+", ".join(sorted(c["rules"]))+".")+"\n")
    a=[x for x in d["assumptions"] if not x.startswith(("the Go type checker","library functions behave"))]
    if a: out.append(wrap("*Assumed besides section 2:* "+"; ".join(a)+".")+"\n")
    out.append(wrap("*Why tests cannot:* "+p["why_tests_cant"]+". *Size today:* "+f"{c.get('obligations')} obligations over {len(c.get('functions_analysed',[]))} functions, {d['wall_s']:.0f} s.")+"\n")
    if i in CANNOT: out.append(wrap("*Not covered:* "+CANNOT[i])+"\n")
    if i in seeds: out.append(wrap("*Planted bugs caught:* "+"; ".join(f"`{n}` ({m['what_it_breaks']})" for n,m in seeds[i])+".")+"\n")
out.append("### Not applicable\n")
for i,p in na:
    out.append(wrap(f"{i} {p['title']}: {NA[i]}","* "))
out.append("\n## 8. Planted bugs\n")
out.append(wrap(SEEDNOTE)+"\n")
out.append("| planted bug | caught by | needs |\n|---|---|---|")
for i in sorted(seeds):
    for n,m in seeds[i]: out.append(f"| {n} | {i} | {m['needs']} |")
open(V+"/DESIGN.md","w").write("\n".join(out)+"\n")
