#!/usr/bin/env python3
# Writes /verif/DESIGN.md from design_head.md, properties.jsonl, MANIFEST.json, analyzer/docs.go, design_limits.json,
# seeded/*/meta.json and known_findings.txt.
import json,os,re,glob
T=os.path.dirname(os.path.abspath(__file__)); V=os.path.join(T,"..")
R=lambda *p: open(os.path.join(V,*p)).read()
props=[json.loads(l) for l in R("properties.jsonl").splitlines() if l.strip()]
M=json.loads(R("MANIFEST.json"))
tech={c["property"]:c for c in M["checks"]}
na={c["property"]:c["reason"] for c in M["not_applicable"]}
docs={}
src=R("analyzer","docs.go")
def gs(s): return [json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"',s)]
for m in re.finditer(r'\n\t"([A-Z]\d\d)": \{\n(.*?)\n\t\},',src,re.S):
    lines=[l for l in m.group(2).split("\n") if l.strip()]
    docs[m.group(1)]=(gs(lines[0])[0],gs(lines[1]) if len(lines)>1 else [],gs(lines[2]) if len(lines)>2 else [])
lim=json.loads(R("tools","design_limits.json"))
seed={}
for f in sorted(glob.glob(os.path.join(V,"seeded","*","meta.json"))):
    m=json.load(open(f)); seed.setdefault(m["property"],[]).append((os.path.basename(os.path.dirname(f)),m))
find={}
for l in R("known_findings.txt").splitlines():
    m=re.match(r"(known|fixed): property=(\w+) (.*)",l)
    if m: find.setdefault(m.group(2),[]).append((m.group(1),m.group(3)))
o=[R("tools","design_head.md").rstrip(),"","## Properties decided",""]
for p in props:
    i=p["id"]
    if i in na: continue
    d=docs.get(i,("",[],[]))
    o+=["### %s %s"%(i,p["title"]),"","*Quantifies over*: %s. *Why tests cannot settle it*: %s"%(p["quantifier"]["text"],p["why_tests_cant"]),"",
        "*Method*: %s"%tech[i]["technique"].rstrip("."),"","*What is analysed*: %s"%d[0],"","*Rules (each finding names the construct)*:",""]
    o+=["- "+r for r in d[1]]
    o+=["","*Assumed*:",""]+["- "+r for r in d[2]]+["","*Strength and limits*: %s"%tech[i]["level_note"]]
    if lim.get(i): o+=["","*Not judged*: %s"%lim[i]]
    if i in find:
        o+=["","*Found on the original tree*:",""]+["- %s: %s"%("fixed" if k=="fixed" else "recorded (KNOWN-FINDING)",t) for k,t in find[i]]
    o+=["","*Planted changes*: "+("; ".join("`%s` (%s): caught"%(n,m["what_it_breaks"].rstrip(".")) for n,m in seed.get(i,[])) or "none kept"),""]
o+=["## Properties this family cannot decide here (not_applicable)",""]
for p in props:
    if p["id"] in na: o+=["- **%s %s**: %s"%(p["id"],p["title"],na[p["id"]])]
o+=["",R("tools","design_tail.md").rstrip(),""]
open(os.path.join(V,"DESIGN.md"),"w").write("\n".join(o))
print(len(o),"blocks")
