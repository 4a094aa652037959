#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the statements).
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"props.py")).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")

CH=[];NA=[]
def check(id,technique,note):
    CH.append({"property":id,"quick_cmd":"bash run.sh %s quick"%id,"thorough_cmd":"bash run.sh %s thorough"%id,"technique":technique,"level":"other","level_note":note})
def na(id,reason): NA.append({"property":id,"reason":reason})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"checks.py")).read())
ids={p["id"] for p in P}; cl={c["property"] for c in CH}; nl={n["property"] for n in NA}
assert cl|nl==ids and not cl&nl,(ids-cl-nl,cl-ids,nl-ids)
M={"version":1,"setup_cmd":"bash run.sh setup","checks":CH,"not_applicable":NA,
 "notes":"All checks are one static analyzer (analyzer/, Go, go/ssa) run on /repo's current source; see DESIGN.md. The thorough tier runs the same exhaustive analysis: the rules have no sampling depth to raise."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json"),"w") as f:
    json.dump(M,f,indent=1,ensure_ascii=False); f.write("\n")
print(len(CH),"checks",len(NA),"n/a")
