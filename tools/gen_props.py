#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
for x in P: assert len(x["title"])<=80, x["title"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
