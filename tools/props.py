"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {})),
                  _t=technique, _n=note))


for f in sorted(os.listdir(os.path.join(V, "tools", "props.d"))):
    if f.endswith(".py"):
        exec(open(os.path.join(V, "tools", "props.d", f)).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
na = {n["property"] for n in NA}
checks = [dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
               technique=p["_t"], level="exploration", level_note=p["_n"]) for p in P if p["id"] not in na]
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=NA,
               notes="See DESIGN.md. Checks build from /repo/src with stand-ins for brpc/braft/rocksdb/faiss/hnswlib under shim/; no hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
