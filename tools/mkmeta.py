#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, state=None, observe=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                                   observe_at=observe or ["the generated header text", "the symbol file"], hook_needed=None),
                      _t=technique, _n=note))


TRACE = "TLA+ spec (Generate) checked with TLC; trace validation of the real generator's headers against it"
NOTE = ("TLC runs the state-machine specification of the whole generator on every sampled crate/configuration and accepts the real header only if the "
        "property's projection of it is the specified one. Bounded by the sampled programs; trusts the header parser (lib/hdr.py) and the Rust renderer (lib/rust.py).")
exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
m = dict(version=1, setup_cmd="bin/setup", checks=[], not_applicable=[dict(property=p, reason=r) for p, r in NA],
         notes="No hooks: everything is observed through the public API, the command line and the files cbindgen reads and writes.")
for p in PROPS:
    if p["id"] in [x[0] for x in NA]:
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"],
                            technique=p["_t"] or TRACE, level="model_checking", level_note=p["_n"] or NOTE))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(m["checks"]), "checks")
