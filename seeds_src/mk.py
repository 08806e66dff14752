#!/usr/bin/env python3
"""mk.py [ids]: writes seeded/<id>/ (patch from /tmp/seedw/<id>.diff, demo, meta) from SEEDS in seeds.py"""
import os, sys, json, shutil
H = os.path.dirname(os.path.abspath(__file__)); S = os.path.join(os.path.dirname(H), "seeded")
ns = {}; exec(open(os.path.join(H, "seeds.py")).read(), ns)
for i, (prop, needs, breaks, code) in ns["SEEDS"].items():
    if sys.argv[1:] and i not in sys.argv[1:]: continue
    d = os.path.join(S, i); os.makedirs(d, exist_ok=True)
    p = "/tmp/seedw/%s.diff" % i
    if os.path.exists(p): shutil.copy(p, d + "/patch.diff")
    shutil.copy(H + "/h.rs", d + "/h.rs")
    shutil.copy(H + "/demo.sh", d + "/demo.sh")
    open(d + "/demo.rs", "w").write("#[allow(unused)]\nmod h;\n#[allow(unused)]\nuse h::*;\n" + ns.get("PRE", "") + code)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
