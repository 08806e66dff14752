import json, os
from vlib import *


def run(pid):
    c = Check(pid)
    b = build()
    wd = c.wd
    ntr, steps, shards = (60, 200, 6) if not THOROUGH else (300, 400, 24)
    W = 6 if not THOROUGH else 9

    def rle():
        cfg = os.path.join(wd, "rle.cfg")
        open(cfg, "w").write(open(os.path.join(SPEC, "AllocRle.cfg")).read().replace("W = 6", "W = %d" % W))
        r = tlc("AllocRle", cfg, wd, timeout=600)
        vec = os.path.join(wd, "vec.ndjson")
        n = 0
        with open(vec, "w") as f:
            for v in r.json_lines():
                f.write(json.dumps(v) + "\n")
                n += 1
        if n < 100:
            raise Tool("TLC produced only %d vectors" % n)
        res = os.path.join(wd, "vec.out")
        st, msg = harness(b, "alloc-replay", "--in", vec, "--out", res)
        if st != 0:
            return r, n, 0, [("allocator did not return: " + str(msg), None)]
        bad, done = [], 0
        for l in open(res):
            d = json.loads(l)
            if "done" in d:
                done = d["done"]
            else:
                bad.append(("transition %s on %s/%s route %s: got ret=%s obs=%s drain=%s panic=%s" % (
                    json.dumps(d["vec"]), d["type"], d["at"], d["route"], d.get("ret"), d.get("obs"), d.get("drain"), d.get("panic")), d))
        return r, n, done, bad

    def shard(i):
        def f():
            tr = os.path.join(wd, "t%d.ndjson" % i)
            st, msg = harness(b, "alloc-trace", "--seed", SEED * 1000 + i, "--traces", ntr, "--steps", steps, "--out", tr)
            if st != 0:
                return None, tr, "allocator did not return: " + str(msg)
            return tlc("TraceAlloc", "TraceAlloc.cfg", wd, env={"TRACE": tr}, tag=str(i)), tr, None
        return f

    res = parallel([rle] + [shard(i) for i in range(shards)])
    r, n, done, bad = res[0]
    c.model("AllocRle(W=%d) refines Alloc" % W, r)
    c.add("transitions_replayed_on_real_code", done)
    c.add("spec_transitions_enumerated", n)
    for m, d in bad:
        c.violation(m, d)
    for t, tr, err in res[1:]:
        if err:
            c.violation(err)
            continue
        lines = open(tr).read().splitlines()
        c.add("trace_events_validated", len(lines))
        c.add("traces_validated_against_impl", sum('"c":"new"' in l for l in lines))
        for p, l, m in t.viols:
            c.violation("trace %s line %d: %s" % (os.path.basename(tr), l, m), lines[max(0, l - 20):l])
    c.sample(lines[1])
    c.sample(lines[len(lines) // 2])
    c.assumptions += ["values outside the range are never released (documented assertion)",
                      "the representation is observed through interval_count, first_vacant, is_used over the range and the order in which a copy drains"]
    return c.finish()


CHECKS = {"C20": run}
