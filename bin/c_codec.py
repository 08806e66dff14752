"""Codec properties: Codec.tla is the specification of values, bytes and rules. TLC enumerates boundary
packets (MCCodec) that are replayed on the real builders and parsers; random, damaged and exhaustively
enumerated inputs are recorded; every record is judged by TLC (TraceCodec)."""
import json, os
from vlib import *

PARTS = ["prop", "rc", "field", "len", "size"]
# property -> parts of MCCodec, random builds, random parses, acceptance sets, pieces, exhaustive bodies, feature builds
PLAN = {
    "C02": dict(parts=PARTS, build=8, feats=[("sso-lv10",)]),
    "C03": dict(parts=PARTS, build=4, parse=4, sets=8, pieces=1),
    "C04": dict(parse=8, sets=4, pieces=2, ex=8),
    "C18": dict(parts=["prop"], build=4, parse=2, sets=8, pieces=2),
}
DEEP = {
    "C02": dict(parts=PARTS, build=64, feats=[("sso-lv10",), ("sso-lv20",), ("sso-min-32bit",), ("sso-min-64bit",)]),
    "C03": dict(parts=PARTS, build=32, parse=32, sets=16, pieces=8),
    "C04": dict(parse=64, sets=16, pieces=16, ex=8),
    "C18": dict(parts=["prop", "rc"], build=32, parse=16, sets=16, pieces=16),
}
N = dict(build=8000, parse=8000, pieces=100000)
SLICE = 6000


def run(pid):
    c = Check(pid)
    b = build()
    wd = c.wd
    plan = (DEEP if THOROUGH else PLAN)[pid]

    def judge(tag, tr):
        t = tlc("TraceCodec", "TraceCodec.cfg", wd, env={"TRACE": tr, "PROP": pid}, tag=tag, heap="3g", timeout=3000 if THOROUGH else 700)
        viol, first = [], {}
        if t.viols:
            lines = open(tr).read().splitlines()
            for i, (_, l, m) in enumerate(t.viols):
                viol.append(("%s (%s record %d)" % (m, tag, l), lines[l - 1][:20000] if i < 20 else None))
        return viol

    def job(tag, binary, args):
        def f():
            tr = os.path.join(wd, tag + ".ndjson")
            st, msg = harness(binary, *args, "--out", tr, timeout=3000 if THOROUGH else 400)
            if st != 0:
                return tag, 0, {}, [("the codec did not return (%s): %s" % (st, str(msg)[-800:]), args)], []
            n, stats, sample = 0, {}, []
            for x in open(tr):
                n += 1
                if n < 3:
                    sample.append(x[:600])
                if x.startswith('{"accepted"'):
                    d = json.loads(x)
                    stats = {"inputs_parsed": d["parsed"], "inputs_accepted": d["accepted"]}
            if args[0] == "codec-sets":
                tot = 0
                for x in open(tr):
                    d = json.loads(x)
                    tot += sum(len(d["alpha"]) ** k for k in range(d["len"] + 1))
                stats = {"bodies_decoded_by_specification_and_parser": tot}
            v = judge(tag, tr)
            os.unlink(tr)
            return tag, n, stats, v, sample
        return f

    def vectors(part):
        def f():
            r = tlc("MCCodec", "MCCodec.cfg", wd, env={"PART": part}, tag=part, heap="4g", timeout=600)
            vec = os.path.join(wd, "vec_%s.ndjson" % part)
            n = 0
            with open(vec, "w") as o:
                for v in r.json_lines():
                    o.write(json.dumps(v) + "\n")
                    n += 1
            if n < 1000:
                raise Tool("TLC produced only %d vectors for %s" % (n, part))
            return part, r, vec, n
        return f

    pre = parallel([vectors(p) for p in plan.get("parts", [])] + [(lambda f=f: (f, build(f))) for f in plan.get("feats", [])])
    bins = [("", b)] + [("+".join(x[0]), x[1]) for x in pre if len(x) == 2]
    jobs = []
    for x in pre:
        if len(x) == 4:
            part, r, vec, n = x
            c.model("MCCodec %s" % part, r)
            c.add("specification_vectors", n)
            ls = open(vec).read().splitlines()
            for name, bn in bins:
                for i in range(0, len(ls), SLICE):
                    sl = "%s.%d" % (vec, i)
                    if not os.path.exists(sl):
                        open(sl, "w").write("\n".join(ls[i:i + SLICE]) + "\n")
                    jobs.append(job("vec_%s%d%s" % (part, i, name), bn, ["codec-replay", "--in", sl]))
    for i in range(plan.get("ex", 0)):
        jobs.insert(0, job("ex%d" % i, b, ["codec-ex", "--shard", i, "--of", plan["ex"], "--deep", 1 if THOROUGH else 0, "--seed", SEED]))
    for name, bn in bins:
        for m in ("build", "parse"):
            for i in range(plan.get(m, 0)):
                jobs.append(job("%s%d%s" % (m, i, name), bn, ["codec", "--seed", SEED * 1000 + i + (500 if m == "parse" else 0), "--n", N[m], "--mode", m]))
    for i in range(plan.get("sets", 0)):
        jobs.append(job("set%d" % i, b, ["codec-sets", "--shard", i, "--of", plan["sets"], "--deep", 1 if THOROUGH else 0]))
    for i in range(plan.get("pieces", 0)):
        jobs.append(job("piece%d" % i, b, ["codec-pieces", "--seed", SEED * 100 + i, "--n", N["pieces"]]))
    for tag, n, stats, viol, sample in parallel(jobs):
        c.add("records_judged", n)
        c.add("traces_validated_against_impl", n)
        c.add("states", n)
        c.add("transitions", n)
        for k, v in stats.items():
            c.add(k, v)
        for m, r in viol:
            c.violation(m, r)
        if sample and tag.endswith("0"):
            c.sample(sample[0])
    c.assumptions += ["lengths above 65535 and payloads above 2 MB + are represented by the boundary sizes only",
                      "packets on which the documents leave room (Plain in Codec.tla) are not demanded to be accepted",
                      "acceptance is exhausted over short bodies and small alphabets; longer inputs are sampled"]
    return c.finish()


CHECKS = {p: run for p in PLAN}
