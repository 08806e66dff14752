"""Connection properties: traces of the real connection object, recorded by the random driver and by
replaying behaviours enumerated by TLC, judged by TLC against Conn.tla and the monitors of Props.tla."""
import json, os, re
import scenes
from vlib import *

# property -> (profile, shards) of one round; every shard is an independent seed
PLAN = {
    "C05": [("C05", 4), ("mix", 1), ("C14", 1), ("C17", 1), ("C09", 1)],
    "C06": [("C06", 5), ("mix", 1), ("C14", 1), ("C12", 1)],
    "C07": [("C07", 6), ("mix", 1), ("C12", 1)],
    "C08": [("C08", 5), ("mix", 1), ("C06", 1), ("C11", 1)],
    "C09": [("C09", 4)],
    "C10": [("C10", 8)],
    "C11": [("C11", 8)],
    "C12": [("C12", 6), ("mix", 1), ("C06", 1)],
    "C13": [("C13", 6), ("mix", 1), ("C14", 1)],
    "C14": [("C14", 6), ("mix", 1), ("C13", 1)],
    "C15": [("C15", 6), ("mix", 1), ("C19", 1)],
    "C16": [("C16", 8)],
    "C17": [("C17", 7), ("mix", 1)],
    "C19": [("C19", 5), ("C15", 1), ("C05", 1), ("C14", 1)],
}
TRACES = 400
ROUNDS = 1 if not THOROUGH else 12
LIMITS = dict(harness=200, tlc=700 if not THOROUGH else 5400)


def window(lines, l, n=60):
    """the part of the trace that leads to line l (1-based)"""
    s = l - 1
    while s > 0 and '"k":"new"' not in lines[s]:
        s -= 1
    return [lines[s]] + lines[max(s + 1, l - n):l]


def judge(c, pid, tr, wd, tag, seed="", prof=""):
    """validates one recorded trace file with TLC; returns the violations found"""
    t = tlc("TraceConn", "TraceConn.cfg", wd, env={"TRACE": tr, "PROP": pid}, tag=tag, heap="3g", timeout=LIMITS["tlc"])
    return t


def shard(b, wd, pid, prof, seed, traces):
    def f():
        tag = "%s_%d" % (prof, seed)
        tr = os.path.join(wd, "t_%s.ndjson" % tag)
        st, msg = harness(b, "conn", "--prof", prof, "--seed", seed, "--traces", traces, "--out", tr, timeout=LIMITS["harness"])
        if st != 0:
            return tag, 0, 0, [("the connection object did not return (%s): %s" % (st, str(msg)[-800:]), None)], [], {}
        t = judge(None, pid, tr, wd, tag)
        lines = open(tr).read().splitlines()
        kinds = {}
        for x in lines:
            k = x[6:x.find('"', 6)] if x.startswith('{"k":"') else "?"
            kinds[k] = kinds.get(k, 0) + 1
        viol = [("%s (profile %s seed %d line %d)" % (m, prof, seed, l),
                 {"profile": prof, "seed": seed, "line": l, "trace": window(lines, l) if i < 20 else None})
                for i, (_, l, m) in enumerate(t.viols)]
        ntr = sum('"k":"new"' in x for x in lines)
        sample = lines[1:3]
        os.unlink(tr)
        return tag, len(lines), ntr, viol, sample, kinds
    return f


def traces(c, b, pid, plan=None):
    jobs = scene_jobs(c, b, pid)
    for r in range(ROUNDS):
        i = 0
        for prof, n in plan or PLAN[pid]:
            for _ in range(n):
                jobs.append((45, "trace", shard(b, c.wd, pid, prof, SEED * 100000 + r * 1000 + i, TRACES)))
                i += 1
    jobs.sort(key=lambda j: -j[0])
    for (_, kind, _), res in zip(jobs, parallel([j[2] for j in jobs])):
        if kind == "scene":
            scene_result(c, res)
            continue
        tag, nl, ntr, viol, sample, kinds = res
        c.add("trace_events_validated", nl)
        c.add("traces_validated_against_impl", ntr)
        c.add("states", nl)
        c.add("transitions", nl)
        for m, r in viol:
            c.violation(m, r)
        for s in sample:
            c.sample(s[:600])


SCENE_CALLS = 200000 if not THOROUGH else 10 ** 9     # calls performed on the real object, over all scenes of a property


def scene_jobs(c, b, pid):
    """model checks each scene of the property with TLC and performs walks through its state graph on the real object"""
    ss = [s for s in scenes.S if pid in s["props"] and (THOROUGH or not s.get("deep"))]
    budget = SCENE_CALLS // max(1, len(ss))

    def one(s):
        def f():
            n = s["name"]
            p, a, e, tr = (os.path.join(c.wd, x + n) for x in ("scene_", "alpha_", "edges_", "walks_"))
            json.dump(s, open(p, "w"))
            st, msg = harness(b, "conn-alphabet", "--in", p, "--out", a, timeout=60)
            if st != 0:
                raise Tool("alphabet of scene %s: %s" % (n, msg))
            r = tlc("MCConn", "MCConn.cfg", c.wd, env={"ALPHA": a, "EMIT": "1", "PROP": pid}, tag=n, timeout=LIMITS["tlc"], ok=(0, 12))
            if r.rc == 12:
                return s, r, {}, [("the specification violates its own monitors in scene %s: %s" % (n, re.sub(r'"EDGE.*\n', "", r.out)[-2500:]), None)], 0
            with open(e, "w") as o:
                for l in r.out.splitlines():
                    if l.startswith('"INIT|') or l.startswith('"EDGE|'):
                        o.write(l[6:-1] + "\n")
            r.out = ""
            st, msg = harness(b, "conn-replay", "--in", p, "--edges", e, "--prof", pid, "--seed", SEED, "--budget", budget, "--out", tr, timeout=LIMITS["harness"])
            os.unlink(e)
            if st != 0:
                return s, r, {}, [("the connection object did not return (scene %s, %s): %s" % (n, st, str(msg)[-800:]), None)], 0
            w = json.loads(msg)
            t = judge(c, pid, tr, c.wd, n)
            lines = open(tr).read().splitlines()
            os.unlink(tr)
            return s, r, w, [("%s (scene %s line %d)" % (m, n, l), {"scene": n, "line": l, "trace": window(lines, l) if i < 20 else None})
                             for i, (_, l, m) in enumerate(t.viols)], len(lines)
        return f
    return [(len(s["calls"]) * len(s["ids"]), "scene", one(s)) for s in ss]


def scene_result(c, x):
    s, r, w, viol, nl = x
    c.model("MCConn %s" % s["name"], r)
    if w:
        c.add("scene_walks_replayed", w["walks"])
        c.add("traces_validated_against_impl", w["walks"])
        c.add("trace_events_validated", nl)
        c.add("scene_transitions", w["edges"])
        c.add("scene_transitions_replayed", w["edges"] - w["left"])
        c.add("scene_calls_skipped", w["skipped"])
    for m, rp in viol:
        c.violation(m, rp)


ASSUME = ["the application keeps its contract: it sends PUBREL once per exchange, uses only identifiers it acquired or registered, "
          "reports a requested close, and fires only timers that are armed",
          "sizes and contents are drawn from the driver's alphabet; histories are sampled, not exhausted"]


def run(pid):
    c = Check(pid)
    b = build()
    traces(c, b, pid)
    c.assumptions += ASSUME
    return c.finish()


def framing(c, b):
    """every partition of short streams (enumerated by TLC) and random long streams, byte-level automaton against recv"""
    wd = c.wd

    def vectors():
        r = tlc("MCFraming", "MCFraming.cfg", wd, timeout=300)
        vec = os.path.join(wd, "vec.ndjson")
        n = 0
        with open(vec, "w") as f:
            for v in r.json_lines():
                f.write(json.dumps(v) + "\n")
                n += 1
        if n < 10000:
            raise Tool("TLC produced only %d partitions" % n)
        return r, n, one("vectors", ["frame-replay", "--in", vec])

    def one(tag, args):
        tr = os.path.join(wd, "fr_%s.ndjson" % tag)
        st, msg = harness(b, *args, "--out", tr, timeout=LIMITS["harness"])
        if st != 0:
            return 0, 0, [("the connection object did not return (%s): %s" % (st, str(msg)[-800:]), None)]
        t = tlc("TraceFraming", "TraceFraming.cfg", wd, env={"TRACE": tr}, tag=tag, timeout=LIMITS["tlc"])
        lines = open(tr).read().splitlines()
        os.unlink(tr)
        return len(lines), sum('"k":"new"' in x for x in lines), [
            ("%s (stream %s line %d)" % (m, tag, l), {"args": [str(a) for a in args], "line": l, "trace": [x[:3000] for x in window(lines, l)] if i < 10 else None})
            for i, (_, l, m) in enumerate(t.viols)]

    res = parallel([vectors] + [(lambda i=i: one("r%d" % i, ["frame", "--seed", SEED * 1000 + i, "--traces", 1500 if not THOROUGH else 12000]))
                                for i in range(4 if not THOROUGH else 16)])
    r, n, v = res[0]
    c.model("MCFraming (all partitions)", r)
    c.add("stream_partitions_enumerated_and_replayed", n)
    for nl, ntr, viol in [v] + res[1:]:
        c.add("feed_calls_validated", nl)
        c.add("traces_validated_against_impl", ntr)
        for m, rp in viol:
            c.violation(m, rp)


def run_c09(pid):
    c = Check(pid)
    b = build()
    framing(c, b)
    traces(c, b, pid)
    c.assumptions += ASSUME
    return c.finish()


CHECKS = {p: run for p in PLAN}
CHECKS["C09"] = run_c09
