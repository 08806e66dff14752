"""C01: two endpoints.  Pair.tla (two Conn states, the packets in flight, the applications) is model-checked: the
monitor PairMon as an invariant and termination as a liveness property over every interleaving of small workloads.
TLC prints a schedule per transition; the harness performs each on two real connection objects, finishes the
exchange, and TLC judges what they did with the same monitor.  Random schedules go further than the small ones."""
import json, os
from vlib import *


def pub(q, t="a", a=0):
    return {"o": "pub", "q": q, "t": t, "a": a}


def o(k):
    return {"o": k, "q": 0, "t": "", "a": 0}


def conf(name, v=5, ops=((), ()), cuts=1, **kw):
    d = dict(v=v, w=2, pers=True, clean1=(v == 5), ka=0, apub=[True, True], amap=[False, False], arep=[False, False],
             rm=[0, 0], tam=[0, 0], mps=[0, 0], cuts=cuts, ops=[list(ops[0]), list(ops[1])])
    d.update(kw)
    return name, d


M, A = [False, False], [True, True]
QUICK = [
    conf("v5_mixed_rm", ops=((pub(2), pub(1)), (pub(2),)), apub=[True, False], rm=[1, 2]),
    conf("v3_manual", v=3, ops=((pub(2), pub(1)), (pub(1),)), apub=M),
    conf("v3_auto_2cuts", v=3, ops=((pub(2),), (pub(1),)), cuts=2),
    conf("v5_manual_2cuts", ops=((pub(2),),  ()), cuts=2, apub=M, rm=[1, 1]),
    conf("v5_alias", ops=((pub(2, "a", 1), pub(1, "", 1)), ()), tam=[0, 1], apub=[True, True]),
    conf("v5_automap", ops=((pub(1, "a"), pub(0, "a"), pub(2, "t/1")), ()), tam=[0, 1], amap=[True, False]),
    conf("v5_autoreplace_server", ops=((), (pub(1, "t/1", 1), pub(1, "t/1"))), tam=[1, 0], arep=[False, True], apub=[False, True]),
    conf("v5_subs", ops=((o("subscribe"), pub(1), o("unsubscribe")), (pub(2),)), apub=A, rm=[1, 1]),
    conf("v3_subs_ping", v=3, ops=((o("subscribe"), o("ping"), pub(2)), ()), apub=M, ka=10),
    conf("v5_nosession", ops=((pub(2), pub(0), pub(1)), (pub(2), pub(1))), pers=False, cuts=0, apub=M, rm=[1, 1]),
    conf("v5_w4", ops=((pub(2), pub(2)), ()), w=4, apub=[False, True], rm=[0, 2]),
    conf("v5_rm1_server", ops=((), (pub(2), pub(2))), rm=[1, 0], apub=[True, False]),
]
DEEP = [
    conf("v5_mixed_rm_2cuts", ops=((pub(2), pub(1)), (pub(2),)), apub=[True, False], rm=[1, 2], cuts=2),
    conf("v3_manual_3", v=3, ops=((pub(2), pub(1)), (pub(1), pub(2))), apub=M),
    conf("v3_auto_3cuts", v=3, ops=((pub(2), pub(1)), (pub(2),)), cuts=2),
    conf("v5_manual_3cuts", ops=((pub(2), pub(1)), ()), cuts=3, apub=M, rm=[1, 1]),
    conf("v5_alias_2cuts", ops=((pub(2, "a", 1), pub(1, "", 1), pub(2, "", 1)), ()), tam=[0, 1], cuts=2),
    conf("v5_alias_rebind", ops=((pub(2, "a", 1), pub(1, "t/1", 1), pub(2, "", 1)), (pub(1),)), tam=[0, 1], cuts=1),
    conf("v5_automap_2", ops=((pub(1, "a"), pub(2, "a"), pub(2, "t/1"), pub(1, "a")), ()), tam=[0, 2], amap=[True, False], cuts=2),
    conf("v5_both_autoreplace", ops=((pub(1, "a", 1), pub(2, "a")), (pub(2, "t/1", 1), pub(1, "t/1"))), tam=[1, 1], arep=A),
    conf("v5_subs_2", ops=((o("subscribe"), pub(1), o("unsubscribe"), pub(2)), (pub(2), pub(1))), rm=[1, 1]),
    conf("v3_subs_2", v=3, ops=((o("subscribe"), pub(2), o("unsubscribe")), (pub(1),)), cuts=2, apub=M),
    conf("v5_nosession_3", ops=((pub(2), pub(1), pub(2)), (pub(2), pub(1))), pers=False, cuts=0, apub=M, rm=[2, 2]),
    conf("v5_w4_2", ops=((pub(2), pub(2)), (pub(1),)), w=4, apub=[False, True], rm=[0, 2], cuts=2),
]


def validate(c, b, tag, args):
    tr = os.path.join(c.wd, "p_%s.ndjson" % tag)
    st, msg = harness(b, *args, "--out", tr, timeout=300)
    if st != 0:
        return 0, 0, 0, [("the connection object did not return (%s): %s" % (st, str(msg)[-800:]), None)]
    t = tlc("TracePair", "TracePair.cfg", c.wd, env={"TRACE": tr}, tag="_" + tag, timeout=1500 if THOROUGH else 700)
    lines = open(tr).read().splitlines()
    viol = []
    for i, (_, l, m) in enumerate(t.viols):
        s = l - 1
        while s > 0 and '"k":"new"' not in lines[s]:
            s -= 1
        viol.append(("%s (%s line %d)" % (m, tag, l),
                     {"args": [str(a) for a in args], "line": l, "trace": lines[s:l][-200:] if i < 10 else None}))
    os.unlink(tr)
    return len(lines), sum('"k":"new"' in x for x in lines), len(list(t.tagged("NOTE"))), viol


def schedules(r):
    """the schedules TLC printed, without those that are a prefix of another"""
    S = sorted(json.loads('"%s"' % l[len('"SCHED|'):-1]) for l in r.out.splitlines() if l.startswith('"SCHED|'))
    return [x for x, y in zip(S, S[1:] + [""]) if not y.startswith(x[:-1] + ",")]


def world(c, b, name, cf, cap=None):
    def f():
        p = os.path.join(c.wd, "cf_%s.json" % name)
        with open(p, "w") as h:
            h.write(json.dumps(cf) + "\n")
        live = tlc("MCPair", "MCPair.cfg", c.wd, env={"CONF": p, "EMIT": "0"}, tag="_" + name, workers=1, timeout=1500 if THOROUGH else 400)
        emit = tlc("MCPair", "MCPairEmit.cfg", c.wd, env={"CONF": p, "EMIT": "1"}, tag="_" + name, workers=1, timeout=1500 if THOROUGH else 400)
        S = schedules(emit)
        if not S or emit.distinct != live.distinct:
            raise Tool("MCPair %s: %d schedules, %d / %d states" % (name, len(S), emit.distinct, live.distinct))
        emit.out = ""
        if cap and len(S) > cap:
            k = len(S) / cap
            S = [S[int(i * k) + (SEED % max(1, int(k)))] for i in range(cap)]
        q = os.path.join(c.wd, "sc_%s.ndjson" % name)
        res = []
        step = 4000
        for k in range(0, len(S), step):
            with open(q, "w") as h:
                h.write(json.dumps(cf) + "\n" + "\n".join(S[k:k + step]) + "\n")
            res.append(validate(c, b, "%s_%d" % (name, k), ["pair-replay", "--in", q]))
        return name, live, len(S), S[-1], res
    return f


def rnd(c, b, i):
    def f():
        return validate(c, b, "random%d" % i, ["pair", "--seed", SEED * 1000 + i, "--traces", 400])
    return f


def run(pid):
    c = Check(pid)
    b = build()
    # the larger workloads are model-checked in full; the quick tier replays a sample of their schedules
    jobs = [world(c, b, n, cf, None if THOROUGH else 800) for n, cf in DEEP if THOROUGH or n != "v3_manual_3"]
    jobs += [world(c, b, n, cf) for n, cf in QUICK]
    jobs += [rnd(c, b, i) for i in range(8 if not THOROUGH else 120)]
    for r in parallel(jobs):
        if len(r) == 5:
            name, live, n, s, res = r
            c.model("MCPair " + name, live)
            c.add("schedules_enumerated_and_replayed", n)
            c.sample(s[:500])
        else:
            res = [r]
        for nl, ntr, notes, viol in res:
            c.add("events_validated", nl)
            c.add("traces_validated_against_impl", ntr)
            c.add("files_where_a_side_left_the_specification", notes)
            for m, rp in viol:
                c.violation(m, rp)
    c.assumptions += [
        "what is in flight when the transport is lost is gone in both directions; the client reconnects without clean start",
        "the applications answer every request once, and publish only while the exchange is not exhausted",
        "workloads of the exhaustive part are small (2 to 5 operations, up to 3 losses); the random part is sampled"]
    return c.finish()


CHECKS = {"C01": run}
