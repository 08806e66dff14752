"""Scenes of MCConn: role, version, options and a small alphabet of calls each. `for`: the properties whose check
explores the scene; `prof`: the driver profile (twin object) used when its schedules are replayed."""


def snd(k, **a):
    return {"c": "send", "p": dict(k=k, **a)}


def rcv(k, **a):
    return {"c": "recv", "p": dict(k=k, **a)}


def ids(*xs):
    return [{"c": "acquire"}] if not xs else [{"c": "register", "id": x} for x in xs]


CLOSED = {"c": "closed"}
CRASH = {"c": "crash"}


def tm(*ts):
    return [{"c": "timer", "t": t} for t in ts]


def scene(name, props, role, v, calls, ids=(1, 2), opts=(), **kw):
    return dict(name=name, props=props, role=role, v=v, ids=list(ids), opts=[list(o) for o in opts], calls=list(calls), **kw)


def client5(cl=0, sei=10, **a):
    return snd("connect", cl=cl, sei=sei, **a)


ACKS = lambda i: [rcv("puback", id=i), rcv("pubrec", id=i), rcv("pubcomp", id=i)]

S = [
    # outbound exchanges, sessions, identifiers
    scene("c5_out", ["C06", "C08", "C12"], "c", 5,
          [client5(), client5(cl=1, sei=0), rcv("connack", rm=1), rcv("connack", sp=1, rm=1), CLOSED,
           {"c": "register", "id": 1}, {"c": "register", "id": 2},
           snd("publish", id=1, q=1), snd("publish", id=2, q=2), rcv("puback", id=1), rcv("pubrec", id=2),
           rcv("pubrec", id=2, rc=128), snd("pubrel", id=2), rcv("pubcomp", id=2)]),
    scene("c3_out", ["C06", "C08"], "c", 3,
          [snd("connect", cl=0), snd("connect", cl=1), rcv("connack"), rcv("connack", sp=1), rcv("connack", rc=2), CLOSED,
           {"c": "acquire"}, {"c": "release", "id": 1}, snd("publish", id=1, q=1), snd("publish", id=2, q=2), rcv("puback", id=1),
           rcv("pubrec", id=2), snd("pubrel", id=2), rcv("pubcomp", id=2), rcv("puback", id=2)]),
    scene("c3_out_auto", ["C06", "C16"], "c", 3,
          [snd("connect", cl=0), rcv("connack"), rcv("connack", sp=1), CLOSED, CRASH,
           {"c": "register", "id": 1}, {"c": "register", "id": 2}, snd("publish", id=1, q=1), snd("publish", id=2, q=2), snd("publish", id=1, q=2),
           rcv("puback", id=1), rcv("pubrec", id=2), rcv("pubcomp", id=2), rcv("pubrec", id=1), rcv("pubcomp", id=1)],
          opts=[("auto_pub", 1)]),
    scene("c5_out_auto_m2", ["C06", "C12", "C16"], "c", 5,
          [client5(), rcv("connack", rm=2), rcv("connack", sp=1, rm=2), rcv("connack", sp=1, rm=1), CLOSED, CRASH,
           {"c": "register", "id": 1}, {"c": "register", "id": 2}, snd("publish", id=1, q=1), snd("publish", id=1, q=2), snd("publish", id=2, q=2),
           rcv("puback", id=1), rcv("pubrec", id=1), rcv("pubrec", id=2), rcv("pubrec", id=2, rc=128), rcv("pubcomp", id=1), rcv("pubcomp", id=2)],
          opts=[("auto_pub", 1)]),
    scene("s5_out", ["C06", "C08", "C12"], "s", 5,
          [rcv("connect", sei=10, rm=2), rcv("connect", sei=10, rm=1), rcv("connect", cl=1), snd("connack"), snd("connack", sp=1), CLOSED,
           {"c": "register", "id": 1}, {"c": "register", "id": 2},
           snd("publish", id=1, q=2), snd("publish", id=2, q=1), rcv("puback", id=2), rcv("pubrec", id=1), snd("pubrel", id=1),
           rcv("pubcomp", id=1), {"c": "erase", "id": 1}, {"c": "erase", "id": 2}]),
    scene("s3_out_offline", ["C06", "C08"], "s", 3,
          [rcv("connect"), rcv("connect", cl=1), snd("connack"), snd("connack", sp=1), snd("connack", rc=5), CLOSED,
           {"c": "register", "id": 1}, {"c": "register", "id": 2},
           snd("publish", id=1, q=2), snd("publish", id=2, q=1), snd("publish", q=0), rcv("puback", id=2), rcv("pubrec", id=1),
           rcv("pubcomp", id=1)], opts=[("auto_pub", 1), ("offline", 1)]),
    scene("c5_subs", ["C08", "C11"], "c", 5,
          [client5(), client5(cl=1, sei=0), rcv("connack"), rcv("connack", sp=1), CLOSED, {"c": "acquire"}, {"c": "register", "id": 2},
           {"c": "release", "id": 1}, {"c": "release", "id": 2}, snd("subscribe", id=1), snd("unsubscribe", id=2), snd("publish", id=1, q=1),
           snd("subscribe", id=2), rcv("suback", id=1), rcv("suback", id=2), rcv("unsuback", id=2), rcv("unsuback", id=1), rcv("puback", id=1)]),
    scene("c3_subs", ["C08"], "c", 3,
          [snd("connect", cl=1), snd("connect", cl=0), rcv("connack"), rcv("connack", sp=1), CLOSED, {"c": "acquire"}, {"c": "register", "id": 2},
           {"c": "release", "id": 1}, {"c": "release", "id": 2}, snd("subscribe", id=1), snd("unsubscribe", id=1), snd("publish", id=2, q=2),
           rcv("suback", id=1), rcv("unsuback", id=1), rcv("pubrec", id=2), snd("pubrel", id=2), rcv("pubcomp", id=2)]),
    # inbound QoS 2 exchanges
    scene("s3_in", ["C07", "C16"], "s", 3,
          [rcv("connect"), rcv("connect", cl=1), snd("connack"), snd("connack", sp=1), CLOSED, CRASH,
           rcv("publish", id=1, q=2), rcv("publish", id=1, q=2, d=1), rcv("publish", id=2, q=2), rcv("publish", id=1, q=1), rcv("publish", q=0),
           rcv("pubrel", id=1), rcv("pubrel", id=2), snd("pubrec", id=1), snd("pubcomp", id=1), snd("pubrec", id=2)]),
    scene("s3_in_auto", ["C07"], "s", 3,
          [rcv("connect"), rcv("connect", cl=1), snd("connack"), snd("connack", sp=1), CLOSED,
           rcv("publish", id=1, q=2), rcv("publish", id=1, q=2, d=1), rcv("publish", id=2, q=2), rcv("publish", id=2, q=1),
           rcv("pubrel", id=1), rcv("pubrel", id=2)], opts=[("auto_pub", 1)]),
    scene("c5_in", ["C07", "C12", "C16"], "c", 5,
          [client5(rm=1), client5(cl=1, sei=0), rcv("connack"), rcv("connack", sp=1), CLOSED, CRASH,
           rcv("publish", id=1, q=2), rcv("publish", id=1, q=2, d=1), rcv("publish", id=2, q=1), rcv("publish", id=2, q=2),
           rcv("pubrel", id=1), rcv("pubrel", id=2), snd("pubrec", id=1), snd("pubrec", id=1, rc=128), snd("pubcomp", id=1),
           snd("puback", id=2), snd("pubrec", id=2), snd("pubcomp", id=2)]),
    scene("s5_in_auto", ["C07", "C12"], "s", 5,
          [rcv("connect", sei=10), rcv("connect", cl=1), snd("connack", rm=1), snd("connack", sp=1, rm=2), CLOSED,
           rcv("publish", id=1, q=2), rcv("publish", id=1, q=2, d=1), rcv("publish", id=2, q=2), rcv("publish", id=2, q=1),
           rcv("publish", id=3, q=1), rcv("pubrel", id=1), rcv("pubrel", id=2)], ids=(1, 2, 3), opts=[("auto_pub", 1)]),
    # topic aliases
    scene("c5_alias_out", ["C13"], "c", 5,
          [client5(), rcv("connack", tam=2), rcv("connack", sp=1, tam=1), CLOSED, {"c": "register", "id": 1},
           snd("publish", t="a", a=1), snd("publish", t="bb", a=1), snd("publish", t="a", a=2), snd("publish", t="bb", a=2),
           snd("publish", t="", a=1), snd("publish", t="", a=2), snd("publish", t="", a=3), snd("publish", id=1, q=1, t="", a=1),
           snd("publish", id=1, q=1, t="bb", a=1), {"c": "regulate", "p": dict(k="publish", t="", a=1)}, rcv("puback", id=1)]),
    scene("c5_automap", ["C13"], "c", 5,
          [client5(), rcv("connack", tam=2), rcv("connack", sp=1, tam=2), CLOSED, {"c": "register", "id": 1},
           snd("publish", t="a"), snd("publish", t="bb"), snd("publish", t="ccc"), snd("publish", id=1, q=1, t="a"), snd("publish", t="ccc", a=1),
           snd("publish", t="", a=2), rcv("puback", id=1)], opts=[("auto_map", 1)]),
    scene("s5_autoreplace", ["C13"], "s", 5,
          [rcv("connect", sei=10, tam=2), rcv("connect", sei=10), snd("connack"), snd("connack", sp=1), CLOSED, {"c": "register", "id": 1},
           snd("publish", t="a"), snd("publish", t="bb"), snd("publish", t="a", a=1), snd("publish", t="a", a=2), snd("publish", t="bb", a=1), snd("publish", t="bb", a=2),
           snd("publish", id=1, q=1, t="bb"), snd("publish", t="", a=1), rcv("puback", id=1)], opts=[("auto_replace", 1)]),
    scene("c5_alias_in", ["C13", "C10"], "c", 5,
          [client5(tam=2), client5(), client5(cl=1, sei=0, tam=1), rcv("connack"), rcv("connack", sp=1), CLOSED,
           rcv("publish", t="a", a=1), rcv("publish", t="b", a=1), rcv("publish", t="b", a=2), rcv("publish", t="", a=1), rcv("publish", t="", a=2),
           rcv("publish", t="a", a=3), rcv("publish", t="", a=0), rcv("publish", t="c", id=1, q=1, a=2)], opts=[("auto_pub", 1)]),
    scene("s5_alias_in", ["C13"], "s", 5,
          [rcv("connect", sei=10), rcv("connect", cl=1), snd("connack", tam=1), snd("connack", sp=1, tam=2), snd("connack", sp=1), CLOSED,
           rcv("publish", t="a", a=1), rcv("publish", t="b", a=1), rcv("publish", t="b", a=2), rcv("publish", t="", a=1), rcv("publish", t="", a=2),
           rcv("publish", t="a", a=3), rcv("publish", t="", id=1, q=2, a=1), rcv("pubrel", id=1)], opts=[("auto_pub", 1)]),
    # sizes
    scene("c5_size", ["C14"], "c", 5,
          [client5(mps=20), client5(), client5(cl=1, sei=0, mps=20), rcv("connack", mps=20), rcv("connack", sp=1, mps=12), rcv("connack", sp=1), CLOSED,
           {"c": "register", "id": 1}, {"c": "register", "id": 2}, snd("publish", id=1, q=1, n=3), snd("publish", id=2, q=2, n=10), snd("publish", n=13), snd("publish", n=14),
           rcv("publish", n=13), rcv("publish", n=14), rcv("puback", id=1), rcv("pubrec", id=2), snd("subscribe", id=1), rcv("suback", id=1)],
          opts=[("auto_pub", 1)]),
    scene("s5_size", ["C14"], "s", 5,
          [rcv("connect", sei=10, mps=12), rcv("connect", sei=10, mps=3), rcv("connect", sei=10), snd("connack", mps=14), snd("connack", sp=1),
           snd("connack", sp=1, mps=16), CLOSED, {"c": "register", "id": 1}, snd("publish", id=1, q=1, n=3), snd("publish", id=1, q=1, n=4),
           rcv("publish", n=7), rcv("publish", n=8), rcv("publish", id=1, q=1, n=1), rcv("publish", id=2, q=2, n=1), rcv("pubrel", id=2),
           rcv("puback", id=1), rcv("pingreq")], opts=[("auto_pub", 1), ("auto_ping", 1)]),
    # timers
    scene("c5_timers", ["C15", "C19", "C10"], "c", 5,
          [client5(ka=10), client5(cl=1, sei=0), rcv("connack"), rcv("connack", ska=7), rcv("connack", sp=1, ska=0), CLOSED,
           snd("pingreq"), rcv("pingresp"), snd("publish"), rcv("publish"), snd("disconnect"), rcv("disconnect"), rcv("publish", id=1, q=2),
           {"c": "setint", "ms": 5}, {"c": "setint", "ms": 0}, {"c": "setint"}] + tm(0, 1, 2), opts=[("resp_timeout", 500)]),
    scene("c3_timers", ["C15", "C19"], "c", 3,
          [snd("connect", ka=10, cl=1), snd("connect", cl=0), rcv("connack"), rcv("connack", sp=1), rcv("connack", rc=3), CLOSED,
           snd("pingreq"), rcv("pingresp"), snd("publish"), rcv("publish"), snd("disconnect"), {"c": "opt", "o": "resp_timeout", "n": 300},
           {"c": "opt", "o": "resp_timeout", "n": 0}, {"c": "setint", "ms": 5}, {"c": "setint"}, {"c": "acquire"}, snd("subscribe", id=1),
           rcv("suback", id=1)] + tm(0, 1, 2), ids=(1,)),
    scene("s5_timers", ["C15", "C19", "C10"], "s", 5,
          [rcv("connect", ka=10, sei=10), rcv("connect", cl=1), snd("connack"), snd("connack", ska=7), snd("connack", sp=1, ska=0), snd("connack", rc=135),
           CLOSED, rcv("pingreq"), snd("pingresp"), snd("publish"), rcv("publish"), snd("disconnect"), rcv("disconnect"), rcv("publish", id=1, q=2),
           rcv("puback", id=1), rcv("subscribe", id=1), {"c": "setint", "ms": 5}] + tm(0, 1, 2), opts=[("auto_ping", 1)]),
    scene("s3_timers", ["C15", "C19"], "s", 3,
          [rcv("connect", ka=10), rcv("connect", cl=1), rcv("connect", ka=10, cid="", cl=0), snd("connack"), snd("connack", sp=1), snd("connack", rc=4), CLOSED,
           rcv("pingreq"), snd("pingresp"), snd("publish"), rcv("publish"), rcv("disconnect"), rcv("publish", id=1, q=1), rcv("suback", id=1)] + tm(0, 1, 2),
          opts=[("auto_ping", 1), ("auto_pub", 1)]),
    # roles, versions, order
    scene("s0_version", ["C17"], "s", 5,
          [rcv("connect", v=5, sei=10), rcv("connect", v=3), rcv("connect", v=3, cl=1), rcv("connect", v=5, cl=1), {"c": "recv", "hex": "100d00044d5154540602003c000163"},
           {"c": "recv", "hex": "100400044d51"}, rcv("publish"), rcv("publish", v=3), rcv("connack"), rcv("pingreq"), rcv("suback", id=1), rcv("disconnect"), rcv("auth"),
           snd("connack"), snd("connack", v=3), snd("connack", v=3, sp=1), snd("publish"), snd("publish", v=3), CLOSED], rver=0, wild=True),
] + [
    scene("%s%d_gate" % (r, v), ["C17", "C11"], r, v,
          ([snd("connect", v=v, sei=10) if v == 5 else snd("connect", cl=0)] if r != "s" else []) +
          ([rcv("connect", v=v, sei=10) if v == 5 else rcv("connect", cl=0)] if r != "c" else []) +
          [snd("connack"), rcv("connack"), CLOSED] +
          [f(k, id=1) for f in (snd, rcv) for k in ("puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback", "unsubscribe", "unsuback")] +
          [f(k) for f in (snd, rcv) for k in ("pingreq", "pingresp", "disconnect")] +
          ([snd("auth"), rcv("auth")] if v == 5 else [{"c": "recv", "hex": "f000"}]) +
          [snd("publish", id=1, q=1), rcv("publish", id=1, q=1), snd("publish", id=1, q=1, v=8 - v), snd("connect", v=8 - v), {"c": "register", "id": 1}],
          ids=(1,), wild=True)
    for r in "csa" for v in (3, 5)
] + [
    # a new session behaves like a fresh object (Fresh twin)
    scene("c5_fresh", ["C10"], "c", 5,
          [client5(rm=1, tam=1, mps=30), client5(cl=1, sei=0), client5(cl=1, sei=10), rcv("connack", rm=1, tam=1, ska=5), rcv("connack"), rcv("connack", sp=1), CLOSED,
           {"c": "acquire"}, snd("publish", id=1, q=1), snd("publish", id=2, q=2), snd("publish", t="a", a=1), rcv("publish", id=1, q=2, t="a", a=1),
           rcv("publish", t="", a=1), rcv("puback", id=1), rcv("pubrec", id=2), snd("subscribe", id=1)], opts=[("resp_timeout", 100)]),
    scene("s3_fresh", ["C10"], "s", 3,
          [rcv("connect", ka=10), rcv("connect", cl=1), snd("connack"), snd("connack", sp=1), CLOSED,
           {"c": "acquire"}, snd("publish", id=1, q=1), snd("publish", id=2, q=2), rcv("publish", id=1, q=2), rcv("publish", id=1, q=2, d=1), rcv("pubrel", id=1),
           rcv("puback", id=1), rcv("pubrec", id=2), rcv("pubcomp", id=2), rcv("pingreq")] + tm(1), opts=[("auto_pub", 1)]),
    # anything in any state: only what a peer and an application can do wrong (totality)
    scene("s5_total", ["C05"], "s", 5,
          [rcv("connect", sei=10), snd("connack"), CLOSED, {"c": "recv", "hex": "30ffffffff"}, {"c": "recv", "hex": "0000"}, {"c": "recv", "hex": "4000"},
           {"c": "recv", "hex": "40020000"}, {"c": "recv", "hex": "3203000000"}, {"c": "recv", "hex": "36050001610001"}, {"c": "recv", "hex": "e000"},
           rcv("publish", id=1, q=2), rcv("pubrel", id=1), rcv("pubrec", id=1), rcv("pubcomp", id=9), rcv("subscribe", id=1), rcv("connack"), {"c": "recv", "hex": "2000"}] + tm(0, 1, 2),
          wild=True, opts=[("auto_pub", 1)]),
    scene("c3_total", ["C05"], "c", 3,
          [snd("connect", cl=0), rcv("connack"), rcv("connack", sp=1), CLOSED, {"c": "recv", "hex": "30ffffffff"}, {"c": "recv", "hex": "4000"}, {"c": "recv", "hex": "20020005"},
           {"c": "recv", "hex": "2002ff00"}, {"c": "recv", "hex": "9003000100"}, {"c": "recv", "hex": "3203000000"}, {"c": "register", "id": 1}, snd("publish", id=1, q=2),
           rcv("publish", id=1, q=2), rcv("pubrel", id=1), rcv("pubrec", id=1), rcv("pubcomp", id=9), {"c": "recv", "hex": "b00100"}] + tm(0, 1, 2), wild=True),
]


# ---------------------------------------------------------------- larger scenes, generated from the choices they span
def ends(role, v, clean=True, rms=(), mps=(), tam=(), ka=0, refuse=False):
    """the calls that begin and end a connection of this role, for every announced limit given"""
    con = [dict(cl=0, ka=ka)] + ([dict(cl=1)] if clean else [])
    ca = [dict(), dict(sp=1)] + ([dict(rc=5 if v == 3 else 135)] if refuse else [])
    if v == 5:
        con[0]["sei"] = 10
        if clean:
            con.append(dict(cl=1, sei=10))
        vary = [(k, x) for k, xs in (("rm", rms), ("mps", mps), ("tam", tam)) for x in xs]
        tgt = con if role == "s" else ca
        tgt += [dict(b, **{k: x}) for k, x in vary for b in ((dict(sei=10),) if role == "s" else (dict(), dict(sp=1)))]
    me, peer = (snd, rcv) if role == "c" else (rcv, snd)
    return [me("connect", **c) for c in con] + [peer("connack", **c) for c in ca] + [CLOSED]


def outs(v, xs, manual, rcs=()):
    """publish, and every acknowledgement of it, for identifiers xs = [(id, qos)]"""
    r = []
    for i, q in xs:
        r += [snd("publish", id=i, q=q)]
        r += [rcv("puback", id=i)] if q == 1 else [rcv("pubrec", id=i), rcv("pubcomp", id=i)] + ([snd("pubrel", id=i)] if manual else [])
        if v == 5:
            r += [rcv("puback" if q == 1 else "pubrec", id=i, rc=c) for c in rcs]
    return r


def inbs(v, xs, manual, rcs=()):
    r = []
    for i, q in xs:
        r += [rcv("publish", id=i, q=q)]
        if q == 2:
            r += [rcv("publish", id=i, q=2, d=1), rcv("pubrel", id=i)]
        if manual:
            r += [snd("puback", id=i)] if q == 1 else [snd("pubrec", id=i), snd("pubcomp", id=i)]
            if v == 5:
                r += [snd("puback" if q == 1 else "pubrec", id=i, rc=c) for c in rcs]
    return r


def regs(xs, acq=False):
    return ([{"c": "acquire"}] if acq else [{"c": "register", "id": i} for i in xs])


S += [scene("%s%d_flow%s" % (r, v, "_m" if man else ""), ["C06", "C08", "C12", "C05", "C09"] if v == 5 else ["C06", "C08", "C05", "C09"], r, v,
            ends(r, v, rms=(1, 2)) + regs((1, 2, 3)) + outs(v, [(1, 1), (2, 2), (3, 2)], man, (128,)) + [{"c": "erase", "id": 2}], ids=(1, 2, 3),
            opts=[] if man else [("auto_pub", 1)])
      for r in "csa" for v in (3, 5) for man in (True, False) if not (r == "a" and man)]
S += [scene("%s%d_crash%s" % (r, v, "_m" if man else ""), ["C16", "C06"], r, v,
            ends(r, v, rms=(1, 2)) + [CRASH] + regs((1, 2, 3)) + outs(v, [(1, 1), (2, 2), (3, 2)], man, (128,)) + inbs(v, [(1, 2)], man, (128,)), ids=(1, 2, 3),
            opts=[] if man else [("auto_pub", 1)])
      for r in "cs" for v in (3, 5) for man in (True, False)]
for x in S:
    x["deep"] = x["name"] in ("c5_crash_m", "s5_crash_m", "c3_crash_m", "s3_crash_m")
S += [scene("%s%d_crash1%s" % (r, v, "_m" if man else ""), ["C16"], r, v,
            ends(r, v, clean=False, rms=(1,)) + [CRASH] + regs((1, 2)) + outs(v, [(1, 1), (2, 2)], man, (128,)) + inbs(v, [(1, 2)], man, (128,)), ids=(1, 2),
            opts=[] if man else [("auto_pub", 1)])
      for r in "cs" for v in (3, 5) for man in (True, False)]
S += [scene("%s%d_both%s" % (r, v, "_m" if man else ""), ["C07", "C10", "C12", "C15"] if v == 5 else ["C07", "C10", "C15"], r, v,
            ends(r, v, rms=(1,), ka=10) + regs((1, 2)) + outs(v, [(1, 2)], man) + inbs(v, [(1, 2), (2, 2), (2, 1)], man, (128,)) + [rcv("pingreq" if r == "s" else "pingresp")] + tm(0, 1), ids=(1, 2),
            opts=[] if man else [("auto_pub", 1)])
      for r in "cs" for v in (3, 5) for man in (True, False)]
# what the application announces limits the peer
S += [scene("%s5_limit%s" % (r, "_m" if man else ""), ["C12", "C13", "C14", "C05"], r, 5,
            ([client5(rm=1), client5(rm=2, tam=1), client5(mps=9), client5(cl=1, sei=0), rcv("connack"), rcv("connack", sp=1)] if r == "c" else
             [rcv("connect", sei=10), rcv("connect", cl=1), snd("connack", rm=1), snd("connack", sp=1, rm=2, tam=1), snd("connack", mps=9), snd("connack", sp=1)]) + [CLOSED] +
            inbs(5, [(1, 2), (2, 1), (3, 2)], man, (128,)) + [rcv("publish", id=4, q=1, a=1), rcv("publish", id=4, q=1, a=1, t=""), rcv("publish", n=20), rcv("publish", n=2, q=1, id=5)],
            ids=(1,), opts=[] if man else [("auto_pub", 1)])
      for r in "cs" for man in (True, False)]
# small Maximum Packet Sizes: every refusal of every kind
S += [scene("%s5_refuse%d" % (r, m), ["C11", "C14", "C19", "C08"], r, 5,
            ends(r, 5, mps=(m,), rms=(1,)) + regs((1, 2)) +
            [snd("publish", id=1, q=1), snd("publish", id=2, q=2), snd("publish"), snd("pubrel", id=2), snd("pubrel", id=2, rc=146), rcv("pubrec", id=2), rcv("pubcomp", id=2), rcv("puback", id=1)] +
            inbs(5, [(1, 2), (2, 1), (3, 2)], True, (128,)) + [snd("disconnect"), snd("disconnect", rc=4), snd("auth")] +
            ([snd("subscribe", id=1), snd("unsubscribe", id=1), snd("pingreq"), rcv("suback", id=1)] if r == "c" else
             [snd("suback", id=1), snd("unsuback", id=1), snd("pingresp")]), ids=(1, 2))
      for r in "cs" for m in (2, 3, 4, 9)]
for x in S[-8:]:
    x["deep"] = True
S += [scene("%s5_refuse%d_q" % (r, m), ["C11", "C14", "C19", "C08"], r, 5,
            ends(r, 5, clean=False, mps=(m,), rms=(1,)) + regs((1, 2)) +
            [snd("publish", id=1, q=1), snd("publish", id=2, q=2), snd("pubrel", id=2, rc=146), rcv("pubrec", id=2), rcv("pubcomp", id=2), rcv("puback", id=1)] +
            inbs(5, [(1, 2), (2, 1)], True) + [snd("disconnect", rc=4), snd("auth")] +
            ([snd("subscribe", id=1), snd("pingreq"), rcv("suback", id=1)] if r == "c" else [snd("suback", id=1)]), ids=(1, 2))
      for r in "cs" for m in (2, 3, 4, 9)]
# automatic answers that do not fit
S += [scene("%s5_tight%d" % (r, m), ["C14", "C19", "C05", "C07"], r, 5,
            ends(r, 5, mps=(m,)) + regs((1,)) + outs(5, [(1, 2)], False, (128,)) + inbs(5, [(1, 2), (2, 1)], False) +
            [rcv("publish", id=3, q=1, a=1), rcv("disconnect"), rcv("pingreq" if r == "s" else "pingresp")] + tm(0, 1, 2), ids=(1,),
            opts=[("auto_pub", 1), ("auto_ping", 1), ("resp_timeout", 100)])
      for r in "cs" for m in (1, 2, 3)]
# aliases on both sides, with acknowledged and stored publications
S += [scene("%s5_alias%s%s" % (r, o[5:], "_q1" if q else ""), ["C13", "C06"] if q else ["C13"], r, 5,
            ends(r, 5, tam=(1, 2)) + regs((1,)) +
            [snd("publish", t=t, a=a, **({"id": 1, "q": 1} if q else {})) for t in ("a", "bb", "ccc", "") for a in (0, 1, 2, 3) if t or a] +
            ([rcv("puback", id=1)] if q else []), ids=(1,), opts=[(o, 1)] if o else [])
      for r in "cs" for o in ("", "auto_map", "auto_replace") for q in (False, True)]
S += [scene("%s%d_keep" % (r, v), ["C15", "C19"], r, v,
            (([snd("connect", ka=k, **({"sei": 10} if v == 5 else {})) for k in (0, 10, 65535)] + [rcv("connack"), rcv("connack", sp=1), rcv("connack", rc=5 if v == 3 else 135)] +
              ([rcv("connack", ska=k) for k in (0, 7, 65535)] if v == 5 else []) + [snd("pingreq"), rcv("pingresp"), snd("disconnect"), snd("subscribe", id=1), rcv("suback", id=1)]) if r == "c" else
             ([rcv("connect", ka=k, **({"sei": 10} if v == 5 else {})) for k in (0, 10, 65535)] + [snd("connack"), snd("connack", sp=1), snd("connack", rc=5 if v == 3 else 135)] +
              ([snd("connack", ska=k) for k in (0, 7, 65535)] if v == 5 else []) + [rcv("pingreq"), snd("pingresp"), rcv("disconnect"), rcv("subscribe", id=1), snd("suback", id=1)])) +
            [CLOSED, {"c": "register", "id": 1}, snd("publish"), snd("publish", id=1, q=2), rcv("pubrec", id=1), rcv("pubcomp", id=1), rcv("publish"), rcv("publish", id=2, q=1)] +
            ([snd("disconnect"), rcv("disconnect")] if v == 5 else []) +
            [{"c": "setint", "ms": x} for x in (0, 5)] + [{"c": "setint"}] + [{"c": "opt", "o": "resp_timeout", "n": x} for x in (0, 300)] + tm(0, 1, 2), ids=(1,),
            opts=[("auto_pub", 1), ("auto_ping", 1)])
      for r in "cs" for v in (3, 5)]
# 32-bit packet identifiers
S += [scene("c%d_wide" % v, ["C08", "C06"], "c", v, ends("c", v, rms=(1,)) + regs((1, 65536)) + outs(v, [(1, 1), (65536, 2)], True, (128,)) + [snd("subscribe", id=65536), rcv("suback", id=65536), {"c": "release", "id": 65536}],
            ids=(1, 65536), w=4) for v in (3, 5)]
S += [scene("s%d_total_m" % v, ["C05", "C09"], "s", v,
            ends("s", v, rms=(1,)) + regs((1,)) + outs(v, [(1, 2)], True, (128,)) + inbs(v, [(1, 2)], True) +
            [{"c": "recv", "hex": h} for h in ("30ffffffff", "0000", "f000", "f001ff", "4000", "40020000", "50020009", "62020009", "60020001", "70020009", "3203000000", "36050001610001",
                                               "8203000100", "a203000100", "c00100", "e000", "e00100", "e0028200", "1000", "2000", "b00100", "90020001")] +
            [rcv("subscribe", id=1), rcv("unsubscribe", id=1), rcv("connack")] + tm(0, 1, 2), ids=(1,), wild=True) for v in (3, 5)]
