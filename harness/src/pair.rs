//! Two real connection objects, a client and a server, exchanging the bytes they request to send.
//! `Pair` executes schedule operations and records every library call; `random` draws schedules,
//! `replay` takes them from the specification (MCPair).
use crate::conn::*;
use crate::drv::{ack, pubk};
use crate::pk::{Pk, Props, PV};
use crate::rng::Rng;
use crate::util::Out;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct SideCfg {
    pub role: char,
    pub rver: u8,
    pub apub: bool,
    pub aping: bool,
    pub amap: bool,
    pub arep: bool,
    pub rm: u32,
    pub tam: u32,
    pub mps: u32,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub v: u8,
    pub w: usize,
    pub pers: bool,
    pub clean1: bool,
    pub ka: u16,
    pub ska: u32,
    pub rsp: u64,
    pub sd: [SideCfg; 2],
}

#[derive(Clone, Debug)]
pub enum Op {
    Conn,
    /// side, QoS, topic, alias (0 none; with an empty topic: alias only), payload length
    Pub(usize, u8, String, u32, usize),
    Sub(bool),
    Ping,
    /// deliver that many bytes to the side
    Dlv(usize, usize),
    /// deliver the rest of the packet at the head
    Dlp(usize),
    /// the application's oldest outstanding response
    App(usize),
    Timer(usize),
    Cut,
    Closed(usize),
}

struct Side {
    ex: Box<dyn Ex>,
    last: Option<Obs>,
    acc: Vec<u8>,
    rx: Vec<u8>,
    todo: Vec<Pk>,
    up: bool,
    closed: bool,
    ids: BTreeSet<u32>,
    alias: BTreeMap<u32, String>,
    ps: bool,
}

pub struct Pair<'a> {
    pub cfg: Cfg,
    s: Vec<Side>,
    link: bool,
    /// the client has seen CONNACK on this connection
    seen: bool,
    session: bool,
    first: bool,
    n: usize,
    pub dead: bool,
    out: &'a mut Out,
    pub packets: usize,
}

fn frame_len(b: &[u8]) -> Option<usize> {
    let mut n = 0usize;
    let mut mul = 1usize;
    for i in 1..5 {
        let x = *b.get(i)?;
        n += (x & 0x7f) as usize * mul;
        mul *= 128;
        if x & 0x80 == 0 {
            return Some(1 + i + n);
        }
    }
    Some(5)
}

fn pub_id(p: &Pk, v: &mut Value) {
    if p.k == "publish" {
        let n: String = String::from_utf8_lossy(&p.payload).chars().take_while(|c| c.is_ascii_digit()).collect();
        v["n"] = json!(n.parse::<i64>().unwrap_or(0));
        v["pf"] = json!(String::from_utf8_lossy(&p.payload));
    }
}

impl<'a> Pair<'a> {
    pub fn new(cfg: Cfg, tag: Value, out: &'a mut Out) -> Self {
        let mut s = vec![];
        for c in &cfg.sd {
            s.push(Side {
                ex: make(c.role, c.rver, cfg.w), last: None, acc: vec![], rx: vec![], todo: vec![], up: false, closed: true,
                ids: Default::default(), alias: Default::default(), ps: false,
            });
        }
        let roles: Vec<String> = cfg.sd.iter().map(|c| c.role.to_string()).collect();
        let rvers: Vec<u8> = cfg.sd.iter().map(|c| c.rver).collect();
        out.line(json!({"k":"new","role":roles,"rver":rvers,"v":cfg.v,"w":cfg.w,"tag":tag,
            "rm":[cfg.sd[0].rm, cfg.sd[1].rm]}));
        let mut p = Pair { cfg, s, link: false, seen: false, session: false, first: true, n: 0, dead: false, out, packets: 0 };
        for i in 0..2 {
            let c = p.cfg.sd[i].clone();
            for (o, b) in [("auto_pub", c.apub), ("auto_ping", c.aping), ("auto_map", c.amap), ("auto_replace", c.arep)] {
                if b {
                    p.step(i, Call::Opt(o, 1), "");
                }
            }
        }
        if p.cfg.rsp > 0 {
            p.step(0, Call::Opt("resp_timeout", p.cfg.rsp), "");
        }
        p
    }

    fn record(&mut self, i: usize, c: &Call, r: &Res, mut m: Map<String, Value>, it: &str) {
        resj(&mut m, c, r);
        let o = self.s[i].ex.obs();
        if let Value::Object(x) = obsj(&o, &self.s[i].last) {
            m.extend(x);
        }
        self.s[i].last = Some(o);
        m.insert("sd".into(), json!(i + 1));
        if let Call::Send(p) = c {
            pub_id(p, m.get_mut("p").unwrap());
            if p.k == "publish" {
                m["p"]["it"] = json!(it);
            }
        }
        for (k, e) in r.ev.iter().enumerate() {
            if let Ev::Recv(p, _) | Ev::Send(p, ..) = e {
                pub_id(p, &mut m.get_mut("ev").unwrap()[k]["p"]);
            }
        }
        if r.panic.is_some() {
            self.dead = true;
        }
        self.out.line(Value::Object(m));
    }

    fn step(&mut self, i: usize, c: Call, it: &str) -> Res {
        let vb = self.s[i].last.as_ref().map(|o| o.ver).unwrap_or(self.cfg.sd[i].rver);
        let m = callj(&c, self.s[i].ex.as_ref(), vb);
        let r = self.s[i].ex.call(&c);
        if r.skip {
            return r;
        }
        self.record(i, &c, &r, m, it);
        self.after(i, &r.ev);
        r
    }

    /// what the application does with the events
    fn after(&mut self, i: usize, ev: &[Ev]) {
        let v = self.cfg.v;
        let c = self.cfg.sd[i].clone();
        let mut rel = vec![];
        for e in ev {
            match e {
                Ev::Send(p, b, r) => {
                    if p.k == "publish" && !p.topic.is_empty() && alias(p) > 0 {
                        self.s[i].alias.insert(alias(p), String::from_utf8_lossy(&p.topic).into());
                    }
                    if p.k == "connack" && p.rc.unwrap_or(0) == 0 {
                        self.s[i].up = true;
                    }
                    if self.link {
                        self.s[1 - i].rx.extend(b);
                        self.packets += 1;
                    } else if let Some(x) = r {
                        rel.push(*x);
                    }
                }
                Ev::Recv(p, _) => {
                    let t = &mut self.s[i].todo;
                    match p.k {
                        "connect" => {
                            let mut a = Pk { v, k: "connack", rc: Some(0), sp: self.session && !p.clean, ..Default::default() };
                            if v == 5 {
                                let mut pr: Props = vec![];
                                if c.rm > 0 {
                                    pr.push((33, PV::H(c.rm as u16)));
                                }
                                if c.mps > 0 {
                                    pr.push((39, PV::W(c.mps)));
                                }
                                if c.tam > 0 {
                                    pr.push((34, PV::H(c.tam as u16)));
                                }
                                if self.cfg.ska > 0 {
                                    pr.push((19, PV::H(self.cfg.ska as u16)));
                                }
                                a.props = Some(pr);
                            }
                            if self.cfg.pers {
                                self.session = true;
                            }
                            t.push(a);
                        }
                        "connack" => {
                            self.s[i].up = true;
                            self.seen = true;
                        }
                        "subscribe" | "unsubscribe" => {
                            let k = if p.k == "subscribe" { "suback" } else { "unsuback" };
                            let mut a = ack(v, k, p.id, None);
                            if v == 5 || p.k == "subscribe" {
                                a.rcs = vec![0; p.subs.len().max(p.topics.len())];
                            }
                            if v == 5 {
                                a.props = Some(vec![]);
                            }
                            t.push(a);
                        }
                        "pingreq" if !c.aping => t.push(ack(v, "pingresp", 0, None)),
                        "publish" if !c.apub && p.qos == 1 => t.push(ack(v, "puback", p.id, None)),
                        "publish" if !c.apub && p.qos == 2 => t.push(ack(v, "pubrec", p.id, None)),
                        "pubrec" if !c.apub && p.rc.unwrap_or(0) < 128 => t.push(ack(v, "pubrel", p.id, None)),
                        "pubrel" if !c.apub => t.push(ack(v, "pubcomp", p.id, None)),
                        _ => {}
                    }
                }
                Ev::TReset(0, _) => self.s[i].ps = true,
                Ev::TCancel(0) => self.s[i].ps = false,
                Ev::Close if self.link => self.cut(),
                _ => {}
            }
        }
        // the transport refused the bytes
        for x in rel {
            self.step(i, Call::Release(x), "");
        }
    }

    fn cut(&mut self) {
        self.link = false;
        for i in 0..2 {
            self.s[i].rx.clear();
        }
        self.out.line(json!({"k":"cut","sd":0}));
    }

    fn deliver(&mut self, i: usize, n: usize) {
        let n = n.min(self.s[i].rx.len());
        let b: Vec<u8> = self.s[i].rx.drain(..n).collect();
        let mut pos = 0;
        while pos < b.len() && self.link && !self.dead {
            let (r, used) = self.s[i].ex.feed(&b[pos..]);
            let s = &mut self.s[i];
            s.acc.extend(&b[pos..pos + used]);
            pos += used;
            let done = frame_len(&s.acc) == Some(s.acc.len());
            if done {
                let f = std::mem::take(&mut s.acc);
                let vb = s.last.as_ref().map(|o| o.ver).unwrap_or(self.cfg.sd[i].rver);
                let c = Call::Recv(f, vec![]);
                let m = callj(&c, self.s[i].ex.as_ref(), vb);
                self.record(i, &c, &r, m, "");
                self.after(i, &r.ev);
            } else if !r.ev.is_empty() || r.panic.is_some() || (used == 0 && pos < b.len()) {
                let c = Call::Part(vec![0]);
                let m = callj(&c, self.s[i].ex.as_ref(), 0);
                self.record(i, &c, &r, m, "");
                self.after(i, &r.ev);
                if used == 0 {
                    self.out.line(json!({"k":"fail","sd":i + 1,"msg":"recv consumes nothing"}));
                    self.dead = true;
                }
            }
        }
    }

    fn connect(&mut self) {
        let c = self.cfg.clone();
        let mut p = Pk { v: c.v, k: "connect", cid: b"c".to_vec(), ka: c.ka, ..Default::default() };
        p.clean = if self.first { c.clean1 || !c.pers } else { !c.pers };
        if c.v == 5 {
            let mut pr: Props = vec![];
            if c.pers {
                pr.push((17, PV::W(1000)));
            }
            if c.sd[0].rm > 0 {
                pr.push((33, PV::H(c.sd[0].rm as u16)));
            }
            if c.sd[0].mps > 0 {
                pr.push((39, PV::W(c.sd[0].mps)));
            }
            if c.sd[0].tam > 0 {
                pr.push((34, PV::H(c.sd[0].tam as u16)));
            }
            p.props = Some(pr);
        }
        self.first = false;
        self.link = true;
        self.seen = false;
        for s in &mut self.s {
            s.closed = false;
            s.alias.clear();
        }
        self.step(0, Call::Send(p), "");
    }

    pub fn op(&mut self, o: &Op) {
        if self.dead {
            return;
        }
        let v = self.cfg.v;
        match o {
            Op::Conn => {
                if !self.link && self.s.iter().all(|s| s.closed) {
                    self.connect()
                }
            }
            Op::Pub(i, q, t, a, len) => {
                let i = *i;
                if !self.s[i].up || !self.seen {
                    return;
                }
                let it = if t.is_empty() {
                    match self.s[i].alias.get(a) {
                        Some(x) => x.clone(),
                        None => return,
                    }
                } else {
                    t.clone()
                };
                let id = if *q > 0 {
                    let r = self.step(i, Call::Acquire, "");
                    if !r.ok {
                        return;
                    }
                    self.s[i].ids.insert(r.id);
                    r.id
                } else {
                    0
                };
                self.n += 1;
                let mut pay = format!("{}:", self.n).into_bytes();
                pay.resize(pay.len() + len, b'x');
                let pr: Props = if *a > 0 { vec![(35, PV::H(*a as u16))] } else { vec![] };
                self.step(i, Call::Send(pubk(v, id, *q, t.as_bytes(), pay, pr)), &it);
            }
            Op::Sub(un) => {
                if !self.s[0].up {
                    return;
                }
                let r = self.step(0, Call::Acquire, "");
                if !r.ok {
                    return;
                }
                self.s[0].ids.insert(r.id);
                let mut p = ack(v, if *un { "unsubscribe" } else { "subscribe" }, r.id, None);
                if *un {
                    p.topics = vec![b"a".to_vec()];
                } else {
                    p.subs = vec![(b"a".to_vec(), 1), (b"b".to_vec(), 2)];
                }
                if v == 5 {
                    p.props = Some(vec![]);
                }
                self.step(0, Call::Send(p), "");
            }
            Op::Ping => {
                if self.s[0].up {
                    self.step(0, Call::Send(ack(v, "pingreq", 0, None)), "");
                }
            }
            Op::Dlv(i, n) => {
                if self.link {
                    self.deliver(*i, *n)
                }
            }
            Op::Dlp(i) => {
                if self.link && !self.s[*i].rx.is_empty() {
                    let mut b = self.s[*i].acc.clone();
                    let k = b.len();
                    b.extend(&self.s[*i].rx);
                    let n = frame_len(&b).unwrap_or(b.len());
                    self.deliver(*i, n - k);
                }
            }
            Op::App(i) => {
                let s = &self.s[*i];
                if s.todo.is_empty() {
                    return;
                }
                // PUBREL may also be requested (and is stored) while there is no transport
                let p = if !s.closed {
                    0
                } else if let Some(k) = s.todo.iter().position(|p| p.k == "pubrel") {
                    k
                } else {
                    return;
                };
                let mut p = self.s[*i].todo.remove(p);
                p.v = v;
                self.step(*i, Call::Send(p), "");
            }
            Op::Timer(i) => {
                if self.s[*i].ps {
                    self.s[*i].ps = false;
                    self.step(*i, Call::Timer(0), "");
                }
            }
            Op::Cut => {
                if self.link {
                    self.cut()
                }
            }
            Op::Closed(i) => {
                let s = &mut self.s[*i];
                if !self.link && !s.closed {
                    s.closed = true;
                    s.up = false;
                    s.ps = false;
                    s.acc.clear();
                    s.todo.retain(|p| p.k == "pubrel");
                    self.step(*i, Call::Closed, "");
                }
            }
        }
    }

    /// everything that is outstanding is delivered and answered; false: the exchange does not end
    pub fn quiesce(&mut self, mut pick: impl FnMut(usize) -> usize) -> bool {
        for _ in 0..4000 {
            if self.dead {
                return true;
            }
            let mut ops = vec![];
            for i in 0..2 {
                if !self.link && !self.s[i].closed {
                    ops.push(Op::Closed(i));
                }
                if !self.s[i].todo.is_empty() && !self.s[i].closed {
                    ops.push(Op::App(i));
                }
                if !self.s[i].rx.is_empty() {
                    ops.push(Op::Dlp(i));
                }
            }
            if ops.is_empty() {
                if self.link {
                    return true;
                }
                ops.push(Op::Conn);
            }
            let k = pick(ops.len());
            self.op(&ops[k]);
        }
        false
    }
    pub fn end(&mut self, quiet: bool) {
        let mut used = vec![];
        let mut vac = vec![];
        let mut st = vec![];
        for i in 0..2 {
            let ids: Vec<u32> = self.s[i].ids.iter().cloned().collect();
            let u: Vec<i64> = self.s[i].ex.probe(&ids).into_iter().filter(|x| x.1).map(|x| i32w(x.0)).collect();
            used.push(u);
            let o = self.s[i].ex.obs();
            vac.push(o.vac);
            st.push(o.stored.len());
        }
        self.out.line(json!({"k":"end","sd":0,"quiet":quiet,"used":used,"vac":vac,"st":st,"dead":self.dead}));
    }
}

const TOPICS: [&str; 4] = ["a", "b", "t/1", "longer/topic"];

pub fn random(seed: u64, traces: usize, out: &mut Out) {
    for k in 0..traces {
        let sd = seed.wrapping_mul(1_000_003).wrapping_add(k as u64);
        let mut r = Rng::new(sd);
        let v = *r.pick(&[3u8, 5, 5]);
        let pers = r.pct(85);
        let style = r.below(4); // 0: everything automatic, 1: everything manual, else mixed
        let side = |r: &mut Rng, role: char| SideCfg {
            role: if r.pct(15) { 'a' } else { role },
            rver: if role == 's' && r.pct(30) { 0 } else { v },
            apub: match style {
                0 => true,
                1 => false,
                _ => r.pct(50),
            },
            aping: r.pct(50),
            amap: v == 5 && r.pct(40),
            arep: v == 5 && r.pct(40),
            rm: if v == 5 { *r.pick(&[0, 1, 1, 2, 3, 10]) } else { 0 },
            tam: if v == 5 { *r.pick(&[0, 0, 1, 2, 5]) } else { 0 },
            mps: if v == 5 { *r.pick(&[0, 0, 0, 28, 40]) } else { 0 },
        };
        let mut cfg = Cfg {
            v, w: if r.pct(20) { 4 } else { 2 }, pers, clean1: v == 5 && r.pct(50), ka: *r.pick(&[0, 0, 10]), ska: *r.pick(&[0, 0, 7]),
            rsp: *r.pick(&[0, 0, 1000]), sd: [side(&mut r, 'c'), side(&mut r, 's')],
        };
        // Role Any answers PINGREQ only with the server side of a connection; version 0 only with the server role
        for c in &mut cfg.sd {
            if c.role == 'a' {
                c.rver = v;
            }
        }
        let lossy = pers && r.pct(75);
        let plen = *r.pick(&[0usize, 3, 12, 30]);
        let mut p = Pair::new(cfg, json!(sd), out);
        for round in 0..2 {
            let mut ops = 4 + r.below(30);
            let mut cuts = if lossy { 1 + r.below(4) } else { 0 };
            let fast = r.pct(30);
            let mut guard = 0;
            while ops > 0 && !p.dead && guard < 4000 {
                guard += 1;
                let x = r.below(100);
                let i = r.below(2);
                if !p.link {
                    match x {
                        0..=39 => p.op(&Op::Closed(i)),
                        40..=69 => p.op(&Op::Conn),
                        70..=79 => p.op(&Op::App(i)),
                        80..=89 => publish(&mut p, &mut r, i, plen),
                        90..=93 => p.op(&Op::Sub(r.pct(40))),
                        _ => p.op(&Op::Timer(i)),
                    }
                    continue;
                }
                match x {
                    0..=24 => {
                        ops -= 1;
                        publish(&mut p, &mut r, i, plen)
                    }
                    25..=28 => {
                        ops -= 1;
                        p.op(&Op::Sub(r.pct(40)))
                    }
                    29..=31 => {
                        ops -= 1;
                        p.op(&Op::Ping)
                    }
                    32..=33 => p.op(&Op::Timer(i)),
                    34..=54 => p.op(&Op::App(i)),
                    55..=64 => {
                        let n = 1 + r.below(9);
                        p.op(&Op::Dlv(i, n))
                    }
                    65..=85 => p.op(&Op::Dlp(i)),
                    86..=93 => p.op(&Op::Dlv(i, 1 << 20)),
                    94..=96 if cuts > 0 => {
                        // part of what is in flight may still arrive, then the rest is gone
                        for j in 0..2 {
                            if r.pct(50) {
                                let n = r.below(1 + p.s[j].rx.len());
                                p.op(&Op::Dlv(j, n));
                            }
                        }
                        p.op(&Op::Cut);
                        cuts -= 1;
                        if fast {
                            p.op(&Op::Closed(i));
                            p.op(&Op::Closed(1 - i));
                            p.op(&Op::Conn);
                        }
                    }
                    97 if !p.link => p.op(&Op::Conn),
                    _ => {}
                }
                if p.link && !p.s[0].up && r.pct(50) {
                    // the handshake makes progress
                    p.op(&Op::Dlv(1, 1 << 20));
                    p.op(&Op::App(1));
                    if r.pct(80) {
                        p.op(&Op::Dlv(0, 1 << 20));
                    }
                }
            }
            let q = p.quiesce(|n| r.below(n));
            p.end(q);
            if !q || p.dead || round == 1 || r.pct(30) {
                break;
            }
        }
    }
}

/// line 1: the configuration the specification was run with; then one schedule per line
pub fn replay(text: &str, out: &mut Out) {
    let mut it = text.lines();
    let c: Value = serde_json::from_str(it.next().unwrap()).unwrap();
    let b = |k: &str, i: usize| c[k][i].as_bool().unwrap();
    let n = |k: &str, i: usize| c[k][i].as_u64().unwrap();
    let v = c["v"].as_u64().unwrap() as u8;
    let side = |i: usize| SideCfg {
        role: if i == 0 { 'c' } else { 's' }, rver: v, apub: b("apub", i), aping: true, amap: b("amap", i), arep: b("arep", i),
        rm: n("rm", i) as u32, tam: n("tam", i) as u32, mps: n("mps", i) as u32,
    };
    let cfg = Cfg {
        v, w: c["w"].as_u64().unwrap() as usize, pers: c["pers"].as_bool().unwrap(), clean1: c["clean1"].as_bool().unwrap(),
        ka: c["ka"].as_u64().unwrap() as u16, ska: 0, rsp: 0, sd: [side(0), side(1)],
    };
    for (k, l) in it.enumerate() {
        let ops: Value = serde_json::from_str(l).unwrap();
        let mut p = Pair::new(cfg.clone(), json!(k), out);
        for o in ops.as_array().unwrap() {
            let i = (o["i"].as_u64().unwrap() as usize).max(1) - 1;
            let op = match o["o"].as_str().unwrap() {
                "conn" => Op::Conn,
                "pub" => Op::Pub(i, o["q"].as_u64().unwrap() as u8, o["t"].as_str().unwrap().into(), o["a"].as_u64().unwrap() as u32, 0),
                "subscribe" => Op::Sub(false),
                "unsubscribe" => Op::Sub(true),
                "ping" => Op::Ping,
                "dlv" => Op::Dlp(i),
                "app" => Op::App(i),
                "closed" => Op::Closed(i),
                "cut" => {
                    // the packets at the head may be cut off in the middle: that has no effect on the receiver
                    for j in 0..2 {
                        if let (Some(x), 1..) = (frame_len(&p.s[j].rx), (k >> j) % 4) {
                            let m = [0, 1, x - 1, x / 2][(k >> j) % 4];
                            p.op(&Op::Dlv(j, m));
                        }
                    }
                    Op::Cut
                }
                x => panic!("unknown operation {x}"),
            };
            p.op(&op);
        }
        let mut z = k;
        let q = p.quiesce(|n| {
            z = z.wrapping_mul(31).wrapping_add(7);
            (z >> 3) % n
        });
        p.end(q);
    }
}

fn publish(p: &mut Pair, r: &mut Rng, i: usize, plen: usize) {
    let q = *r.pick(&[0u8, 1, 1, 2, 2]);
    let tam = p.cfg.sd[1 - i].tam;
    if q > 0 && p.s[i].last.as_ref().is_some_and(|o| o.vac == 0) && r.pct(85) {
        return;
    }
    let t = r.pick(&TOPICS).to_string();
    let len = r.below(plen + 1);
    if tam > 0 && r.pct(40) {
        let a = 1 + r.below(tam as usize) as u32;
        if r.pct(50) && p.s[i].alias.contains_key(&a) {
            p.op(&Op::Pub(i, q, String::new(), a, len));
        } else {
            p.op(&Op::Pub(i, q, t, a, len));
        }
    } else {
        p.op(&Op::Pub(i, q, t, 0, len));
    }
}

