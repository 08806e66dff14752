//! Random application + peer around one real connection object. Everything the driver decides is
//! based on what the object said (its events), so the application stays within its contract even
//! when the object misbehaves. Every call is written as one trace line; TLC judges the lines.
use crate::conn::*;
use crate::pk::{self, Pk, Props, PV};
use crate::rng::Rng;
use crate::util::Out;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Twin {
    None,
    Fresh,   // C10: fresh object from the next new session on
    Restore, // C16: restored object
    Version, // C17: server created with the version
    Omit,    // C11: refused calls omitted
    Whole,   // C09: frames delivered whole
}

#[derive(Clone)]
pub struct Prof {
    pub name: String,
    pub roles: &'static [char],
    pub vers: &'static [u8],
    pub w4: u32,
    pub len: usize,
    pub twin: Twin,
    pub probe: u32,
    pub wt: BTreeMap<&'static str, u32>,
    /// chance (percent) of: automatic responses, offline publish, alias mapping, small limits, garbage
    pub apub: u32,
    pub off: u32,
    pub amap: u32,
    pub limits: u32,
    pub mps: u32,
    pub persist: u32,
    pub ka: u32,
    pub chunks: u32,
    pub restore: u32,
}

pub fn profile(name: &str) -> Prof {
    let mut wt: BTreeMap<&'static str, u32> = BTreeMap::new();
    for (k, v) in [
        ("pub", 30), ("peerack", 30), ("badack", 2), ("peerpub", 16), ("peerrel", 10), ("todo", 25), ("sub", 4),
        ("ping", 2), ("timer", 4), ("setint", 1), ("disc", 1), ("lose", 4), ("ids", 4), ("erase", 2), ("regulate", 1),
        ("illsend", 3), ("illrecv", 2), ("garbage", 1), ("big", 1), ("opt", 1), ("part", 2), ("auth", 1), ("senderr", 2),
        ("peerdisc", 1), ("excess", 1), ("crash", 0), ("anyack", 1),
    ] {
        wt.insert(k, v);
    }
    let mut p = Prof {
        name: name.into(), roles: &['c', 's', 'a'], vers: &[3, 5, 5], w4: 10, len: 90, twin: Twin::None, probe: 60, wt,
        apub: 50, off: 25, amap: 30, limits: 40, mps: 25, persist: 60, ka: 40, chunks: 15, restore: 10,
    };
    let mut set = |l: &[(&'static str, u32)]| {
        for (k, v) in l {
            p.wt.insert(k, *v);
        }
    };
    match name {
        "C05" => {
            set(&[("garbage", 25), ("illrecv", 12), ("badack", 6), ("big", 5), ("excess", 4), ("anyack", 5)]);
            p.vers = &[0, 3, 5, 5];
        }
        "C06" => {
            set(&[("lose", 8), ("badack", 6), ("erase", 3), ("pub", 40)]);
            p.persist = 85;
            p.off = 40;
        }
        "C07" => {
            set(&[("peerpub", 45), ("peerrel", 20), ("pub", 5), ("lose", 7), ("anyack", 3)]);
            p.persist = 75;
        }
        "C08" => {
            set(&[("ids", 20), ("sub", 12), ("senderr", 6), ("illsend", 6), ("lose", 6)]);
            p.probe = 100;
        }
        "C09" => {
            p.chunks = 100;
            p.twin = Twin::Whole;
            set(&[("garbage", 4), ("part", 6)]);
        }
        "C10" => {
            p.twin = Twin::Fresh;
            set(&[("lose", 10), ("disc", 3), ("part", 4), ("setint", 3)]);
            p.limits = 70;
            p.persist = 45;
            p.len = 120;
        }
        "C11" => {
            p.twin = Twin::Omit;
            set(&[("illsend", 30), ("lose", 6), ("pub", 35)]);
            p.limits = 60;
        }
        "C12" => {
            p.vers = &[5];
            set(&[("pub", 45), ("excess", 8), ("peerpub", 25), ("lose", 5), ("erase", 4), ("garbage", 0)]);
            p.limits = 95;
            p.persist = 75;
        }
        "C13" => {
            p.vers = &[5];
            set(&[("pub", 60), ("peerpub", 40), ("regulate", 5), ("lose", 5)]);
            p.amap = 65;
            p.limits = 80;
            p.mps = 20;
        }
        "C14" => {
            p.vers = &[5];
            p.mps = 95;
            p.amap = 50;
            p.persist = 75;
            set(&[("big", 5), ("pub", 45), ("lose", 5), ("timer", 8), ("illsend", 5), ("auth", 3)]);
        }
        "C15" => {
            p.ka = 85;
            set(&[("timer", 16), ("setint", 6), ("ping", 8), ("disc", 3), ("lose", 5), ("peerdisc", 3)]);
        }
        "C16" => {
            p.twin = Twin::Restore;
            p.persist = 100;
            set(&[("crash", 12), ("lose", 2), ("ids", 2), ("peerpub", 25), ("disc", 0)]);
            p.off = 30;
            p.len = 110;
        }
        "C17" => {
            p.twin = Twin::Version;
            p.roles = &['s', 'c', 'a', 's'];
            p.vers = &[0, 0, 3, 5];
            set(&[("illrecv", 25), ("lose", 6), ("garbage", 3)]);
        }
        "C19" => {
            set(&[("disc", 6), ("illrecv", 6), ("garbage", 6), ("timer", 8), ("big", 4), ("excess", 4), ("lose", 6)]);
            p.ka = 60;
        }
        _ => {}
    }
    p
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    D,
    G,
    C,
}
#[derive(Clone, Debug)]
struct OutX {
    q: u8,
    /// 0 publish requested/stored, 1 PUBREC received and PUBREL due, 2 PUBREL requested/stored
    stage: u8,
    sent: bool,
}
#[derive(Clone, Debug)]
struct InX {
    q: u8,
    /// peer's view: 0 waiting for PUBACK/PUBREC, 1 PUBREC got (PUBREL due), 2 PUBREL sent (PUBCOMP due)
    stage: u8,
    pk: Pk,
}

pub struct Sim<'a> {
    pub ex: Box<dyn Ex>,
    tw: Option<Box<dyn Ex>>,
    tw_cmp: bool,
    pub rng: Rng,
    pr: Prof,
    out: &'a mut Out,
    last: Option<Obs>,
    st: St,
    client: bool,
    ver: u8,
    opts: Vec<(&'static str, u64)>,
    apub: bool,
    uint: Option<u64>,
    persist: bool,
    own: BTreeSet<u32>,
    ox: BTreeMap<u32, OutX>,
    ix: BTreeMap<u32, InX>,
    subs: BTreeMap<u32, bool>,
    todo: Vec<Pk>,
    timers: BTreeSet<usize>,
    closing: bool,
    pool: Vec<u32>,
    peer_alias: BTreeMap<u32, Vec<u8>>,
    app_alias: BTreeMap<u32, Vec<u8>>,
    tam_out: u32,
    tam_in: u32,
    lmps: u32,
    rm_in: u32,
    connects: usize,
    pend_sp: bool,
    dead: bool,
    /// ids are probed in this trace
    probing: bool,
    /// the peer speaks MQTT correctly in this trace (no garbage)
    pub cnt: BTreeMap<String, u64>,
}

const TOPICS: [&str; 6] = ["a", "b", "t/1", "t/2", "long/topic/name", "x"];

pub fn pubk(v: u8, id: u32, qos: u8, topic: &[u8], payload: Vec<u8>, props: Props) -> Pk {
    Pk { v, k: "publish", id, qos, topic: topic.to_vec(), payload, props: if v == 5 { Some(props) } else { None }, ..Default::default() }
}
pub fn ack(v: u8, k: &'static str, id: u32, rc: Option<u8>) -> Pk {
    Pk { v, k, id, rc, ..Default::default() }
}
/// an ordinary packet of each kind
pub fn sample(v: u8, k: &'static str, id: u32) -> Option<Pk> {
    let mut p = Pk { v, k, ..Default::default() };
    let pr = if v == 5 { Some(vec![]) } else { None };
    match k {
        "connect" => {
            p.clean = true;
            p.cid = b"c".to_vec();
            p.props = pr;
        }
        "connack" => {
            p.rc = Some(0);
            p.props = pr;
        }
        "publish" => return Some(pubk(v, id, 1, b"a", b"p".to_vec(), vec![])),
        "puback" | "pubrec" | "pubrel" | "pubcomp" => p.id = id,
        "subscribe" => {
            p.id = id;
            p.subs = vec![(b"a".to_vec(), 1)];
            p.props = pr;
        }
        "suback" => {
            p.id = id;
            p.rcs = vec![0];
            p.props = pr;
        }
        "unsubscribe" => {
            p.id = id;
            p.topics = vec![b"a".to_vec()];
            p.props = pr;
        }
        "unsuback" => {
            p.id = id;
            if v == 5 {
                p.rcs = vec![0];
            }
            p.props = pr;
        }
        "auth" if v == 3 => return None,
        "auth" => {
            p.rc = Some(24);
            p.props = Some(vec![(21, PV::S(b"m".to_vec()))]);
        }
        _ => {}
    }
    Some(p)
}

impl<'a> Sim<'a> {
    pub fn new(seed: u64, pr: &Prof, out: &'a mut Out) -> Self {
        let mut rng = Rng::new(seed);
        let role = *rng.pick(pr.roles);
        let mut ver = *rng.pick(pr.vers);
        if ver == 0 && role != 's' {
            ver = *rng.pick(&[3, 5]);
        }
        let w = if rng.pct(pr.w4) { 4 } else { 2 };
        let big = if w == 4 { u32::MAX } else { 65535 };
        let mut s = Sim {
            ex: make(role, ver, w), tw: None, tw_cmp: false, pr: pr.clone(), out, last: None, st: St::D, client: role != 's',
            ver, opts: vec![], apub: false, uint: None, persist: false, own: Default::default(), ox: Default::default(),
            ix: Default::default(), subs: Default::default(), todo: vec![], timers: Default::default(), closing: false,
            pool: vec![1, 2, 3, 4, 5, 6, 7, 300, big], peer_alias: Default::default(), app_alias: Default::default(),
            tam_out: 0, tam_in: 0, lmps: 0, rm_in: 0, connects: 0, pend_sp: false, dead: false,
            probing: rng.pct(pr.probe), cnt: Default::default(), rng,
        };
        if pr.twin == Twin::Omit {
            s.tw = Some(s.ex.fresh());
            s.tw_cmp = true;
        }
        if pr.twin == Twin::Whole {
            s.tw = Some(s.ex.fresh());
            s.tw_cmp = true;
        }
        let ids: Vec<i64> = s.pool.iter().map(|x| i32w(*x)).collect();
        s.out.line(json!({"k":"new","role":role.to_string(),"rver":ver,"w":w,"ids":ids,"prof":pr.name,"seed":seed}));
        s
    }

    /// an object for schedules given from outside
    pub fn scene(role: char, ver: u8, w: usize, ids: Vec<u32>, pr: &Prof, out: &'a mut Out) -> Self {
        let mut s = Sim {
            ex: make(role, ver, w), tw: None, tw_cmp: false, pr: pr.clone(), out, last: None, st: St::D, client: role != 's',
            ver, opts: vec![], apub: false, uint: None, persist: false, own: Default::default(), ox: Default::default(),
            ix: Default::default(), subs: Default::default(), todo: vec![], timers: Default::default(), closing: false,
            pool: ids.clone(), peer_alias: Default::default(), app_alias: Default::default(),
            tam_out: 0, tam_in: 0, lmps: 0, rm_in: 0, connects: 0, pend_sp: false, dead: false,
            probing: true, cnt: Default::default(), rng: Rng::new(1),
        };
        if matches!(pr.twin, Twin::Omit | Twin::Whole) {
            s.tw = Some(s.ex.fresh());
            s.tw_cmp = true;
        }
        let ids: Vec<i64> = ids.iter().map(|x| i32w(*x)).collect();
        s.out.line(json!({"k":"new","role":role.to_string(),"rver":ver,"w":w,"ids":ids,"prof":pr.name,"seed":0}));
        s
    }
    pub fn option(&mut self, o: &'static str, n: u64) {
        self.set_opt(o, n)
    }
    /// a call of a schedule; not performed when the application's contract no longer allows it
    /// (the object did something else than the specification)
    pub fn perform(&mut self, c: &Call) -> bool {
        if self.dead {
            return true;
        }
        match c {
            Call::Timer(t) if !self.timers.contains(t) => return false,
            Call::Send(p) if matches!(p.k, "publish" | "subscribe" | "unsubscribe") && p.id != 0 => {
                if self.ox.contains_key(&p.id) || self.subs.contains_key(&p.id) || self.last.as_ref().is_some_and(|o| o.stored.iter().any(|x| x.0.id == p.id)) {
                    return false;
                }
            }
            Call::Send(p) if p.k == "pubrel" && self.last.as_ref().is_some_and(|o| o.stored.iter().any(|x| x.0.id == p.id)) => return false,
            Call::Opt(o, n) => {
                self.set_opt(o, *n);
                return true;
            }
            _ => {}
        }
        let c = match (c, self.pr.twin) {
            (Call::Recv(b, _), Twin::Whole) => Call::Recv(b.clone(), (1..b.len()).collect()),
            _ => c.clone(),
        };
        self.step(c);
        true
    }
    /// the object is lost: a new one is given the export and takes part as a twin
    pub fn crash_now(&mut self) {
        if self.dead {
            return;
        }
        let o = self.ex.obs();
        self.tw = None;
        self.step(Call::Closed);
        if !self.dead && self.pr.twin == Twin::Restore {
            self.restore_twin(o);
        }
    }

    // ------------------------------------------------------------ executing one call
    pub fn step(&mut self, c: Call) -> Res {
        let vb = self.last.as_ref().map(|o| o.ver).unwrap_or(self.ex.ver0());
        let mut m = callj(&c, self.ex.as_ref(), vb);
        let r = self.ex.call(&c);
        if r.skip {
            return r;
        }
        resj(&mut m, &c, &r);
        let o = self.ex.obs();
        if let Value::Object(x) = obsj(&o, &self.last) {
            m.extend(x);
        }
        self.twin(&c, &r, &o, vb, &mut m);
        if self.probing {
            let p: Vec<i64> = self.ex.probe(&self.pool).into_iter().filter(|x| x.1).map(|x| i32w(x.0)).collect();
            if let Some(t) = &mut self.tw {
                let q: Vec<i64> = t.probe(&self.pool).into_iter().filter(|x| x.1).map(|x| i32w(x.0)).collect();
                if self.tw_cmp && p != q && m.contains_key("tev") {
                    m.insert("tpb".into(), json!(q));
                }
            }
            m.insert("pb".into(), json!(p));
        }
        if m.contains_key("tev") {
            let tp = match self.pr.twin {
                Twin::Fresh => "C10",
                Twin::Restore => "C16",
                Twin::Version => "C17",
                Twin::Omit => "C11",
                _ => "C09",
            };
            m.insert("tp".into(), json!(tp));
        }
        self.last = Some(o);
        *self.cnt.entry(m["k"].as_str().unwrap().to_string()).or_default() += 1;
        let dead = r.panic.is_some();
        self.out.line(Value::Object(m));
        self.track(&c, &r);
        if dead {
            self.dead = true;
        }
        r
    }

    fn twin(&mut self, c: &Call, r: &Res, o: &Obs, vb: u8, m: &mut Map<String, Value>) {
        match self.pr.twin {
            Twin::Fresh => {
                let start = match c {
                    Call::Send(p) => p.k == "connect" && sent(r, "connect").is_some(),
                    Call::Recv(..) => got(r, "connect").is_some(),
                    _ => false,
                };
                if start && self.connects > 0 {
                    let mut t = self.ex.fresh_v(vb);
                    for (k, v) in &self.opts {
                        t.call(&Call::Opt(k, *v));
                    }
                    if self.uint.is_some() {
                        t.call(&Call::SetInt(self.uint));
                    }
                    let clean = sent(r, "connect").or(got(r, "connect")).unwrap().clean;
                    self.tw = Some(t);
                    self.tw_cmp = clean;
                    let tr = self.tw.as_mut().unwrap().call(c);
                    m.insert("tev".into(), evsj(&tr.ev));
                    self.tobs(o, m, clean);
                    return;
                }
                if let Some(t) = &mut self.tw {
                    let tr = t.call(c);
                    if self.tw_cmp {
                        m.insert("tev".into(), evsj(&tr.ev));
                        tres(c, r, &tr, m);
                        self.tobs(o, m, true);
                    } else {
                        let ca = match c {
                            Call::Send(_) => sent(r, "connack"),
                            Call::Recv(..) => got(r, "connack"),
                            _ => None,
                        };
                        if let Some(p) = ca {
                            if p.rc == Some(0) && !p.sp {
                                self.tw_cmp = true;
                                m.insert("tev".into(), evsj(&tr.ev));
                                self.tobs(o, m, true);
                            } else {
                                self.tw = None;
                            }
                        } else if matches!(c, Call::Closed) {
                            self.tw = None;
                        }
                    }
                }
            }
            Twin::Version => {
                if self.tw.is_none() {
                    if self.ex.ver0() == 0 && vb == 0 && o.ver != 0 {
                        let mut t = self.ex.fresh_v(o.ver);
                        for (k, v) in &self.opts {
                            t.call(&Call::Opt(k, *v));
                        }
                        if self.uint.is_some() {
                            t.call(&Call::SetInt(self.uint));
                        }
                        let tr = t.call(c);
                        self.tw = Some(t);
                        self.tw_cmp = true;
                        m.insert("tev".into(), evsj(&tr.ev));
                        self.tobs(o, m, true);
                    }
                } else {
                    self.twin_plain(c, r, o, m);
                }
            }
            Twin::Restore => {
                if self.tw.is_some() {
                    self.twin_plain(c, r, o, m)
                }
            }
            Twin::Whole => {
                if let Call::Recv(b, _) = c {
                    let c2 = Call::Recv(b.clone(), vec![]);
                    self.twin_plain(&c2, r, o, m)
                } else {
                    self.twin_plain(c, r, o, m)
                }
            }
            Twin::Omit => {
                if let Call::Send(p) = c {
                    let stored = o.stored.iter().any(|(x, _)| x.id == p.id && x.k == p.k);
                    let was = self.last.as_ref().map(|l| l.stored.len()).unwrap_or(0);
                    let refused = !r.ev.iter().any(|e| matches!(e, Ev::Send(..)))
                        && r.ev.iter().any(|e| matches!(e, Ev::Err(_)))
                        && !(stored && o.stored.len() > was);
                    if refused {
                        for e in &r.ev {
                            if let Ev::Rel(i) = e {
                                self.tw.as_mut().unwrap().call(&Call::Release(*i));
                            }
                        }
                        m.insert("tev".into(), m["ev"].clone());
                        self.tobs(o, m, true);
                        return;
                    }
                }
                self.twin_plain(c, r, o, m)
            }
            Twin::None => {}
        }
    }
    fn twin_plain(&mut self, c: &Call, r: &Res, o: &Obs, m: &mut Map<String, Value>) {
        if let Some(t) = &mut self.tw {
            let tr = t.call(c);
            m.insert("tev".into(), evsj(&tr.ev));
            tres(c, r, &tr, m);
            self.tobs(o, m, true);
        }
    }
    fn tobs(&mut self, o: &Obs, m: &mut Map<String, Value>, cmp: bool) {
        if !cmp {
            return;
        }
        let t = self.tw.as_ref().unwrap().obs();
        if t.vac != o.vac {
            m.insert("tvac".into(), json!(t.vac));
        }
        if t.stored != o.stored {
            m.insert("tst".into(), Value::Array(t.stored.iter().map(|(p, n)| pj(p, *n)).collect()));
        }
        if t.handled != o.handled {
            m.insert("th".into(), json!(t.handled));
        }
    }

    // ------------------------------------------------------------ following what happened
    fn new_session(&mut self) {
        self.ox.clear();
        self.own.clear();
        self.ix.clear();
        self.subs.clear();
        self.todo.clear();
    }
    fn num(p: &Pk, id: u8) -> Option<u32> {
        prop_num(p, id)
    }
    fn track(&mut self, c: &Call, r: &Res) {
        if let Some(l) = &self.last {
            if l.ver != 0 {
                self.ver = l.ver;
            }
        }
        let had_err = r.ev.iter().any(|e| matches!(e, Ev::Err(_)));
        for e in &r.ev {
            match e {
                Ev::Rel(i) => {
                    self.own.remove(i);
                    self.ox.remove(i);
                    self.subs.remove(i);
                }
                Ev::TReset(t, _) => {
                    self.timers.insert(*t);
                }
                Ev::TCancel(t) => {
                    self.timers.remove(t);
                }
                Ev::Close => self.closing = true,
                Ev::Send(p, ..) => {
                    let p = p.clone();
                    self.sent(&p)
                }
                Ev::Recv(p, _) => {
                    let p = p.clone();
                    self.recvd(&p)
                }
                Ev::Err(_) => {}
            }
        }
        match c {
            Call::Opt(o, n) => {
                self.opts.retain(|x| x.0 != *o);
                self.opts.push((o, *n));
                match *o {
                    "auto_pub" => self.apub = *n != 0,
                    "offline" if *n != 0 => self.persist = true,
                    _ => {}
                }
            }
            Call::SetInt(x) => self.uint = *x,
            Call::Timer(t) => {
                if !r.ev.iter().any(|e| matches!(e, Ev::TReset(x, _) if x == t)) {
                    self.timers.remove(t);
                }
            }
            Call::Send(p) => {
                let released = r.ev.iter().any(|e| matches!(e, Ev::Rel(i) if *i == p.id));
                if !had_err && p.k == "publish" && p.qos > 0 && !released {
                    self.own.remove(&p.id);
                    self.ox.entry(p.id).or_insert(OutX { q: p.qos, stage: 0, sent: false });
                }
                if p.k == "pubrel" {
                    // a PUBREL is handed over once
                    self.todo.retain(|x| !(x.k == "pubrel" && x.id == p.id));
                }
                if !had_err && p.k == "pubrel" {
                    if let Some(x) = self.ox.get_mut(&p.id) {
                        x.stage = 2;
                    }
                }
            }
            Call::Acquire if r.ok => {
                self.own.insert(r.id);
            }
            Call::Register(i) if r.ok => {
                self.own.insert(*i);
            }
            Call::Restore(ps) => {
                for p in ps {
                    let (q, stage) = if p.k == "pubrel" { (2, 2) } else { (p.qos, 0) };
                    self.ox.entry(p.id).or_insert(OutX { q, stage, sent: false });
                }
            }
            Call::Closed => {
                self.st = St::D;
                self.closing = false;
                self.timers.clear();
                self.todo.clear();
                self.peer_alias.clear();
                self.app_alias.clear();
                self.tam_in = 0;
                self.tam_out = 0;
                self.lmps = 0;
                self.rm_in = 0;
                if !self.persist {
                    self.ox.clear();
                    self.ix.clear();
                }
                self.subs.clear();
                for x in self.ox.values_mut() {
                    x.sent = false;
                }
            }
            _ => {}
        }
    }
    fn sent(&mut self, p: &Pk) {
        match p.k {
            "connect" => {
                self.connects += 1;
                self.client = true;
                self.st = St::G;
                self.connected_as(p);
                self.tam_in = Self::num(p, 34).unwrap_or(0);
                self.rm_in = Self::num(p, 33).unwrap_or(0);
                self.lmps = Self::num(p, 39).unwrap_or(0);
            }
            "connack" => {
                if p.rc == Some(0) {
                    self.st = St::C;
                    if !p.sp {
                        self.new_session()
                    } else {
                        self.resumed()
                    }
                    if let Some(x) = Self::num(p, 34) {
                        self.tam_in = x;
                    }
                    if let Some(x) = Self::num(p, 33) {
                        self.rm_in = x;
                    }
                    if let Some(x) = Self::num(p, 39) {
                        self.lmps = x;
                    }
                } else {
                    self.st = St::D;
                }
            }
            "disconnect" => self.st = St::D,
            "publish" => {
                if p.qos > 0 {
                    if let Some(x) = self.ox.get_mut(&p.id) {
                        x.sent = true;
                    } else {
                        self.ox.insert(p.id, OutX { q: p.qos, stage: 0, sent: true });
                    }
                    self.own.remove(&p.id);
                }
                let a = alias(p);
                if a != 0 && !p.topic.is_empty() {
                    self.app_alias.insert(a, p.topic.clone());
                }
            }
            "pubrel" => {
                self.own.remove(&p.id);
                let x = self.ox.entry(p.id).or_insert(OutX { q: 2, stage: 2, sent: true });
                x.stage = 2;
                x.sent = true;
            }
            "subscribe" | "unsubscribe" => {
                self.own.remove(&p.id);
                self.subs.insert(p.id, p.k == "subscribe");
            }
            "puback" | "pubcomp" => {
                self.ix.remove(&p.id);
                self.todo.retain(|x| !(x.k == p.k && x.id == p.id));
            }
            "pubrec" => {
                self.todo.retain(|x| !(x.k == p.k && x.id == p.id));
                if p.rc.unwrap_or(0) >= 128 {
                    self.ix.remove(&p.id);
                } else if let Some(x) = self.ix.get_mut(&p.id) {
                    x.stage = 1;
                }
            }
            "suback" | "unsuback" | "pingresp" => {
                let pos = self.todo.iter().position(|x| x.k == p.k && x.id == p.id);
                if let Some(i) = pos {
                    self.todo.remove(i);
                }
            }
            _ => {}
        }
    }
    fn resumed(&mut self) {}
    fn connected_as(&mut self, p: &Pk) {
        self.persist = if p.v == 3 { !p.clean } else { Self::num(p, 17).unwrap_or(0) > 0 };
        if p.clean {
            self.new_session();
        }
        self.pend_sp = !p.clean;
    }
    fn recvd(&mut self, p: &Pk) {
        match p.k {
            "connect" => {
                self.connects += 1;
                self.client = false;
                self.st = St::G;
                self.connected_as(p);
                self.tam_out = Self::num(p, 34).unwrap_or(0);
            }
            "connack" => {
                if p.rc == Some(0) {
                    self.st = St::C;
                    if !p.sp {
                        self.new_session()
                    } else {
                        self.resumed()
                    }
                    if let Some(x) = Self::num(p, 34) {
                        self.tam_out = x;
                    }
                    if let Some(x) = Self::num(p, 17) {
                        self.persist = x > 0;
                    }
                }
            }
            "publish" => {
                let a = alias(p);
                if a != 0 && !p.xt {
                    self.peer_alias.insert(a, p.topic.clone());
                }
                if p.qos > 0 {
                    self.ix.entry(p.id).or_insert(InX { q: p.qos, stage: 0, pk: p.clone() });
                    let k = if p.qos == 1 { "puback" } else { "pubrec" };
                    if !self.apub {
                        self.todo.push(ack(p.v, k, p.id, None));
                    }
                }
            }
            "pubrec" => {
                if p.rc.unwrap_or(0) < 128 {
                    if let Some(x) = self.ox.get_mut(&p.id) {
                        if x.stage == 0 {
                            x.stage = 1;
                        }
                        if !self.apub {
                            self.todo.push(ack(p.v, "pubrel", p.id, None));
                        }
                    }
                } else {
                    self.ox.remove(&p.id);
                }
            }
            "pubrel" => {
                if let Some(x) = self.ix.get_mut(&p.id) {
                    x.stage = 2;
                }
                if !self.apub {
                    self.todo.push(ack(p.v, "pubcomp", p.id, None));
                }
            }
            "puback" | "pubcomp" => {
                self.ox.remove(&p.id);
            }
            "subscribe" => self.todo.push(sample(p.v, "suback", p.id).unwrap()),
            "unsubscribe" => self.todo.push(sample(p.v, "unsuback", p.id).unwrap()),
            "pingreq" => self.todo.push(ack(p.v, "pingresp", 0, None)),
            "suback" | "unsuback" => {
                self.subs.remove(&p.id);
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------ generating
    fn recv(&mut self, p: &Pk) -> Res {
        let b = pk::encode(p, self.ex.width());
        self.recv_bytes(b)
    }
    fn recv_bytes(&mut self, b: Vec<u8>) -> Res {
        let cuts = self.cuts(b.len());
        self.step(Call::Recv(b, cuts))
    }
    fn cuts(&mut self, n: usize) -> Vec<usize> {
        if n < 2 || !self.rng.pct(self.pr.chunks) {
            return vec![];
        }
        match self.rng.below(3) {
            0 => (1..n).collect(),
            1 => vec![1 + self.rng.below(n - 1)],
            _ => {
                let mut v: Vec<usize> = (0..self.rng.below(4) + 1).map(|_| 1 + self.rng.below(n - 1)).collect();
                v.sort();
                v.dedup();
                v
            }
        }
    }
    fn payload(&mut self) -> Vec<u8> {
        let n = match self.rng.below(10) {
            0 => 0,
            1 => 30 + self.rng.below(30),
            2 => 100 + self.rng.below(60),
            _ => self.rng.below(9),
        };
        (0..n).map(|_| self.rng.next() as u8).collect()
    }
    fn extra_props(&mut self) -> Props {
        let mut p = vec![];
        if self.rng.pct(15) {
            p.push((38, PV::P(b"k".to_vec(), b"v".to_vec())));
        }
        if self.rng.pct(8) {
            p.push((2, PV::W(7)));
        }
        p
    }
    fn peer_is_server(&self) -> bool {
        self.client
    }
    fn props_neg(&mut self, from_client: bool, mine: bool) -> Props {
        // CONNECT / CONNACK properties; `mine`: announced by this side
        let mut p = vec![];
        if self.rng.pct(self.pr.limits) {
            let v = *self.rng.pick(&[1u16, 1, 2, 2, 3, 5, 65535]);
            p.push((33, PV::H(v)));
        }
        if self.rng.pct(self.pr.limits) {
            let v = *self.rng.pick(&[0u16, 1, 2, 2, 3, 4, 65535]);
            p.push((34, PV::H(v)));
        }
        if self.rng.pct(self.pr.mps) {
            let v = match self.rng.below(6) {
                0 => self.rng.range(1, 9),
                1 => 100,
                2 => 268435460,
                3 if mine => self.rng.range(5, 40),
                _ => self.rng.range(8, 40),
            };
            p.push((39, PV::W(v as u32)));
        }
        if from_client {
            if self.rng.pct(self.pr.persist) {
                let v = *self.rng.pick(&[1u32, 100, u32::MAX]);
                p.push((17, PV::W(v)));
            } else if self.rng.pct(20) {
                p.push((17, PV::W(0)));
            }
        } else {
            if self.rng.pct(6) {
                let v = *self.rng.pick(&[0u32, 10, 10]);
                p.push((17, PV::W(v)));
            }
            if self.rng.pct(self.pr.ka / 3) {
                let v = *self.rng.pick(&[0u16, 5, 7, 65535]);
                p.push((19, PV::H(v)));
            }
        }
        if self.rng.pct(10) {
            p.push((38, PV::P(b"u".to_vec(), b"p".to_vec())));
        }
        p
    }
    fn connect_pk(&mut self, v: u8, mine: bool) -> Pk {
        let clean = if self.connects == 0 {
            self.rng.pct(50) && self.ox.is_empty()
        } else if v == 3 {
            !self.rng.pct(self.pr.persist)
        } else {
            self.rng.pct(if self.persist { 20 } else { 40 })
        };
        let ka = if self.rng.pct(self.pr.ka) { *self.rng.pick(&[1u16, 10, 60, 65535]) } else { 0 };
        Pk {
            v,
            k: "connect",
            clean,
            ka,
            cid: b"cid".to_vec(),
            props: if v == 5 { Some(self.props_neg(true, mine)) } else { None },
            ..Default::default()
        }
    }
    fn connack_pk(&mut self, v: u8, mine: bool) -> Pk {
        let bad = self.rng.pct(6);
        let rc = if !bad {
            0
        } else if v == 3 {
            *self.rng.pick(&[1, 2, 5])
        } else {
            *self.rng.pick(&[128, 133, 149])
        };
        let sp = rc == 0 && self.pend_sp && self.rng.pct(80);
        Pk {
            v,
            k: "connack",
            rc: Some(rc),
            sp,
            props: if v == 5 { Some(self.props_neg(false, mine)) } else { None },
            ..Default::default()
        }
    }
    fn vv(&mut self) -> u8 {
        if self.ver == 0 {
            *self.rng.pick(&[3, 5])
        } else {
            self.ver
        }
    }
    fn free_id(&mut self) -> u32 {
        // application: an id it owns, or a new one
        if !self.own.is_empty() && self.rng.pct(40) {
            let v: Vec<u32> = self.own.iter().cloned().collect();
            return *self.rng.pick(&v);
        }
        if self.rng.pct(50) {
            let r = self.step(Call::Acquire);
            if r.ok {
                return r.id;
            }
            return 1;
        }
        for _ in 0..4 {
            let i = *self.rng.pick(&self.pool.clone());
            if !self.own.contains(&i) && !self.ox.contains_key(&i) && !self.subs.contains_key(&i) {
                let r = self.step(Call::Register(i));
                if r.ok {
                    return i;
                }
            }
        }
        let r = self.step(Call::Acquire);
        r.id.max(1)
    }
    fn app_publish(&mut self) {
        let v = self.vv();
        let mut q = *self.rng.pick(&[0u8, 1, 1, 2, 2]);
        if self.ox.len() >= 6 {
            q = 0;
        }
        let t = self.rng.pick(&TOPICS).as_bytes().to_vec();
        let mut topic = t.clone();
        let mut props = vec![];
        if v == 5 {
            props = self.extra_props();
            if self.tam_out > 0 && self.rng.pct(if self.pr.name == "C13" { 45 } else { 20 }) {
                // the application manages an alias itself
                let known: Vec<u32> = self.app_alias.keys().cloned().collect();
                if !known.is_empty() && self.rng.pct(50) {
                    topic = vec![];
                    let a = *self.rng.pick(&known);
                    props.push((35, PV::H(a as u16)));
                } else {
                    let a = self.rng.range(1, (self.tam_out as i64 + 1).min(5)) as u16;
                    if self.rng.pct(6) {
                        topic = vec![];
                    }
                    props.push((35, PV::H(a)));
                }
            } else if self.rng.pct(3) {
                props.push((35, PV::H(1)));
                if self.rng.pct(30) {
                    topic = vec![];
                }
            }
        }
        let id = if q > 0 { self.free_id() } else { 0 };
        let pl = self.payload();
        let mut p = pubk(v, id, q, &topic, pl, props);
        p.retain = self.rng.pct(15);
        p.dup = q > 0 && self.rng.pct(3);
        let r = self.step(Call::Send(p));
        if r.skip && id != 0 {
            self.own.insert(id);
        }
        self.maybe_send_error(&r);
    }
    fn maybe_send_error(&mut self, r: &Res) {
        // the transport reported a send error: the application gives the id back and closes
        if !self.rng.pct(*self.pr.wt.get("senderr").unwrap()) {
            return;
        }
        let id = r.ev.iter().find_map(|e| if let Ev::Send(_, _, Some(i)) = e { Some(*i) } else { None });
        if let Some(i) = id {
            self.step(Call::Release(i));
            self.ox.remove(&i);
            // the identifier may be used again before the application tells that the transport is gone
            if self.rng.pct(50) && self.step(Call::Register(i)).ok {
                let v = self.vv();
                if self.rng.pct(60) {
                    let q = 1 + self.rng.below(2) as u8;
                    let pl = self.payload();
                    self.step(Call::Send(pubk(v, i, q, b"a", pl, vec![])));
                } else {
                    self.own.insert(i);
                }
            }
            self.step(Call::Closed);
        }
    }
    fn rc_for(&mut self, k: &str, v: u8) -> (Option<u8>, Option<Props>) {
        if v == 3 {
            return (None, None);
        }
        let rc = match self.rng.below(8) {
            0 => Some(0),
            1 if k == "puback" || k == "pubrec" => Some(0x10),
            2 if k == "puback" || k == "pubrec" => Some(*self.rng.pick(&[0x80, 0x87, 0x97])),
            2 => Some(0x92),
            _ => None,
        };
        let pr = if rc.is_some() && self.rng.pct(25) { Some(vec![(38, PV::P(b"k".to_vec(), b"v".to_vec()))]) } else { None };
        (rc, pr)
    }
    fn peer_ack(&mut self) -> bool {
        let v: Vec<u32> = self.ox.iter().filter(|x| x.1.stage != 1 && x.1.sent).map(|x| *x.0).collect();
        if v.is_empty() {
            return false;
        }
        let id = *self.rng.pick(&v);
        let x = self.ox[&id].clone();
        let k = if x.stage == 2 {
            "pubcomp"
        } else if x.q == 1 {
            "puback"
        } else {
            "pubrec"
        };
        let ver = self.ver;
        let (rc, props) = self.rc_for(k, ver);
        let mut p = ack(ver, k, id, rc);
        p.props = props;
        self.recv(&p);
        true
    }
    fn peer_publish(&mut self, fresh_only: bool) {
        let v = self.ver;
        if !fresh_only && !self.ix.is_empty() && self.rng.pct(35) {
            // retransmission of an unfinished message
            let ids: Vec<u32> = self.ix.iter().filter(|x| x.1.stage < 2).map(|x| *x.0).collect();
            if !ids.is_empty() {
                let id = *self.rng.pick(&ids);
                let mut p = self.ix[&id].pk.clone();
                p.dup = true;
                p.xt = false;
                if let Some(x) = &mut p.props {
                    x.retain(|y| y.0 != 35);
                }
                self.recv(&p);
                return;
            }
        }
        let q = *self.rng.pick(if fresh_only { &[1u8, 2, 1, 2] } else { &[0u8, 1, 2, 2] });
        let mut id = 0;
        if q > 0 {
            for _ in 0..8 {
                id = *self.rng.pick(&[1u32, 2, 3, 4, 5, 65535, 77]);
                if !self.ix.contains_key(&id) || self.rng.pct(2) {
                    break;
                }
            }
            if self.ix.len() > 6 {
                return;
            }
        }
        let mut topic = self.rng.pick(&TOPICS).as_bytes().to_vec();
        let mut props = vec![];
        if v == 5 {
            props = self.extra_props();
            if self.rng.pct(if self.tam_in > 0 { 45 } else { 3 }) {
                let hi = (self.tam_in as i64).clamp(1, 4);
                let known: Vec<u32> = self.peer_alias.keys().cloned().collect();
                if self.rng.pct(4) {
                    // out of range or unknown
                    let a = *self.rng.pick(&[hi as u16 + 1, 65535]);
                    props.push((35, PV::H(a)));
                    if self.rng.pct(50) {
                        topic = vec![];
                    }
                } else if !known.is_empty() && self.rng.pct(55) {
                    topic = vec![];
                    let a = *self.rng.pick(&known);
                    props.push((35, PV::H(a as u16)));
                } else {
                    let a = self.rng.range(1, hi) as u16;
                    props.push((35, PV::H(a)));
                    if self.rng.pct(3) {
                        topic = vec![];
                    }
                }
            }
        }
        let pl = self.payload();
        let mut p = pubk(v, id, q, &topic, pl, props);
        p.retain = self.rng.pct(15);
        p.dup = q > 0 && self.rng.pct(5);
        self.recv(&p);
    }
    fn do_todo(&mut self) -> bool {
        if self.todo.is_empty() {
            return false;
        }
        let i = if self.rng.pct(75) { 0 } else { self.rng.below(self.todo.len()) };
        let mut p = self.todo.remove(i);
        if matches!(p.k, "puback" | "pubrec" | "pubrel" | "pubcomp") {
            let (rc, props) = self.rc_for(p.k, p.v);
            p.rc = rc;
            p.props = props;
        }
        self.step(Call::Send(p));
        true
    }
    fn subscribe(&mut self) {
        let v = self.vv();
        if self.client || self.rng.pct(5) {
            if !self.subs.is_empty() && self.rng.pct(55) {
                let ids: Vec<u32> = self.subs.keys().cloned().collect();
                let id = *self.rng.pick(&ids);
                let sub = self.subs[&id];
                let k = if sub != self.rng.pct(6) { "suback" } else { "unsuback" };
                let p = sample(v, k, id).unwrap();
                self.recv(&p);
                return;
            }
            if self.subs.len() >= 3 {
                return;
            }
            let id = self.free_id();
            let k = if self.rng.pct(60) { "subscribe" } else { "unsubscribe" };
            let p = sample(v, k, id).unwrap();
            let r = self.step(Call::Send(p));
            self.maybe_send_error(&r);
        } else {
            let id = *self.rng.pick(&[1u32, 2, 9]);
            let k = if self.rng.pct(60) { "subscribe" } else { "unsubscribe" };
            let p = sample(v, k, id).unwrap();
            self.recv(&p);
        }
    }
    fn any_id(&mut self) -> u32 {
        let mut v: Vec<u32> = self.ox.keys().cloned().collect();
        v.extend(self.subs.keys());
        v.extend(self.own.iter());
        v.extend([1, 2, 9, 65535]);
        *self.rng.pick(&v)
    }
    fn bad_ack(&mut self) {
        let v = self.vv();
        let k = *self.rng.pick(&["puback", "pubrec", "pubcomp", "suback", "unsuback", "pubrel"]);
        let id = self.any_id();
        let mut p = sample(v, k, id).unwrap();
        if v == 5 && self.rng.pct(20) && matches!(k, "puback" | "pubrec") {
            p.rc = Some(0x80);
        }
        self.recv(&p);
    }
    fn ill_send(&mut self) {
        let v = if self.rng.pct(85) { self.vv() } else { *self.rng.pick(&[3, 5]) };
        let k = *self.rng.pick(&pk::KINDS);
        if k == "disconnect" && self.st == St::C && self.rng.pct(80) {
            return;
        }
        let id = match k {
            "publish" | "subscribe" | "unsubscribe" => self.free_id(),
            "pubrel" => {
                // PUBREL only for ids nothing else is using
                let due: Vec<u32> = self.todo.iter().filter(|x| x.k == "pubrel").map(|x| x.id).collect();
                if !due.is_empty() {
                    *self.rng.pick(&due)
                } else {
                    let mut i = 9;
                    while self.ox.contains_key(&i) || self.own.contains(&i) || self.subs.contains_key(&i) {
                        i += 1;
                    }
                    i
                }
            }
            "puback" | "pubrec" | "pubcomp" => {
                let c: Vec<u32> = self.ix.keys().cloned().collect();
                if self.st == St::C && !c.is_empty() {
                    return;
                }
                *self.rng.pick(&[1u32, 9])
            }
            _ => *self.rng.pick(&[1u32, 9]),
        };
        if self.st == St::D && k == "connect" {
            return;
        }
        if self.st == St::G && k == "connack" {
            return;
        }
        if let Some(mut p) = sample(v, k, id) {
            if k == "publish" && self.rng.pct(40) {
                p.qos = *self.rng.pick(&[0, 2]);
                if p.qos == 0 {
                    p.id = 0;
                    self.own.insert(id);
                }
            }
            if k == "publish" && v == 5 && self.rng.pct(30) {
                // an alias the peer does not allow or does not know
                if self.rng.pct(50) {
                    p.topic = vec![];
                }
                let a = *self.rng.pick(&[1u16, 2, 3, 4, 65535]);
                p.props = Some(vec![(35, PV::H(a))]);
            }
            if k == "publish" && self.rng.pct(15) {
                p.payload = vec![7; 150];
            }
            if k == "publish" && self.rng.pct(4) && p.qos > 0 {
                // an id that was never acquired
                let mut i = 11;
                while self.ox.contains_key(&i) || self.own.contains(&i) || self.subs.contains_key(&i) {
                    i += 1;
                }
                self.own.insert(p.id);
                p.id = i;
            }
            self.step(Call::Send(p));
        }
    }
    fn ill_recv(&mut self) {
        let v = self.vv();
        let t = self.rng.range(0, 15) as u8;
        if t == 0 {
            self.recv_bytes(vec![0, 0]);
            return;
        }
        let k = pk::kind_of(t).unwrap();
        let never = match k {
            "connect" | "subscribe" | "unsubscribe" | "pingreq" => self.client || k == "connect",
            "connack" | "suback" | "unsuback" | "pingresp" => true,
            "auth" | "disconnect" => true,
            _ => self.st != St::C,
        };
        if !never && self.rng.pct(70) {
            return;
        }
        if matches!(k, "connack") && self.st == St::G && self.client {
            return;
        }
        if k == "auth" && v == 3 {
            self.recv_bytes(vec![0xf0, 0]);
            return;
        }
        let id = self.any_id();
        let mut p = sample(v, k, id).unwrap();
        if k == "connect" {
            p.clean = self.rng.pct(50);
        }
        if k == "connack" {
            p.sp = self.rng.pct(50);
            if p.sp && v == 5 && self.rng.pct(30) {
                p.props = Some(vec![(17, PV::W(0))]);
            }
        }
        self.recv(&p);
    }
    fn garbage(&mut self) {
        let w = self.ex.width();
        let v = self.vv();
        match self.rng.below(8) {
            0 => {
                let h = self.rng.next() as u8;
                let x: Vec<u8> = (0..3).map(|_| 0x80 | self.rng_b()).collect();
                self.recv_bytes(vec![h, x[0], x[1], 0xff, x[2]]);
            }
            1 => {
                let n = self.rng.below(12);
                let mut b = vec![self.rng.next() as u8, n as u8];
                for _ in 0..n {
                    b.push(self.rng.next() as u8);
                }
                self.recv_bytes(b);
            }
            x => {
                // mutate a well-formed packet
                let k = if x < 4 { "publish" } else { *self.rng.pick(&pk::KINDS) };
                let id = self.any_id();
                let mut p = match sample(v, k, id) {
                    Some(p) => p,
                    None => return,
                };
                if k == "connect" {
                    p = self.connect_pk(v, false);
                    if self.rng.pct(40) {
                        p.will = Some(pk::Will { topic: b"w".to_vec(), payload: b"x".to_vec(), qos: 1, retain: true, props: vec![] });
                        p.user = Some(b"u".to_vec());
                    }
                }
                if v == 5 && p.props.is_some() && self.rng.pct(30) {
                    let e = self.extra_props();
                    p.props.as_mut().unwrap().extend(e);
                }
                let (mut h, mut b) = pk::encode_body(&p, w);
                if k == "connect" && self.rng.pct(20) {
                    b[6] = self.rng.next() as u8;
                }
                match self.rng.below(7) {
                    0 => {
                        let n = self.rng.below(b.len() + 1);
                        b.truncate(n)
                    }
                    1 | 2 if !b.is_empty() => {
                        let i = self.rng.below(b.len());
                        b[i] = self.rng.next() as u8;
                    }
                    3 if !b.is_empty() => {
                        let i = self.rng.below(b.len());
                        b[i] ^= 1 << self.rng.below(8);
                    }
                    4 => {
                        let n = self.rng.below(6);
                        for _ in 0..n {
                            b.push(self.rng.next() as u8);
                        }
                    }
                    5 => h ^= 1 << self.rng.below(4),
                    _ => {
                        if b.len() >= 2 {
                            let i = self.rng.below(b.len() - 1);
                            b[i] = *self.rng.pick(&[0, 0xff, 0x80]);
                            b[i + 1] = *self.rng.pick(&[0, 0xff, 1]);
                        }
                    }
                }
                let mut f = vec![h];
                f.extend(pk::vbi(b.len()));
                f.extend(b);
                self.recv_bytes(f);
            }
        }
    }
    fn rng_b(&mut self) -> u8 {
        self.rng.next() as u8
    }
    fn big(&mut self) {
        let v = self.vv();
        let base = if self.lmps > 0 && self.lmps < 400 { self.lmps as usize } else { 150 };
        let n = base.saturating_sub(12) + self.rng.below(14);
        let q = *self.rng.pick(&[0u8, 1, 2]);
        let id = *self.rng.pick(&[1u32, 2, 31, 32]);
        if self.ix.contains_key(&id) {
            return;
        }
        let p = pubk(v, if q > 0 { id } else { 0 }, q, b"a", vec![3; n], vec![]);
        self.recv(&p);
    }
    fn set_opt(&mut self, o: &'static str, n: u64) {
        self.step(Call::Opt(o, n));
    }
    fn start(&mut self) {
        let pr = self.pr.clone();
        if self.rng.pct(pr.apub) {
            self.set_opt("auto_pub", 1)
        }
        if self.rng.pct(50) {
            self.set_opt("auto_ping", 1)
        }
        if self.rng.pct(pr.amap) {
            self.set_opt("auto_map", 1)
        }
        if self.rng.pct(pr.amap) {
            self.set_opt("auto_replace", 1)
        }
        if self.rng.pct(pr.off) {
            self.set_opt("offline", 1)
        }
        if self.rng.pct(pr.ka) {
            let n = *self.rng.pick(&[1u64, 500, 3000]);
            self.set_opt("resp_timeout", n)
        }
        if self.rng.pct(pr.ka / 3) {
            let n = *self.rng.pick(&[Some(0u64), Some(1), Some(700), None]);
            self.step(Call::SetInt(n));
        }
        if self.rng.pct(pr.restore) && self.ver != 0 {
            self.restore_some();
        }
    }
    fn restore_some(&mut self) {
        let n = 1 + self.rng.below(4);
        let mut ps = vec![];
        let mut ids = BTreeSet::new();
        for _ in 0..n {
            let id = *self.rng.pick(&self.pool.clone());
            if !ids.insert(id) {
                continue;
            }
            if self.rng.pct(30) {
                ps.push(ack(self.ver, "pubrel", id, None));
            } else {
                let q = *self.rng.pick(&[1u8, 2]);
                let t = self.rng.pick(&TOPICS).as_bytes().to_vec();
                let pl = self.payload();
                let mut p = pubk(self.ver, id, q, &t, pl, vec![]);
                p.dup = true;
                ps.push(p);
            }
        }
        self.step(Call::Restore(ps));
        let mut h: Vec<u32> = vec![];
        for i in 1..5u32 {
            if self.rng.pct(30) {
                h.push(i);
            }
        }
        for i in &h {
            let p = pubk(self.ver, *i, 2, b"a", b"old".to_vec(), vec![]);
            self.ix.insert(*i, InX { q: 2, stage: self.rng.below(2) as u8, pk: p });
        }
        self.step(Call::RestoreQ2(h));
    }
    fn crash(&mut self) {
        // only when everything accepted is in the export, and nothing is left half-done locally
        if !self.persist || self.ver == 0 || self.st == St::G {
            return;
        }
        if self.ox.values().any(|x| x.stage == 1) {
            return;
        }
        for i in self.own.clone() {
            self.step(Call::Release(i));
        }
        self.own.clear();
        let o = self.ex.obs();
        // the old object: only its transport is lost
        self.tw = None;
        self.step(Call::Closed);
        if self.dead {
            return;
        }
        if !self.restore_twin(o) {
            return;
        }
        let v = self.ver;
        let mut p = self.connect_pk(v, self.client);
        p.clean = false;
        if v == 5 && Self::num(&p, 17).unwrap_or(0) == 0 {
            p.props.as_mut().unwrap().retain(|x| x.0 != 17);
            p.props.as_mut().unwrap().push((17, PV::W(100)));
        }
        let mut a = self.connack_pk(v, !self.client);
        a.rc = Some(0);
        a.sp = true;
        if let Some(x) = &mut a.props {
            x.retain(|y| y.0 != 17)
        }
        if self.client {
            self.step(Call::Send(p));
            self.recv(&a);
        } else {
            self.recv(&p);
            self.step(Call::Send(a));
        }
    }
    fn restore_twin(&mut self, o: Obs) -> bool {
        let mut t = self.ex.fresh_v(self.ver);
        for (k, v) in &self.opts {
            t.call(&Call::Opt(k, *v));
        }
        if self.uint.is_some() {
            t.call(&Call::SetInt(self.uint));
        }
        let ps: Vec<Pk> = o.stored.iter().map(|x| x.0.clone()).collect();
        let rr = t.call(&Call::Restore(ps.clone()));
        let r2 = t.call(&Call::RestoreQ2(o.handled.clone()));
        self.tw = Some(t);
        self.tw_cmp = true;
        if rr.skip || rr.panic.is_some() || r2.panic.is_some() {
            self.out.line(json!({"k":"fail","prop":"C16","msg":format!("an exported packet could not be restored: {:?} {:?} {:?}", rr.panic, r2.panic, ps)}));
            self.tw = None;
            return false;
        }
        true
    }
    fn lose(&mut self) {
        if self.rng.pct(25) && self.st == St::C {
            // bytes of an unfinished packet arrive before the loss
            let p = pubk(self.ver, 0, 0, b"a", vec![1; 20], vec![]);
            let b = pk::encode(&p, self.ex.width());
            let n = 1 + self.rng.below(b.len() - 1);
            self.step(Call::Part(b[..n].to_vec()));
        }
        self.step(Call::Closed);
    }
    fn handshake(&mut self) {
        let v = self.vv();
        match self.st {
            St::D => {
                if self.rng.pct(12) {
                    // something else while not connected
                    match self.rng.below(5) {
                        0 => self.app_publish(),
                        1 => self.ill_send(),
                        2 => self.ill_recv(),
                        3 => {
                            self.do_todo();
                        }
                        _ => {
                            let n = *self.rng.pick(&[None, Some(0u64), Some(40), Some(900)]);
                            self.step(Call::SetInt(n));
                        }
                    }
                    return;
                }
                if self.rng.pct(self.pr.off) && self.persist {
                    self.app_publish();
                    return;
                }
                let client = match self.ex.role() {
                    'c' => true,
                    's' => false,
                    _ => self.rng.pct(50),
                };
                let mut p = self.connect_pk(v, client);
                if client {
                    self.step(Call::Send(p));
                } else {
                    if self.rng.pct(10) {
                        p.cid = vec![];
                    }
                    if self.rng.pct(4) {
                        self.garbage();
                    } else {
                        self.recv(&p);
                    }
                }
            }
            St::G => {
                if self.rng.pct(15) {
                    match self.rng.below(6) {
                        0 => self.app_publish(),
                        1 => self.ill_send(),
                        2 => self.ill_recv(),
                        3 => self.lose(),
                        4 if v == 5 => {
                            let p = sample(5, "auth", 0).unwrap();
                            if self.rng.pct(50) {
                                self.recv(&p);
                            } else {
                                self.step(Call::Send(p));
                            }
                        }
                        _ => self.peer_publish(false),
                    }
                    return;
                }
                let p = self.connack_pk(v, !self.client);
                if self.client {
                    self.recv(&p);
                } else {
                    self.step(Call::Send(p));
                }
            }
            St::C => {}
        }
    }
    fn act(&mut self) {
        if self.closing {
            if self.rng.pct(88) {
                self.step(Call::Closed);
                return;
            }
            match self.rng.below(4) {
                0 => self.app_publish(),
                1 => self.ill_send(),
                2 => {
                    self.do_todo();
                }
                _ => {
                    let n = *self.rng.pick(&[None, Some(0u64), Some(40)]);
                    self.step(Call::SetInt(n));
                }
            };
            return;
        }
        if self.st != St::C {
            self.handshake();
            return;
        }
        let tot: u32 = self.pr.wt.values().sum();
        let mut x = (self.rng.next() % tot as u64) as u32;
        let mut name = "pub";
        for (k, v) in &self.pr.wt {
            if x < *v {
                name = k;
                break;
            }
            x -= v;
        }
        let v = self.ver;
        match name {
            "pub" => self.app_publish(),
            "peerack" => {
                if !self.peer_ack() {
                    self.app_publish()
                }
            }
            "badack" => self.bad_ack(),
            "peerpub" => self.peer_publish(false),
            "excess" => self.peer_publish(true),
            "peerrel" => {
                let ids: Vec<u32> = self.ix.iter().filter(|x| x.1.q == 2 && x.1.stage >= 1).map(|x| *x.0).collect();
                if !ids.is_empty() {
                    let id = *self.rng.pick(&ids);
                    self.recv(&ack(v, "pubrel", id, None));
                }
            }
            "todo" => {
                self.do_todo();
            }
            "sub" => self.subscribe(),
            "ping" => {
                if self.client {
                    if self.rng.pct(50) {
                        self.step(Call::Send(ack(v, "pingreq", 0, None)));
                    } else {
                        self.recv(&ack(v, "pingresp", 0, None));
                    }
                } else {
                    self.recv(&ack(v, "pingreq", 0, None));
                }
            }
            "timer" => {
                let t: Vec<usize> = self.timers.iter().cloned().collect();
                if !t.is_empty() {
                    let k = *self.rng.pick(&t);
                    if k != 0 && self.rng.pct(50) {
                        return;
                    }
                    self.step(Call::Timer(k));
                }
            }
            "setint" => {
                let n = *self.rng.pick(&[None, Some(0u64), Some(40), Some(900)]);
                self.step(Call::SetInt(n));
            }
            "disc" => {
                if v == 5 || self.client || self.ex.role() == 'a' {
                    let mut p = ack(v, "disconnect", 0, None);
                    if v == 5 && self.rng.pct(30) {
                        p.rc = Some(4);
                    }
                    self.step(Call::Send(p));
                }
            }
            "peerdisc" => {
                if v == 5 || !self.client {
                    self.recv(&ack(v, "disconnect", 0, None));
                    if self.rng.pct(80) {
                        self.step(Call::Closed);
                    }
                }
            }
            "lose" => self.lose(),
            "ids" => match self.rng.below(4) {
                0 => {
                    if self.own.len() < 4 {
                        self.step(Call::Acquire);
                    }
                }
                1 => {
                    let i = *self.rng.pick(&[0u32, 1, 2, 3, 7, 300, 65535]);
                    self.step(Call::Register(i));
                }
                2 => {
                    let own: Vec<u32> = self.own.iter().cloned().collect();
                    if !own.is_empty() {
                        let i = *self.rng.pick(&own);
                        self.step(Call::Release(i));
                    }
                }
                _ => {
                    // ids that are free, including 0
                    let i = *self.rng.pick(&[0u32, 8, 9, 4242]);
                    if !self.own.contains(&i) && !self.ox.contains_key(&i) && !self.subs.contains_key(&i) {
                        self.step(Call::Release(i));
                    }
                }
            },
            "erase" => {
                let mut ids: Vec<u32> = self.ox.keys().cloned().collect();
                ids.push(9);
                let i = *self.rng.pick(&ids);
                self.step(Call::Erase(i));
            }
            "regulate" => {
                if v == 5 {
                    let known: Vec<u32> = self.app_alias.keys().cloned().collect();
                    let a = if known.is_empty() || self.rng.pct(20) { 1 } else { *self.rng.pick(&known) };
                    let t: &[u8] = if self.rng.pct(70) { b"" } else { b"zz" };
                    let p = pubk(5, 3, 1, t, b"r".to_vec(), vec![(35, PV::H(a as u16))]);
                    self.step(Call::Regulate(p));
                }
            }
            "illsend" => self.ill_send(),
            "illrecv" => self.ill_recv(),
            "garbage" => self.garbage(),
            "big" => self.big(),
            "opt" => {
                let o = *self.rng.pick(&["auto_pub", "auto_ping", "auto_map", "auto_replace", "resp_timeout"]);
                let n = if o == "resp_timeout" { *self.rng.pick(&[0u64, 10]) } else { self.rng.below(2) as u64 };
                self.step(Call::Opt(o, n));
            }
            "part" => {
                if self.rng.pct(40) {
                    self.lose()
                }
            }
            "auth" => {
                if v == 5 {
                    let p = sample(5, "auth", 0).unwrap();
                    if self.rng.pct(50) {
                        self.recv(&p);
                    } else {
                        self.step(Call::Send(p));
                    }
                }
            }
            "crash" => self.crash(),
            "anyack" => {
                // acknowledgements for anything the peer sent, possibly repeated
                let k = *self.rng.pick(&["puback", "pubrec", "pubcomp"]);
                let ids: Vec<u32> = self.ix.iter().filter(|x| (x.1.q == 1) == (k == "puback")).map(|x| *x.0).collect();
                if !ids.is_empty() {
                    let id = *self.rng.pick(&ids);
                    let (rc, props) = self.rc_for(k, v);
                    let mut p = ack(v, k, id, rc);
                    p.props = props;
                    self.step(Call::Send(p));
                }
            }
            _ => {}
        }
        let _ = self.peer_is_server();
    }
    pub fn run(&mut self) {
        self.start();
        let end = self.out.n + self.pr.len / 2 + self.rng.below(self.pr.len);
        while self.out.n < end && !self.dead {
            self.act();
        }
    }
}

pub fn sent<'r>(r: &'r Res, k: &str) -> Option<&'r Pk> {
    r.ev.iter().find_map(|e| match e {
        Ev::Send(p, ..) if p.k == k => Some(p),
        _ => None,
    })
}
pub fn got<'r>(r: &'r Res, k: &str) -> Option<&'r Pk> {
    r.ev.iter().find_map(|e| match e {
        Ev::Recv(p, _) if p.k == k => Some(p),
        _ => None,
    })
}
fn tres(c: &Call, r: &Res, t: &Res, m: &mut Map<String, Value>) {
    let same = match c {
        Call::Acquire => r.ok == t.ok && r.id == t.id,
        Call::Register(_) => r.ok == t.ok,
        Call::Regulate(_) => r.ok == t.ok && r.err == t.err && r.pk == t.pk,
        _ => true,
    };
    if !same || r.panic.is_some() != t.panic.is_some() {
        m.insert("tres".into(), json!(format!("{:?}/{}/{} vs {:?}/{}/{}", r.panic, r.ok, r.id, t.panic, t.ok, t.id)));
    }
}

pub fn run(prof: &str, seed: u64, traces: usize, out: &mut Out) {
    let pr = profile(prof);
    for i in 0..traces {
        let mut s = Sim::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64), &pr, out);
        s.run();
    }
}
