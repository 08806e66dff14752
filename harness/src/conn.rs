//! Executes calls on a real connection object and reports what was observable.
use crate::pk::{self, Pid, Pk, PV};
use crate::util::catch;
use mqtt_protocol_core::mqtt::common::{Cursor, HashSet};
use mqtt_protocol_core::mqtt::connection::prelude::*;
use mqtt_protocol_core::mqtt::connection::role::{Any, Client, RoleType, Server};
use mqtt_protocol_core::mqtt::connection::GenericConnection;
use mqtt_protocol_core::mqtt::packet::prelude::*;
use mqtt_protocol_core::mqtt::packet::*;
use mqtt_protocol_core::mqtt::Version;
use serde_json::{json, Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Opt(&'static str, u64),
    SetInt(Option<u64>),
    Send(Pk),
    /// frame bytes, cut points (ascending, inside the frame)
    Recv(Vec<u8>, Vec<usize>),
    /// a strict prefix of a frame
    Part(Vec<u8>),
    Timer(usize),
    Closed,
    Acquire,
    Register(u32),
    Release(u32),
    Erase(u32),
    Restore(Vec<Pk>),
    RestoreQ2(Vec<u32>),
    Regulate(Pk),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Send(Pk, Vec<u8>, Option<u32>),
    Recv(Pk, usize),
    Rel(u32),
    TReset(usize, u64),
    TCancel(usize),
    Err(String),
    Close,
}
pub const TIMERS: [&str; 3] = ["ps", "pr", "pp"];

#[derive(Clone, Debug, Default)]
pub struct Res {
    pub ev: Vec<Ev>,
    pub panic: Option<String>,
    /// call result for acquire / register / regulate
    pub ok: bool,
    pub id: u32,
    pub err: String,
    pub pk: Option<Pk>,
    pub sz: usize,
    /// recv: events seen in earlier chunks of the same frame (must be 0), bytes left unread at the end (must be 0)
    pub early: usize,
    pub left: usize,
    /// the call could not be made (packet not buildable)
    pub skip: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Obs {
    pub vac: i64,
    pub stored: Vec<(Pk, usize)>,
    pub handled: Vec<u32>,
    pub ver: u8,
}

pub trait Ex {
    fn call(&mut self, c: &Call) -> Res;
    /// one call to recv with these bytes; the number of bytes it consumed
    fn feed(&mut self, b: &[u8]) -> (Res, usize);
    fn obs(&self) -> Obs;
    /// in-use probe by register + release
    fn probe(&mut self, ids: &[u32]) -> Vec<(u32, bool)>;
    fn fresh(&self) -> Box<dyn Ex>;
    fn fresh_v(&self, ver: u8) -> Box<dyn Ex>;
    fn role(&self) -> char;
    fn ver0(&self) -> u8;
    fn width(&self) -> usize;
    fn parse(&self, v: u8, header: u8, body: &[u8]) -> Result<Pk, String>;
    fn build(&self, p: &Pk) -> Option<Vec<u8>>;
}

pub struct Exec<R: RoleType + 'static, P: Pid> {
    c: GenericConnection<R, P>,
    ver: u8,
    role: char,
}

fn ver(v: u8) -> Version {
    match v {
        3 => Version::V3_1_1,
        5 => Version::V5_0,
        _ => Version::Undetermined,
    }
}

pub fn make(role: char, v: u8, w: usize) -> Box<dyn Ex> {
    macro_rules! m {
        ($r:ty, $p:ty) => {
            Box::new(Exec::<$r, $p> { c: GenericConnection::new(ver(v)), ver: v, role })
        };
    }
    match (role, w) {
        ('c', 2) => m!(Client, u16),
        ('s', 2) => m!(Server, u16),
        ('a', 2) => m!(Any, u16),
        ('c', 4) => m!(Client, u32),
        ('s', 4) => m!(Server, u32),
        _ => m!(Any, u32),
    }
}

fn to_store<P: Pid>(p: GenericPacket<P>) -> Option<GenericStorePacket<P>> {
    Some(match p {
        GenericPacket::V3_1_1Publish(p) => GenericStorePacket::V3_1_1Publish(p),
        GenericPacket::V3_1_1Pubrel(p) => GenericStorePacket::V3_1_1Pubrel(p),
        GenericPacket::V5_0Publish(p) => GenericStorePacket::V5_0Publish(p),
        GenericPacket::V5_0Pubrel(p) => GenericStorePacket::V5_0Pubrel(p),
        _ => return None,
    })
}
fn of_store<P: Pid>(p: GenericStorePacket<P>) -> GenericPacket<P> {
    match p {
        GenericStorePacket::V3_1_1Publish(p) => GenericPacket::V3_1_1Publish(p),
        GenericStorePacket::V3_1_1Pubrel(p) => GenericPacket::V3_1_1Pubrel(p),
        GenericStorePacket::V5_0Publish(p) => GenericPacket::V5_0Publish(p),
        GenericStorePacket::V5_0Pubrel(p) => GenericPacket::V5_0Pubrel(p),
    }
}

impl<R: RoleType + 'static, P: Pid> Exec<R, P>
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    fn evs(&self, e: Vec<GenericEvent<P>>) -> Vec<Ev> {
        let t = |k: TimerKind| match k {
            TimerKind::PingreqSend => 0,
            TimerKind::PingreqRecv => 1,
            TimerKind::PingrespRecv => 2,
        };
        e.into_iter()
            .map(|x| match x {
                GenericEvent::NotifyPacketReceived(p) => Ev::Recv(pk::describe(&p), p.size()),
                GenericEvent::RequestSendPacket { packet, release_packet_id_if_send_error } => Ev::Send(
                    pk::describe(&packet),
                    packet.to_continuous_buffer(),
                    release_packet_id_if_send_error.map(|x| x.u()),
                ),
                GenericEvent::NotifyPacketIdReleased(i) => Ev::Rel(i.u()),
                GenericEvent::RequestTimerReset { kind, duration_ms } => Ev::TReset(t(kind), duration_ms),
                GenericEvent::RequestTimerCancel(k) => Ev::TCancel(t(k)),
                GenericEvent::NotifyError(e) => Ev::Err(format!("{e:?}")),
                GenericEvent::RequestClose => Ev::Close,
            })
            .collect()
    }
    fn go(&mut self, call: &Call, r: &mut Res) {
        let c = &mut self.c;
        match call {
            Call::Opt(o, n) => {
                let b = *n != 0;
                match *o {
                    "auto_pub" => c.set_auto_pub_response(b),
                    "auto_ping" => c.set_auto_ping_response(b),
                    "auto_map" => c.set_auto_map_topic_alias_send(b),
                    "auto_replace" => c.set_auto_replace_topic_alias_send(b),
                    "offline" => c.set_offline_publish(b),
                    "resp_timeout" => c.set_pingresp_recv_timeout(*n),
                    _ => unreachable!(),
                }
            }
            Call::SetInt(ms) => {
                let e = c.set_pingreq_send_interval(*ms);
                r.ev = self.evs(e);
            }
            Call::Send(p) => match pk::build::<P>(p) {
                Ok(g) => {
                    r.sz = g.size();
                    let e = c.send(g);
                    r.ev = self.evs(e);
                }
                Err(_) => r.skip = true,
            },
            Call::Recv(b, cuts) => {
                let mut pos = 0;
                let mut ends = cuts.clone();
                ends.push(b.len());
                for (i, end) in ends.iter().enumerate() {
                    let piece = &b[pos..*end];
                    let mut cur = Cursor::new(piece);
                    let e = self.c.recv(&mut cur);
                    let used = cur.position() as usize;
                    if i + 1 < ends.len() {
                        r.early += e.len() + (piece.len() - used);
                    } else {
                        r.left = piece.len() - used;
                        r.ev = self.evs(e);
                    }
                    pos = *end;
                }
            }
            Call::Part(b) => {
                let mut cur = Cursor::new(&b[..]);
                let e = c.recv(&mut cur);
                r.early = e.len();
                r.left = b.len() - cur.position() as usize;
                r.ev = self.evs(e);
            }
            Call::Timer(k) => {
                let t = [TimerKind::PingreqSend, TimerKind::PingreqRecv, TimerKind::PingrespRecv][*k];
                let e = c.notify_timer_fired(t);
                r.ev = self.evs(e);
            }
            Call::Closed => {
                let e = c.notify_closed();
                r.ev = self.evs(e);
            }
            Call::Acquire => match c.acquire_packet_id() {
                Ok(i) => {
                    r.ok = true;
                    r.id = i.u();
                }
                Err(e) => r.err = format!("{e:?}"),
            },
            Call::Register(i) => match c.register_packet_id(P::of(*i)) {
                Ok(()) => r.ok = true,
                Err(e) => r.err = format!("{e:?}"),
            },
            Call::Release(i) => {
                let e = c.release_packet_id(P::of(*i));
                r.ev = self.evs(e);
            }
            Call::Erase(i) => {
                let e = c.erase_stored_publish(P::of(*i));
                r.ev = self.evs(e);
            }
            Call::Restore(ps) => {
                let mut v = vec![];
                for p in ps {
                    match pk::build::<P>(p).ok().and_then(to_store) {
                        Some(x) => v.push(x),
                        None => {
                            r.skip = true;
                            return;
                        }
                    }
                }
                c.restore_packets(v);
            }
            Call::RestoreQ2(ids) => {
                let mut h: HashSet<P> = HashSet::default();
                for i in ids {
                    h.insert(P::of(*i));
                }
                c.restore_qos2_publish_handled(h);
            }
            Call::Regulate(p) => match pk::build::<P>(p) {
                Ok(GenericPacket::V5_0Publish(g)) => match c.regulate_for_store(g) {
                    Ok(x) => {
                        r.ok = true;
                        r.sz = x.size();
                        r.pk = Some(pk::describe(&GenericPacket::V5_0Publish(x)));
                    }
                    Err(e) => r.err = format!("{e:?}"),
                },
                _ => r.skip = true,
            },
        }
    }
}

impl<R: RoleType + 'static, P: Pid> Ex for Exec<R, P>
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    fn call(&mut self, c: &Call) -> Res {
        let mut r = Res::default();
        if let Err(m) = catch(|| self.go(c, &mut r)) {
            r.panic = Some(m);
            r.ev.clear();
        }
        r
    }
    fn feed(&mut self, b: &[u8]) -> (Res, usize) {
        let mut r = Res::default();
        let mut cur = Cursor::new(b);
        match catch(|| self.c.recv(&mut cur)) {
            Ok(e) => r.ev = self.evs(e),
            Err(m) => r.panic = Some(m),
        }
        (r, cur.position() as usize)
    }
    fn obs(&self) -> Obs {
        let mut handled: Vec<u32> = self.c.get_qos2_publish_handled().iter().map(|x| x.u()).collect();
        handled.sort();
        Obs {
            vac: self.c.get_receive_maximum_vacancy_for_send().map(|x| x as i64).unwrap_or(-1),
            stored: self
                .c
                .get_stored_packets()
                .into_iter()
                .map(|p| {
                    let n = p.size();
                    (pk::describe(&of_store(p)), n)
                })
                .collect(),
            handled,
            ver: match self.c.get_protocol_version() {
                Version::V3_1_1 => 3,
                Version::V5_0 => 5,
                _ => 0,
            },
        }
    }
    fn probe(&mut self, ids: &[u32]) -> Vec<(u32, bool)> {
        ids.iter()
            .map(|i| {
                let r = catch(|| match self.c.register_packet_id(P::of(*i)) {
                    Ok(()) => {
                        self.c.release_packet_id(P::of(*i));
                        false
                    }
                    Err(_) => true,
                });
                (*i, r.unwrap_or(true))
            })
            .collect()
    }
    fn fresh(&self) -> Box<dyn Ex> {
        make(self.role, self.ver, P::W)
    }
    fn fresh_v(&self, v: u8) -> Box<dyn Ex> {
        make(self.role, v, P::W)
    }
    fn role(&self) -> char {
        self.role
    }
    fn ver0(&self) -> u8 {
        self.ver
    }
    fn width(&self) -> usize {
        P::W
    }
    fn parse(&self, v: u8, header: u8, body: &[u8]) -> Result<Pk, String> {
        match catch(|| pk::parse::<P>(v, header, body).map(|(g, _)| pk::describe(&g))) {
            Ok(x) => x,
            Err(_) => Err("panic".into()),
        }
    }
    fn build(&self, p: &Pk) -> Option<Vec<u8>> {
        pk::build::<P>(p).ok().map(|g| g.to_continuous_buffer())
    }
}

// ---------------------------------------------------------------- JSON view of packets for the connection-level specs
fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub fn i32w(v: u32) -> i64 {
    v as i32 as i64
}
fn cap(v: u32) -> i64 {
    v.min(i32::MAX as u32) as i64
}
pub fn prop_num(p: &Pk, id: u8) -> Option<u32> {
    p.props.as_ref()?.iter().find(|(i, _)| *i == id).map(|(_, v)| match v {
        PV::B(x) => *x as u32,
        PV::H(x) => *x as u32,
        PV::W(x) | PV::V(x) => *x,
        _ => 0,
    })
}
pub fn alias(p: &Pk) -> u32 {
    prop_num(p, 35).unwrap_or(0)
}
pub fn pj(p: &Pk, sz: usize) -> Value {
    let mut m = Map::new();
    m.insert("k".into(), json!(p.k));
    m.insert("v".into(), json!(p.v));
    m.insert("id".into(), json!(i32w(p.id)));
    m.insert("rc".into(), json!(p.rc.map(|x| x as i64).unwrap_or(-1)));
    m.insert("sz".into(), json!(sz));
    let n = |x: u8| prop_num(p, x).map(cap).unwrap_or(-1);
    let fp: String;
    match p.k {
        "publish" => {
            let mut b = vec![p.retain as u8];
            let other: pk::Props = p.props.iter().flatten().filter(|x| x.0 != 35).cloned().collect();
            let ob = pk::enc_props(&other);
            b.extend(&ob);
            b.push(255);
            b.extend(&p.payload);
            fp = format!("{:x}", fnv(&b));
            m.insert("q".into(), json!(p.qos));
            m.insert("d".into(), json!(p.dup));
            m.insert("t".into(), json!(String::from_utf8_lossy(&p.topic)));
            m.insert("tl".into(), json!(p.topic.len()));
            m.insert("a".into(), json!(alias(p)));
            m.insert("op".into(), json!(ob.len()));
            m.insert("pn".into(), json!(p.payload.len()));
            m.insert("xt".into(), json!(p.xt));
        }
        "connect" | "connack" => {
            fp = format!("{:x}", fnv(format!("{p:?}").as_bytes()));
            m.insert("cl".into(), json!(p.clean));
            m.insert("sp".into(), json!(p.sp));
            m.insert("ka".into(), json!(p.ka));
            m.insert("tam".into(), json!(n(34)));
            m.insert("rm".into(), json!(n(33)));
            m.insert("mps".into(), json!(n(39)));
            m.insert("sei".into(), json!(n(17)));
            m.insert("ska".into(), json!(n(19)));
        }
        "puback" | "pubrec" | "pubrel" | "pubcomp" | "disconnect" | "auth" => {
            fp = match &p.props {
                Some(x) if !x.is_empty() => format!("{:x}", fnv(format!("{x:?}").as_bytes())),
                _ => String::new(),
            };
        }
        "pingreq" | "pingresp" => fp = String::new(),
        _ => {
            let mut q = p.clone();
            q.id = 0;
            fp = format!("{:x}", fnv(format!("{q:?}").as_bytes()));
        }
    }
    m.insert("fp".into(), json!(fp));
    Value::Object(m)
}
pub fn evj(e: &Ev) -> Value {
    match e {
        Ev::Send(p, b, r) => json!({"e":"send","p":pj(p,b.len()),"rel":r.map(i32w).unwrap_or(0)}),
        Ev::Recv(p, n) => json!({"e":"recv","p":pj(p,*n)}),
        Ev::Rel(i) => json!({"e":"rel","id":i32w(*i)}),
        Ev::TReset(k, ms) => json!({"e":"treset","t":TIMERS[*k],"ms":(*ms).min(i32::MAX as u64)}),
        Ev::TCancel(k) => json!({"e":"tcancel","t":TIMERS[*k]}),
        Ev::Err(x) => json!({"e":"err","x":x}),
        Ev::Close => json!({"e":"close"}),
    }
}
pub fn evsj(e: &[Ev]) -> Value {
    Value::Array(e.iter().map(evj).collect())
}

/// The call and its arguments as a trace line (without results).
pub fn callj(c: &Call, ex: &dyn Ex, ver_before: u8) -> Map<String, Value> {
    let mut m = Map::new();
    let mut set = |k: &str, v: Value| {
        m.insert(k.into(), v);
    };
    match c {
        Call::Opt(o, n) => {
            set("k", json!("opt"));
            set("o", json!(o));
            set("n", json!(n));
        }
        Call::SetInt(x) => {
            set("k", json!("setint"));
            set("ms", json!(x.map(|y| y as i64).unwrap_or(-1)));
        }
        Call::Send(p) => {
            set("k", json!("send"));
            set("p", pj(p, ex.build(p).map(|b| b.len()).unwrap_or(0)));
        }
        Call::Recv(b, cuts) => {
            set("k", json!("recv"));
            // frame analysis from the standard's fixed-header format
            let hdr = b[0];
            let mut i = 1;
            let mut n = 0usize;
            let mut mul = 1usize;
            let mut bad = false;
            loop {
                if i > 4 {
                    bad = true;
                    break;
                }
                let x = b[i];
                n += (x & 0x7f) as usize * mul;
                mul *= 128;
                i += 1;
                if x & 0x80 == 0 {
                    break;
                }
            }
            let body = if bad { &b[b.len()..] } else { &b[i..] };
            // Non-minimal Remaining Length is tolerated by the framing layer; the size is what is on the wire.
            let _ = n;
            set("bad", json!(bad));
            set("ty", json!(hdr >> 4));
            set("fl", json!(hdr & 15));
            set("sz", json!(if bad { 0 } else { 1 + pk::vbi(body.len()).len() + body.len() }));
            set("rl", json!(body.len()));
            set("nc", json!(cuts.len()));
            let lvl = if body.len() >= 7 { body[6] as i64 } else { -1 };
            set("lvl", json!(lvl));
            let v = match ver_before {
                0 => match lvl {
                    4 => 3,
                    5 => 5,
                    _ => 0,
                },
                v => v,
            };
            let none = json!({"k":"none"});
            if bad || v == 0 || hdr >> 4 == 0 {
                set("perr", json!("none"));
                set("p", none);
            } else {
                match ex.parse(v, hdr, body) {
                    Ok(p) => {
                        let sz = ex.build(&p).map(|x| x.len()).unwrap_or(0);
                        set("perr", json!(""));
                        set("p", pj(&p, sz));
                    }
                    Err(x) => {
                        set("perr", json!(x));
                        set("p", none);
                    }
                }
            }
        }
        Call::Part(b) => {
            set("k", json!("part"));
            set("n", json!(b.len()));
        }
        Call::Timer(k) => {
            set("k", json!("timer"));
            set("t", json!(TIMERS[*k]));
        }
        Call::Closed => set("k", json!("closed")),
        Call::Acquire => set("k", json!("acquire")),
        Call::Register(i) => {
            set("k", json!("register"));
            set("id", json!(i32w(*i)));
        }
        Call::Release(i) => {
            set("k", json!("release"));
            set("id", json!(i32w(*i)));
        }
        Call::Erase(i) => {
            set("k", json!("erase"));
            set("id", json!(i32w(*i)));
        }
        Call::Restore(ps) => {
            set("k", json!("restore"));
            set(
                "ps",
                Value::Array(ps.iter().map(|p| pj(p, ex.build(p).map(|b| b.len()).unwrap_or(0))).collect()),
            );
        }
        Call::RestoreQ2(ids) => {
            set("k", json!("restoreq2"));
            set("ids", json!(ids.iter().map(|x| i32w(*x)).collect::<Vec<_>>()));
        }
        Call::Regulate(p) => {
            set("k", json!("regulate"));
            set("p", pj(p, ex.build(p).map(|b| b.len()).unwrap_or(0)));
        }
    }
    m
}
/// Results added to the line.
pub fn resj(m: &mut Map<String, Value>, c: &Call, r: &Res) {
    m.insert("ev".into(), evsj(&r.ev));
    if let Some(p) = &r.panic {
        m.insert("panic".into(), json!(p));
    }
    match c {
        Call::Acquire => {
            m.insert("ok".into(), json!(r.ok));
            m.insert("id".into(), json!(i32w(r.id)));
        }
        Call::Register(_) => {
            m.insert("ok".into(), json!(r.ok));
        }
        Call::Regulate(_) => {
            m.insert("ok".into(), json!(r.ok));
            m.insert("x".into(), json!(r.err));
            if let Some(p) = &r.pk {
                m.insert("rp".into(), pj(p, r.sz));
            }
        }
        Call::Recv(..) | Call::Part(_) => {
            m.insert("early".into(), json!(r.early));
            m.insert("left".into(), json!(r.left));
        }
        _ => {}
    }
}
pub fn obsj(o: &Obs, last: &Option<Obs>) -> Value {
    let mut m = Map::new();
    m.insert("vac".into(), json!(o.vac));
    m.insert("ver".into(), json!(o.ver));
    if last.as_ref().map(|l| l.stored != o.stored).unwrap_or(true) {
        m.insert("st".into(), Value::Array(o.stored.iter().map(|(p, n)| pj(p, *n)).collect()));
    }
    if last.as_ref().map(|l| l.handled != o.handled).unwrap_or(true) {
        m.insert("h".into(), json!(o.handled.iter().map(|x| i32w(*x)).collect::<Vec<_>>()));
    }
    Value::Object(m)
}
