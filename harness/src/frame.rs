//! Byte streams fed to a real connection in pieces, and to an identical one packet by packet.
use crate::conn::*;
use crate::drv::{ack, pubk, sample};
use crate::pk::{self, PV};
use crate::rng::Rng;
use crate::util::Out;
use serde_json::{json, Value};

fn rle(b: &[u8]) -> Value {
    let mut o: Vec<(u8, usize)> = vec![];
    for x in b {
        match o.last_mut() {
            Some(l) if l.0 == *x => l.1 += 1,
            _ => o.push((*x, 1)),
        }
    }
    json!(o)
}

/// A connection in a working state, plus the deterministic application on top of it.
struct Side {
    ex: Box<dyn Ex>,
    v: u8,
}
impl Side {
    fn new(role: char, v: u8, w: usize, auto: bool, up: bool, rv: u8) -> Side {
        let mut s = Side { ex: make(role, rv, w), v };
        s.ex.call(&Call::Opt("auto_pub", auto as u64));
        s.ex.call(&Call::Opt("auto_ping", auto as u64));
        if up {
            s.up()
        }
        s
    }
    fn connect(&self) -> pk::Pk {
        let mut c = sample(self.v, "connect", 0).unwrap();
        c.ka = 10;
        c.clean = false;
        if self.v == 5 {
            c.props = Some(vec![(17, PV::W(100)), (34, PV::H(5)), (33, PV::H(3))]);
        }
        c
    }
    fn connack(&self) -> pk::Pk {
        let mut c = sample(self.v, "connack", 0).unwrap();
        if self.v == 5 {
            c.props = Some(vec![(34, PV::H(5)), (33, PV::H(3))]);
        }
        c
    }
    /// establish the connection with whole packets
    fn up(&mut self) {
        let w = self.ex.width();
        let (c, a) = (self.connect(), self.connack());
        if self.ex.role() == 's' {
            self.ex.feed(&pk::encode(&c, w));
            self.ex.call(&Call::Send(a));
        } else {
            self.ex.call(&Call::Send(c));
            self.ex.feed(&pk::encode(&a, w));
        }
    }
    fn react(&mut self, ev: &[Ev]) -> Option<Vec<Ev>> {
        if ev.iter().any(|e| matches!(e, Ev::Recv(p, _) if p.k == "connect")) {
            let a = self.connack();
            return Some(self.ex.call(&Call::Send(a)).ev);
        }
        None
    }
}

/// feeds `frames` as one stream cut into `chunks`; keeps `keep` bytes of the last frame back
fn run_stream(out: &mut Out, a: &mut Side, b: &mut Side, frames: &[Vec<u8>], chunks: &[usize], cut: usize) -> bool {
    let stream: Vec<u8> = frames.concat();
    let total = stream.len() - cut;
    // the reference: packet by packet
    let mut w = vec![];
    let mut re = vec![];
    let n = if cut > 0 { frames.len() - 1 } else { frames.len() };
    for f in &frames[..n] {
        let (r, _) = b.ex.feed(f);
        if let Some(p) = r.panic {
            out.line(json!({"k":"new"}));
            out.line(json!({"k":"stream","segs":rle(f),"w":[[]]}));
            out.line(json!({"k":"feed","n":f.len(),"used":f.len(),"ev":[],"panic":p}));
            return false;
        }
        w.push(evsj(&r.ev));
        re.push(b.react(&r.ev));
    }
    out.line(json!({"k":"stream","segs":rle(&stream[..total]),"w":w}));
    let mut pos = 0;
    let mut j = 0;
    for c in chunks {
        let end = (pos + c).min(total);
        while pos < end {
            let (r, used) = a.ex.feed(&stream[pos..end]);
            out.line(json!({"k":"feed","n":end-pos,"used":used,"ev":evsj(&r.ev),"panic":r.panic.clone().unwrap_or_default()}));
            if r.panic.is_some() || used == 0 {
                return false;
            }
            if !r.ev.is_empty() {
                if let Some(e) = a.react(&r.ev) {
                    let we = re.get(j).cloned().flatten().unwrap_or_default();
                    out.line(json!({"k":"call","o":"connack","ev":evsj(&e),"wev":evsj(&we),"ob":true}));
                }
            }
            // a packet is complete exactly when the reference has one more ending at this position
            let mut p = 0;
            let mut k = 0;
            while k < n && p + frames[k].len() <= pos + used {
                p += frames[k].len();
                k += 1;
            }
            j = k;
            pos += used;
        }
    }
    true
}
fn both(out: &mut Out, a: &mut Side, b: &mut Side, o: &str, c: Call) {
    let (x, y) = (a.ex.call(&c), b.ex.call(&c));
    let (p, q) = (a.ex.obs(), b.ex.obs());
    out.line(json!({"k":"call","o":o,"ev":evsj(&x.ev),"wev":evsj(&y.ev),"ob":p==q}));
}

fn split(b: &[u8]) -> Vec<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let (mut k, mut n, mut m, mut bad) = (i + 1, 0usize, 1usize, false);
        loop {
            if k - i > 4 {
                bad = true;
                break;
            }
            n += (b[k] & 127) as usize * m;
            m *= 128;
            k += 1;
            if b[k - 1] & 128 == 0 {
                break;
            }
        }
        let e = if bad { i + 5 } else { k + n };
        o.push(b[i..e].to_vec());
        i = e;
    }
    o
}

pub fn replay(text: &str, out: &mut Out) {
    for (i, l) in text.lines().enumerate() {
        let d: Value = serde_json::from_str(l).unwrap();
        let s: Vec<u8> = d["s"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let c: Vec<usize> = d["c"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let frames = split(&s);
        let (role, v) = [('c', 5), ('s', 3), ('c', 3), ('s', 5)][i % 4];
        let mut a = Side::new(role, v, 2, true, true, v);
        let mut b = Side::new(role, v, 2, true, true, v);
        out.line(json!({"k":"new"}));
        if run_stream(out, &mut a, &mut b, &frames, &c, 0) {
            both(out, &mut a, &mut b, "closed", Call::Closed);
        }
    }
}

fn frame(r: &mut Rng, role: char, v: u8, w: usize, big: bool) -> Vec<u8> {
    let id = 1 + r.below(3) as u32;
    let peer: &[&'static str] = if role == 's' {
        &["publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "unsubscribe", "pingreq", "connect", "disconnect"]
    } else {
        &["publish", "puback", "pubrec", "pubrel", "pubcomp", "suback", "unsuback", "pingresp", "connack"]
    };
    match r.below(20) {
        0 => {
            // a length of five bytes, the header arbitrary
            let mut f = vec![r.below(256) as u8];
            f.extend((0..4).map(|_| 128 | r.below(128) as u8));
            f
        }
        1 => {
            // arbitrary packet
            let n = r.below(12);
            let mut f = vec![r.below(256) as u8, n as u8];
            f.extend((0..n).map(|_| r.below(256) as u8));
            f
        }
        2 => {
            // longer encoding of the length than necessary
            let n = r.below(6);
            let mut f = vec![if r.pct(50) { 0x40 } else { 0x30 }];
            let k = 1 + r.below(3);
            f.push(128 | n as u8);
            f.extend(vec![128; k - 1]);
            f.push(0);
            f.extend((0..n).map(|_| r.below(3) as u8));
            f
        }
        3 | 4 | 5 | 6 | 7 => {
            let n = if big { *r.pick(&[118usize, 119, 120, 121, 122, 300, 16370, 16374, 16375, 16376, 16377, 16378, 16380, 20000]) } else { r.below(40) };
            let q = r.below(3) as u8;
            pk::encode(&pubk(v, if q > 0 { id } else { 0 }, q, b"a", vec![r.below(4) as u8; n], vec![]), w)
        }
        8 if big && r.pct(3) => pk::encode(&pubk(v, 0, 0, b"a", vec![7; 2097149 + r.below(6)], vec![]), w),
        9 => vec![if role == 's' { 0xc0 } else { 0xd0 }, 0],
        _ => {
            let k = *r.pick(peer);
            let mut p = sample(v, k, if k == "publish" || k.starts_with("pub") || k.contains("sub") { id } else { 0 })
                .unwrap_or_else(|| ack(v, "puback", id, None));
            if p.k == "publish" && v == 5 && r.pct(40) {
                let a = 1 + r.below(6) as u16;
                p.props = Some(vec![(35, PV::H(a))]);
                if r.pct(50) {
                    p.topic = vec![];
                }
            }
            pk::encode(&p, w)
        }
    }
}

pub fn random(seed: u64, n: usize, out: &mut Out) {
    for t in 0..n {
        let mut r = Rng::new(seed * 1_000_003 + t as u64);
        let role = *r.pick(&['c', 's', 'a', 's']);
        let v = *r.pick(&[3u8, 5]);
        let w = if r.pct(15) { 4 } else { 2 };
        let up = r.pct(75);
        let rv = if role == 's' && !up && r.pct(50) { 0 } else { v };
        let auto = r.pct(60);
        let mut a = Side::new(role, v, w, auto, up, rv);
        let mut b = Side::new(role, v, w, auto, up, rv);
        out.line(json!({"k":"new"}));
        for _ in 0..3 {
            let big = r.pct(25);
            let mut frames = vec![];
            if !up && r.pct(80) && role == 's' {
                frames.push(pk::encode(&a.connect(), w));
            }
            for _ in 0..1 + r.below(7) {
                frames.push(frame(&mut r, role, v, w, big));
            }
            let total: usize = frames.iter().map(|f| f.len()).sum();
            let last = frames.last().unwrap().len();
            let cut = if last > 1 && r.pct(40) { 1 + r.below((last - 1).min(20)) } else { 0 };
            let style = r.below(4);
            let mut chunks = vec![];
            let mut s = 0;
            while s < total {
                let c = match style {
                    0 if total < 500 => 1,
                    1 => total,
                    2 => 1 + r.below(6) + if total > 600 { r.below(total / 8) } else { 0 },
                    _ => 1 + r.below(30) + if total > 600 { r.below(total / 4) } else { 0 },
                };
                chunks.push(c);
                s += c;
            }
            if !run_stream(out, &mut a, &mut b, &frames, &chunks, cut) {
                break;
            }
            both(out, &mut a, &mut b, "closed", Call::Closed);
            if r.pct(70) {
                a.up();
                b.up();
            }
        }
    }
}
