//! Packet codec: records what the real builders, serialisers, parsers and accessors do, for TLC to
//! judge against Codec.tla. Strings and byte strings travel run-length coded.
use crate::pk::*;
use crate::rng::Rng;
use crate::util::{catch, Out};
use mqtt_protocol_core::mqtt::packet::prelude::*;
use mqtt_protocol_core::mqtt::packet::*;
use serde_json::{json, Value};
use std::collections::HashMap;

// ---------------------------------------------------------------- JSON of a packet
fn half(x: u32) -> Value {
    json!([x >> 16, x & 0xffff])
}
fn unhalf(v: &Value) -> u32 {
    ((v[0].as_u64().unwrap() as u32) << 16) | v[1].as_u64().unwrap() as u32
}
pub fn unrle(v: &Value) -> Vec<u8> {
    let mut o = vec![];
    for r in v.as_array().unwrap() {
        let n = r[1].as_u64().unwrap() as usize;
        o.resize(o.len() + n, r[0].as_u64().unwrap() as u8);
    }
    o
}
fn jprops(p: &Props) -> Value {
    Value::Array(
        p.iter()
            .map(|(i, v)| {
                let (n, a, b): (u32, &[u8], &[u8]) = match v {
                    PV::B(x) => (*x as u32, &[], &[]),
                    PV::H(x) => (*x as u32, &[], &[]),
                    PV::W(x) | PV::V(x) => (*x, &[], &[]),
                    PV::S(x) | PV::D(x) => (0, x, &[]),
                    PV::P(x, y) => (0, x, y),
                };
                json!({"i": i, "n": half(n), "a": rle(a), "b": rle(b)})
            })
            .collect(),
    )
}
fn unprops(v: &Value) -> Props {
    v.as_array()
        .unwrap()
        .iter()
        .map(|p| {
            let i = p["i"].as_u64().unwrap() as u8;
            let n = unhalf(&p["n"]);
            (
                i,
                match cat(i).unwrap() {
                    'b' => PV::B(n as u8),
                    'h' => PV::H(n as u16),
                    'w' => PV::W(n),
                    'v' => PV::V(n),
                    's' => PV::S(unrle(&p["a"])),
                    'd' => PV::D(unrle(&p["a"])),
                    _ => PV::P(unrle(&p["a"]), unrle(&p["b"])),
                },
            )
        })
        .collect()
}
fn opt(x: &Option<Vec<u8>>) -> Value {
    match x {
        None => json!([]),
        Some(b) => json!([rle(b)]),
    }
}
fn unopt(v: &Value) -> Option<Vec<u8>> {
    v.as_array().unwrap().first().map(unrle)
}
pub fn to_json(p: &Pk) -> Value {
    json!({
        "v": p.v, "k": p.k, "id": half(p.id), "qos": p.qos, "dup": p.dup, "retain": p.retain, "topic": rle(&p.topic),
        "payload": rle(&p.payload), "hp": p.props.is_some(), "props": p.props.as_ref().map(jprops).unwrap_or(json!([])),
        "rc": p.rc.map(|x| x as i32).unwrap_or(-1), "sp": p.sp, "clean": p.clean, "ka": p.ka, "cid": rle(&p.cid),
        "will": match &p.will { None => json!([]), Some(w) => json!([{"topic": rle(&w.topic), "payload": rle(&w.payload),
            "qos": w.qos, "retain": w.retain, "props": jprops(&w.props)}]) },
        "user": opt(&p.user), "pass": opt(&p.pass),
        "subs": p.subs.iter().map(|(t, o)| json!([rle(t), o])).collect::<Vec<_>>(),
        "topics": p.topics.iter().map(|t| rle(t)).collect::<Vec<_>>(), "rcs": p.rcs,
    })
}
pub fn from_json(v: &Value) -> Pk {
    let u = |k: &str| v[k].as_i64().unwrap();
    let b = |k: &str| v[k].as_bool().unwrap();
    let a = |k: &str| v[k].as_array().unwrap();
    Pk {
        v: u("v") as u8,
        k: KINDS.iter().find(|k| **k == v["k"].as_str().unwrap()).unwrap(),
        id: unhalf(&v["id"]),
        qos: u("qos") as u8,
        dup: b("dup"),
        retain: b("retain"),
        topic: unrle(&v["topic"]),
        payload: unrle(&v["payload"]),
        props: if b("hp") { Some(unprops(&v["props"])) } else { None },
        rc: if u("rc") < 0 { None } else { Some(u("rc") as u8) },
        sp: b("sp"),
        clean: b("clean"),
        ka: u("ka") as u16,
        cid: unrle(&v["cid"]),
        will: a("will").first().map(|w| Will {
            topic: unrle(&w["topic"]),
            payload: unrle(&w["payload"]),
            qos: w["qos"].as_u64().unwrap() as u8,
            retain: w["retain"].as_bool().unwrap(),
            props: unprops(&w["props"]),
        }),
        user: unopt(&v["user"]),
        pass: unopt(&v["pass"]),
        subs: a("subs").iter().map(|s| (unrle(&s[0]), s[1].as_u64().unwrap() as u8)).collect(),
        topics: a("topics").iter().map(unrle).collect(),
        rcs: a("rcs").iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        xt: false,
    }
}

// ---------------------------------------------------------------- observations of the real code
/// contiguous bytes, vectored == contiguous, reported size, Remaining Length consistent for the harness's own split
fn ser<P: Pid>(g: &GenericPacket<P>) -> (Vec<u8>, bool, usize)
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    let c = g.to_continuous_buffer();
    let mut v = Vec::with_capacity(c.len());
    for s in g.to_buffers() {
        v.extend_from_slice(&s);
    }
    let ok = v == c;
    (c, ok, g.size())
}
/// offset of the body: after the first byte with the top bit clear
fn split(b: &[u8]) -> usize {
    let mut i = 1;
    while i < b.len() && i < 5 {
        i += 1;
        if b[i - 1] & 0x80 == 0 {
            break;
        }
    }
    i
}
fn build_any<P: Pid>(p: &Pk, noise: Option<u64>) -> Result<GenericPacket<P>, String>
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    match noise {
        None => build::<P>(p),
        Some(s) => crate::noisy::build::<P>(p, s),
    }
}
fn nopk() -> Value {
    to_json(&Pk { v: 5, k: "pingreq", ..Default::default() })
}
const RAW: usize = 400;
pub fn rec_build_w<P: Pid>(p: &Pk, noise: Option<u64>, tag: &str) -> Value
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    let mut o = json!({"k": "build", "tag": tag, "w": P::W, "d": to_json(p), "noise": noise.unwrap_or(0), "panic": "", "err": "",
        "ok": false, "bytes": [], "vec": true, "size": 0, "pok": false, "perr": "", "pd": nopk(), "pused": 0, "peq": false,
        "ref": [], "rok": false, "rerr": ""});
    let r = catch(|| build_any::<P>(p, noise));
    match r {
        Err(m) => {
            o["panic"] = json!(format!("build: {m}"));
        }
        Ok(Err(e)) => o["err"] = json!(e),
        Ok(Ok(g)) => {
            o["ok"] = json!(true);
            let r = catch(|| ser(&g));
            match r {
                Err(m) => o["panic"] = json!(format!("serialise: {m}")),
                Ok((b, vec, size)) => {
                    o["bytes"] = rle(&b);
                    o["vec"] = json!(vec);
                    o["size"] = json!(size);
                    let i = split(&b);
                    match catch(|| crate::pk::parse::<P>(p.v, b[0], &b[i..]).map(|(q, n)| (to_json(&describe(&q)), q == g, n))) {
                        Err(m) => o["panic"] = json!(format!("parse: {m}")),
                        Ok(Err(e)) => o["perr"] = json!(e),
                        Ok(Ok((d, eq, n))) => {
                            o["pok"] = json!(true);
                            o["pd"] = d;
                            o["peq"] = json!(eq);
                            o["pused"] = json!(n);
                        }
                    }
                }
            }
        }
    }
    // what the parser makes of the reference encoding of the same field values
    let (h, b) = encode_body(p, P::W);
    let mut full = vec![h];
    full.extend(vbi(b.len()));
    full.extend(&b);
    o["ref"] = rle(&full);
    match catch(|| crate::pk::parse::<P>(p.v, h, &b)) {
        Err(m) => o["panic"] = json!(format!("parse: {m}")),
        Ok(Err(e)) => o["rerr"] = json!(e),
        Ok(Ok(_)) => o["rok"] = json!(true),
    }
    o
}
/// a built PUBLISH after one of its own modifiers, and the store's view of it
pub fn rec_edit<P: Pid>(p: &Pk, op: &str, t: &[u8], n: u16) -> Option<Value>
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    let g = catch(|| build::<P>(p)).ok()?.ok()?;
    let mut o = json!({"k": "edit", "w": P::W, "d": to_json(p), "op": op, "t": rle(t), "n": n, "panic": "", "ok": false, "err": "",
        "bytes": [], "vec": true, "size": 0, "desc": nopk(), "pok": false, "pd": nopk(), "pused": 0, "store": true});
    let topic = String::from_utf8(t.to_vec()).ok()?;
    let r = catch(|| -> Result<_, String> {
        let e = |x: mqtt_protocol_core::mqtt::result_code::MqttError| format!("{x:?}");
        let h: GenericPacket<P> = match g {
            GenericPacket::V3_1_1Publish(x) => x.set_dup(n == 1).into(),
            GenericPacket::V5_0Publish(x) => match op {
                "dup" => x.set_dup(n == 1),
                "ratat" => x.remove_topic_alias_add_topic(topic).map_err(e)?,
                "rta" => x.remove_topic_alias(),
                "aet" => x.add_extracted_topic_name(&topic).map_err(e)?,
                "rtata" => x.remove_topic_add_topic_alias(n),
                _ => x.add_topic_alias(n),
            }
            .into(),
            x => x,
        };
        let (b, vec, size) = ser(&h);
        let st: Option<GenericStorePacket<P>> = match h.clone() {
            GenericPacket::V3_1_1Publish(x) => x.try_into().ok(),
            GenericPacket::V5_0Publish(x) => x.try_into().ok(),
            _ => None,
        };
        let store = match &st {
            None => p.qos == 0,
            Some(s) => {
                let mut v = vec![];
                for x in s.to_buffers() {
                    v.extend_from_slice(&x);
                }
                p.qos > 0 && s.size() == size && s.to_continuous_buffer() == b && v == b && s.packet_id() == P::of(p.id)
                    && GenericPacket::from(s.clone()) == h
            }
        };
        let i = split(&b);
        let again = crate::pk::parse::<P>(p.v, b[0], &b[i..]).map(|(q, n)| (to_json(&describe(&q)), n));
        Ok((b, vec, size, to_json(&describe(&h)), store, again))
    });
    match r {
        Err(m) => o["panic"] = json!(m),
        Ok(Err(e)) => o["err"] = json!(e),
        Ok(Ok((b, vec, size, d, store, again))) => {
            o["ok"] = json!(true);
            o["bytes"] = rle(&b);
            o["vec"] = json!(vec);
            o["size"] = json!(size);
            o["desc"] = d;
            o["store"] = json!(store);
            if let Ok((pd, n)) = again {
                o["pok"] = json!(true);
                o["pd"] = pd;
                o["pused"] = json!(n);
            }
        }
    }
    Some(o)
}
pub struct Parsed {
    pub v: Value,
    pub ok: bool,
    pub odd: bool,
}
pub fn rec_parse_w<P: Pid>(v: u8, h: u8, body: &[u8], tag: &str) -> Parsed
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    let mut o = json!({"k": "parse", "tag": tag, "w": P::W, "v": v, "h": h, "body": rle(body), "len": body.len(),
        "raw": if body.len() <= RAW { json!(body) } else { json!([]) }, "panic": "", "ok": false, "err": "", "d": nopk(), "used": 0,
        "size": 0, "ser": [], "vec": true, "rok": false, "req": false, "bok": false, "berr": "", "beq": false});
    let r = catch(|| crate::pk::parse::<P>(v, h, body));
    let (mut ok, mut odd) = (false, false);
    match r {
        Err(m) => {
            o["panic"] = json!(format!("parse: {m}"));
            odd = true;
        }
        Ok(Err(e)) => o["err"] = json!(e),
        Ok(Ok((g, n))) => {
            ok = true;
            let r = catch(|| {
                let d = describe(&g);
                let (b, vec, size) = ser(&g);
                let i = split(&b);
                let again = crate::pk::parse::<P>(v, b[0], &b[i..]);
                let (rok, req) = match &again {
                    Ok((q, _)) => (true, *q == g),
                    Err(_) => (false, false),
                };
                let (bok, beq, berr) = match build::<P>(&d) {
                    Ok(q) => (true, q == g, String::new()),
                    Err(e) => (false, false, e),
                };
                (d, b, vec, size, rok, req, bok, beq, berr)
            });
            match r {
                Err(m) => {
                    o["panic"] = json!(format!("accepted packet: {m}"));
                    odd = true;
                }
                Ok((d, b, vec, size, rok, req, bok, beq, berr)) => {
                    odd = n > body.len() || !vec || size != b.len() || !rok || !req || !bok || !beq;
                    o["ok"] = json!(true);
                    o["used"] = json!(n);
                    o["d"] = to_json(&d);
                    o["ser"] = rle(&b);
                    o["vec"] = json!(vec);
                    o["size"] = json!(size);
                    o["rok"] = json!(rok);
                    o["req"] = json!(req);
                    o["bok"] = json!(bok);
                    o["beq"] = json!(beq);
                    o["berr"] = json!(berr);
                }
            }
        }
    }
    Parsed { v: o, ok, odd }
}
pub fn rec_build(w: usize, p: &Pk, noise: Option<u64>, tag: &str) -> Value {
    if w == 2 {
        rec_build_w::<u16>(p, noise, tag)
    } else {
        rec_build_w::<u32>(p, noise, tag)
    }
}
pub fn rec_parse(w: usize, v: u8, h: u8, b: &[u8], tag: &str) -> Parsed {
    if w == 2 {
        rec_parse_w::<u16>(v, h, b, tag)
    } else {
        rec_parse_w::<u32>(v, h, b, tag)
    }
}

// ---------------------------------------------------------------- vectors from TLC
/// one JSON object per line: {"m":"b","w":..,"d":..} or {"m":"p","w":..,"v":..,"h":..,"body":RLE}
pub fn replay(input: &str, out: &mut Out) {
    for l in input.lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let w = v["w"].as_u64().unwrap() as usize;
        let tag = v["tag"].as_str().unwrap_or("").to_string();
        if v["m"] == "b" {
            let p = from_json(&v["d"]);
            out.line(rec_build(w, &p, None, &tag));
        } else {
            out.line(rec_parse(w, v["v"].as_u64().unwrap() as u8, v["h"].as_u64().unwrap() as u8, &unrle(&v["body"]), &tag).v);
        }
    }
}

// ---------------------------------------------------------------- random packets
pub const PROP_IDS: [u8; 27] = [
    1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
];
/// where the generator likes to put properties (the judge has its own table)
fn likely(k: &str) -> &'static [u8] {
    match k {
        "connect" => &[17, 21, 22, 23, 25, 33, 34, 38, 39],
        "connack" => &[17, 18, 19, 21, 22, 26, 28, 31, 33, 34, 36, 37, 38, 39, 40, 41, 42],
        "publish" => &[1, 2, 3, 8, 9, 11, 11, 35, 38, 38],
        "will" => &[1, 2, 3, 8, 9, 24, 38],
        "subscribe" => &[11, 38],
        "unsubscribe" => &[38],
        "disconnect" => &[17, 28, 31, 38],
        "auth" => &[21, 21, 22, 31, 38],
        _ => &[31, 38],
    }
}
const CHARS: [&str; 14] = ["a", "b", "/", "x", "é", "水", "𝄞", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}", "$"];
fn string(r: &mut Rng, big: bool) -> Vec<u8> {
    let x = r.below(100);
    if x < 8 {
        return vec![];
    }
    if big && x < 16 {
        let n = *r.pick(&[12, 13, 15, 16, 23, 24, 25, 31, 32, 47, 48, 49, 127, 128, 255, 256, 300, 1000, 65533, 65534, 65535]);
        return vec![b'q'; n];
    }
    let n = if x < 30 { r.below(60) } else { r.below(6) };
    let mut o = String::new();
    for _ in 0..=n {
        o.push_str(r.pick(&CHARS[..]));
    }
    o.into_bytes()
}
fn blob(r: &mut Rng, big: bool) -> Vec<u8> {
    let x = r.below(100);
    if x < 10 {
        return vec![];
    }
    if big && x < 18 {
        let n = *r.pick(&[11, 12, 13, 14, 15, 16, 23, 24, 25, 31, 32, 47, 48, 127, 128, 255, 256, 1000, 65534, 65535]);
        return vec![0u8; n];
    }
    (0..r.below(8)).map(|_| *r.pick(&[0, 1, b'a', 127, 128, 255])).collect()
}
fn word(r: &mut Rng) -> u32 {
    *r.pick(&[0, 1, 2, 127, 128, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff])
}
pub fn pval(r: &mut Rng, id: u8, big: bool) -> PV {
    match cat(id).unwrap() {
        'b' => PV::B(if r.pct(4) { *r.pick(&[2, 255]) } else { r.below(2) as u8 }),
        'h' => PV::H(if r.pct(4) { 0 } else { *r.pick(&[1, 2, 255, 256, 65535]) }),
        'w' => {
            let x = word(r);
            PV::W(if id == 39 && x == 0 && !r.pct(20) { 1 } else { x })
        }
        'v' => PV::V(if r.pct(4) { 0 } else { *r.pick(&[1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455]) }),
        's' => PV::S(string(r, big)),
        'd' => PV::D(blob(r, big)),
        _ => PV::P(string(r, big), string(r, false)),
    }
}
fn gprops(r: &mut Rng, k: &str, big: bool) -> Props {
    let n = match r.below(10) {
        0..=3 => 0,
        4..=6 => 1,
        7 | 8 => 2 + r.below(2),
        _ => r.below(9),
    };
    let mut o: Props = vec![];
    for _ in 0..n {
        let id = if r.pct(3) { *r.pick(&PROP_IDS[..]) } else { *r.pick(likely(k)) };
        if id != 38 && id != 11 && o.iter().any(|(i, _)| *i == id) && !r.pct(5) {
            continue;
        }
        if id == 22 && !o.iter().any(|(i, _)| *i == 21) && !r.pct(10) {
            o.push((21, PV::S(b"m".to_vec())));
        }
        let v = pval(r, id, big);
        o.push((id, v));
    }
    if r.pct(3) {
        // property length at a boundary of the variable byte integer
        let n = *r.pick(&[127usize, 128, 16383, 16384]);
        o.push((38, PV::P(vec![b'k'], vec![b'v'; n - 6])));
    }
    o
}
fn code(r: &mut Rng, t: &[u8]) -> u8 {
    if r.pct(3) {
        r.below(256) as u8
    } else {
        *r.pick(t)
    }
}
pub const RC_CONNACK: [u8; 22] = [
    0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F,
];
pub const RC_ACK: [u8; 9] = [0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99];
pub const RC_SUB: [u8; 12] = [0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2];
pub const RC_UNSUB: [u8; 7] = [0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91];
pub const RC_DISC: [u8; 29] = [
    0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C,
    0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2,
];
fn filter(r: &mut Rng) -> Vec<u8> {
    if r.pct(10) {
        return r.pick(&["$share/g/t", "$share/g/#", "$share//t", "$share/g", "$share/+/t", "$share/", "$share", "$sharex", "#", "+", "a/+/#"]).as_bytes().to_vec();
    }
    let s = string(r, false);
    if s.is_empty() && !r.pct(10) {
        b"t".to_vec()
    } else {
        s
    }
}
pub fn random(r: &mut Rng, w: usize, big: bool) -> Pk {
    let v = if r.pct(60) { 5 } else { 3 };
    let k = KINDS[r.below(if v == 5 { 15 } else { 14 })];
    let mut p = Pk { v, k, ..Default::default() };
    p.id = if r.pct(2) {
        0
    } else if w == 2 {
        *r.pick(&[1, 2, 127, 128, 255, 256, 32767, 32768, 65534, 65535])
    } else {
        *r.pick(&[1, 2, 255, 256, 65535, 65536, 0x10000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304])
    };
    let prs = |r: &mut Rng| if v == 5 { Some(gprops(r, k, big)) } else { None };
    match k {
        "connect" => {
            p.id = 0;
            p.clean = r.pct(50);
            p.ka = *r.pick(&[0, 1, 255, 256, 65535]);
            p.cid = string(r, big);
            p.props = prs(r);
            if r.pct(50) {
                p.will = Some(Will {
                    topic: string(r, big),
                    payload: blob(r, big),
                    qos: if r.pct(3) { 3 } else { r.below(3) as u8 },
                    retain: r.pct(50),
                    props: if v == 5 { gprops(r, "will", big) } else { vec![] },
                });
            }
            if r.pct(50) {
                p.user = Some(string(r, big));
            }
            if (p.user.is_some() && r.pct(60)) || r.pct(5) {
                p.pass = Some(blob(r, big));
            }
        }
        "connack" => {
            p.id = 0;
            p.sp = r.pct(50);
            p.rc = Some(if v == 5 { code(r, &RC_CONNACK) } else { code(r, &[0, 1, 2, 3, 4, 5]) });
            p.props = prs(r);
        }
        "publish" => {
            p.qos = if r.pct(2) { 3 } else { r.below(3) as u8 };
            p.dup = p.qos > 0 && r.pct(50);
            p.retain = r.pct(50);
            if p.qos == 0 && !r.pct(3) {
                p.id = 0;
            }
            p.topic = string(r, big);
            if r.pct(3) {
                p.topic = r.pick(&["#", "+", "a/+", "a\0b"]).as_bytes().to_vec();
            }
            p.props = prs(r);
            p.payload = blob(r, big);
            if big && r.pct(10) {
                // Remaining Length at a boundary of the variable byte integer
                let (_, b) = encode_body(&Pk { payload: vec![], ..p.clone() }, w);
                let n = *r.pick(&[127usize, 128, 16383, 16384, 2097151, 2097152]);
                p.payload = vec![b'p'; n.saturating_sub(b.len())];
            }
        }
        "puback" | "pubrec" | "pubrel" | "pubcomp" => {
            if v == 5 && r.pct(70) {
                p.rc = Some(if k == "pubrel" || k == "pubcomp" { code(r, &[0, 0x92]) } else { code(r, &RC_ACK) });
                if r.pct(60) {
                    p.props = prs(r);
                }
            }
        }
        "subscribe" => {
            p.props = prs(r);
            for _ in 0..(if r.pct(3) { 0 } else { 1 + r.below(4) }) {
                let t = filter(r);
                let o = if v == 3 {
                    r.below(3) as u8
                } else if r.pct(5) {
                    r.below(256) as u8
                } else {
                    r.below(3) as u8 | (r.below(4) as u8) << 2 | (r.below(3) as u8) << 4
                };
                p.subs.push((t, o));
            }
        }
        "unsubscribe" => {
            p.props = prs(r);
            for _ in 0..(if r.pct(3) { 0 } else { 1 + r.below(4) }) {
                let t = filter(r);
                p.topics.push(t);
            }
        }
        "suback" => {
            p.props = prs(r);
            for _ in 0..(if r.pct(3) { 0 } else { 1 + r.below(4) }) {
                p.rcs.push(if v == 5 { code(r, &RC_SUB) } else { code(r, &[0, 1, 2, 0x80]) });
            }
        }
        "unsuback" => {
            p.props = prs(r);
            if v == 5 {
                for _ in 0..(if r.pct(3) { 0 } else { 1 + r.below(4) }) {
                    p.rcs.push(code(r, &RC_UNSUB));
                }
            }
        }
        "disconnect" | "auth" => {
            p.id = 0;
            if v == 5 && r.pct(75) {
                p.rc = Some(if k == "auth" { code(r, &[0, 0x18, 0x19]) } else { code(r, &RC_DISC) });
                if r.pct(70) {
                    p.props = prs(r);
                }
                if k == "auth" && !r.pct(10) && p.props.as_ref().map(|x| !x.iter().any(|(i, _)| *i == 21)).unwrap_or(true) {
                    p.props.get_or_insert(vec![]).insert(0, (21, PV::S(b"m".to_vec())));
                }
            }
        }
        _ => p.id = 0,
    }
    p
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    let hot: [u8; 20] = [0, 1, 2, 3, 4, 5, 0x0b, 0x11, 0x1f, 0x21, 0x22, 0x23, 0x26, 0x27, 0x7f, 0x80, 0x81, 0xff, b'#', 0xc0];
    for _ in 0..1 + r.below(3) {
        let n = b.len();
        match r.below(8) {
            0 if n > 0 => b.truncate(r.below(n)),
            1 => b.push(*r.pick(&hot)),
            2 if n > 0 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            3 if n > 0 => {
                let i = r.below(n);
                b[i] = *r.pick(&hot);
            }
            4 if n > 0 => {
                let i = r.below(n);
                b.remove(i);
            }
            5 => {
                let i = r.below(n + 1);
                b.insert(i, *r.pick(&hot));
            }
            6 if n > 1 => {
                let i = r.below(n - 1);
                let m = 1 + r.below((n - i).min(8));
                let s: Vec<u8> = b[i..i + m].to_vec();
                let j = r.below(n + 1);
                for (q, x) in s.into_iter().enumerate() {
                    b.insert((j + q).min(b.len()), x);
                }
            }
            _ if n > 0 => {
                let i = r.below(n.min(12));
                b[i] = b[i].wrapping_add(*r.pick(&[1, 255]));
            }
            _ => {}
        }
    }
}
/// random packets: built, and their reference encodings damaged and parsed
pub fn rand(seed: u64, n: usize, mode: &str, out: &mut Out) {
    let mut r = Rng::new(seed);
    let mut per: HashMap<(u8, u8, bool), usize> = HashMap::new();
    let mut i = 0;
    while i < n {
        let w = if r.pct(70) { 2 } else { 4 };
        let big = r.pct(25);
        let p = random(&mut r, w, big);
        if mode == "build" {
            let noise = if r.pct(50) { Some(1 + (r.next() >> 33)) } else { None };
            out.line(rec_build(w, &p, noise, "rand"));
            i += 1;
            if p.k == "publish" {
                let op = if p.v == 3 { "dup" } else { *r.pick(&["dup", "ratat", "ratat", "rta", "aet", "rtata", "rtata", "ata", "ata"]) };
                let t = r.pick(&["t", "topic/é", "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t", "x#", "+"]).as_bytes().to_vec();
                let n = if op == "dup" { r.below(2) as u16 } else { *r.pick(&[1u16, 2, 255, 256, 65535]) };
                let mut q = p.clone();
                if p.v == 5 && matches!(op, "ratat" | "aet") && !r.pct(15) {
                    q.topic = vec![];
                    let ps = q.props.get_or_insert(vec![]);
                    if !ps.iter().any(|(i, _)| *i == 35) {
                        let j = r.below(ps.len() + 1);
                        ps.insert(j, (35, PV::H(7)));
                    }
                }
                let e = if w == 2 { rec_edit::<u16>(&q, op, &t, n) } else { rec_edit::<u32>(&q, op, &t, n) };
                if let Some(e) = e {
                    out.line(e);
                    i += 1;
                }
            }
        } else {
            let (mut h, mut b) = encode_body(&p, w);
            if b.len() > 3000 {
                continue;
            }
            if r.pct(95) {
                mutate(&mut r, &mut b);
            }
            if r.pct(10) && p.k == "publish" {
                h = (h & 0xf0) | r.below(16) as u8;
            }
            let x = rec_parse(w, p.v, h, &b, "mut");
            // rejected inputs dominate: keep a share of them
            let c = per.entry((p.v, h >> 4, x.ok)).or_insert(0);
            *c += 1;
            if x.odd || x.ok || *c % 3 == 0 {
                out.line(x.v);
                i += 1;
            }
        }
    }
}

// ---------------------------------------------------------------- exhaustive short bodies
/// every body over `alpha` up to length `max` for one packet header; emits every suspicious parse and a sample of the
/// others. The summary line carries the number parsed and accepted.
pub fn exhaust(v: u8, h: u8, w: usize, prefix: &[u8], alpha: &[u8], max: usize, keep: usize, seed: u64, out: &mut Out) -> (u64, u64) {
    let (mut n, mut acc) = (0u64, 0u64);
    let mut r = Rng::new(seed);
    let mut kept = 0;
    let mut idx = vec![];
    loop {
        let mut b = prefix.to_vec();
        b.extend(idx.iter().map(|i: &usize| alpha[*i]));
        n += 1;
        // first only decide acceptance, cheaply
        let q = if w == 2 { quick::<u16>(v, h, &b) } else { quick::<u32>(v, h, &b) };
        if q != 0 {
            acc += (q == 1) as u64;
            let s = q == 2 || (kept < keep && r.below(1 + kept / 8) == 0);
            if s || q == 1 {
                let x = rec_parse(w, v, h, &b, "ex");
                if x.odd || s {
                    kept += 1;
                    out.line(x.v);
                }
            }
        }
        // next string in length-lexicographic order
        let mut j = idx.len();
        loop {
            if j == 0 {
                idx.insert(0, 0);
                for x in idx.iter_mut() {
                    *x = 0;
                }
                break;
            }
            j -= 1;
            idx[j] += 1;
            if idx[j] < alpha.len() {
                break;
            }
            idx[j] = 0;
        }
        if idx.len() > max {
            break;
        }
    }
    (n, acc)
}
/// 0 rejected, 1 accepted, 2 panic
fn quick<P: Pid>(v: u8, h: u8, b: &[u8]) -> u8
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    match catch(|| crate::pk::parse::<P>(v, h, b).is_ok()) {
        Err(_) => 2,
        Ok(true) => 1,
        Ok(false) => 0,
    }
}
/// shard s of n: all kinds and versions
pub fn exhaust_all(s: usize, n: usize, deep: bool, seed: u64, out: &mut Out) {
    let all: Vec<u8> = (0..=255).collect();
    // bytes that mean something somewhere: lengths, property ids, flags, UTF-8 lead/continuation bytes, wildcards
    let hot: Vec<u8> = vec![0, 1, 2, 3, 4, 5, 11, 31, 33, 35, 38, b'a', b'+', 0x7f, 0x80, 0x92, 0xc2, 0xff];
    let hot5: Vec<u8> = vec![0, 1, 2, 3, 35, 38, b'a', 0x80, 0xff];
    let mut job = 0;
    let (mut tot, mut acc) = (0, 0);
    for v in [3u8, 5] {
        for t in 1..=15u8 {
            if v == 3 && t == 15 {
                continue;
            }
            let fl: Vec<u8> = if t == 3 { (0..16).collect() } else { vec![0] };
            for f in fl {
                for w in [2usize, 4] {
                    if w == 4 && (t == 1 || t == 2 || t >= 12) {
                        continue;
                    }
                    job += 1;
                    if job % n != s {
                        continue;
                    }
                    let h = t << 4 | f;
                    let mut go = |prefix: &[u8], a: &[u8], m: usize| {
                        let (x, y) = exhaust(v, h, w, prefix, a, m, 40, seed + job as u64, out);
                        tot += x;
                        acc += y;
                    };
                    go(&[], &all, 2);
                    go(&[], &hot, if deep { 5 } else { 4 });
                    go(&[], &hot5, if deep { 7 } else { 5 });
                    if t == 1 {
                        // everything that can follow a valid protocol name
                        let l = if v == 3 { 4 } else { 5 };
                        let pre = [0, 4, b'M', b'Q', b'T', b'T', l];
                        go(&pre, &all, 1);
                        go(&pre, &hot, if deep { 5 } else { 4 });
                        for fl in 0..=255u8 {
                            // all flags with a tail that satisfies every combination
                            let mut p = pre.to_vec();
                            p.extend([fl, 0, 10]);
                            go(&p, &hot5, if deep { 5 } else { 4 });
                            if v == 5 {
                                p.push(0);
                            }
                            p.extend([0, 1, b'c']);
                            if v == 5 {
                                p.push(0);
                            }
                            p.extend([0, 1, b't', 0, 1, b'm', 0, 1, b'u', 0, 1, b'p']);
                            go(&p, &hot5, 1);
                            if v == 5 {
                                p.remove(pre.len() + 7);
                                go(&p, &hot5, 1);
                            }
                        }
                    } else {
                        // one valid property of each kind, then anything
                        for id in 0..=50u8 {
                            let head: Vec<u8> = match t {
                                2 => vec![0, 0],
                                3 => {
                                    let mut x = vec![0, 1, b't'];
                                    if f & 6 != 0 {
                                        x.extend(if w == 2 { vec![0, 1] } else { vec![0, 0, 0, 1] });
                                    }
                                    x
                                }
                                14 | 15 => vec![0],
                                4..=7 => {
                                    let mut x = if w == 2 { vec![0, 1] } else { vec![0, 0, 0, 1] };
                                    x.push(0);
                                    x
                                }
                                _ => {
                                    if w == 2 {
                                        vec![0, 1]
                                    } else {
                                        vec![0, 0, 0, 1]
                                    }
                                }
                            };
                            if v == 3 {
                                if id == 0 {
                                    go(&head, &hot, if deep { 5 } else { 4 });
                                }
                                continue;
                            }
                            for plen in 1..=6u8 {
                                let mut p = head.clone();
                                p.extend([plen, id]);
                                go(&p, &hot5, if deep { 5 } else { 4 });
                            }
                        }
                    }
                }
            }
        }
    }
    out.line(json!({"k": "sum", "parsed": tot, "accepted": acc}));
}

// ---------------------------------------------------------------- acceptance sets
/// every body `prefix` + string over `alpha` up to `len`: which ones the parser takes (and writes back unchanged)
fn set_of<P: Pid>(v: u8, h: u8, prefix: &[u8], alpha: &[u8], len: usize, suffix: &[u8], out: &mut Out)
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    let (mut same, mut other, mut panics) = (vec![], vec![], vec![]);
    let mut idx: Vec<usize> = vec![];
    loop {
        let mut b = prefix.to_vec();
        b.extend(idx.iter().map(|i| alpha[*i]));
        b.extend(suffix);
        match catch(|| crate::pk::parse::<P>(v, h, &b).ok().map(|(g, _)| g.to_continuous_buffer())) {
            Err(_) => panics.push(b),
            Ok(None) => {}
            Ok(Some(s)) => {
                let mut w = vec![h];
                w.extend(vbi(b.len()));
                w.extend(&b);
                if s == w {
                    same.push(b)
                } else {
                    other.push(b)
                }
            }
        }
        let mut j = idx.len();
        loop {
            if j == 0 {
                idx.insert(0, 0);
                break;
            }
            j -= 1;
            idx[j] += 1;
            if idx[j] < alpha.len() {
                break;
            }
            idx[j] = 0;
        }
        if idx.len() > len {
            break;
        }
    }
    out.line(json!({"k": "set", "v": v, "h": h, "w": P::W, "prefix": prefix, "alpha": alpha, "len": len, "suffix": suffix, "same": same, "other": other, "panics": panics}));
}
type Go<'a> = &'a mut dyn FnMut(u8, u8, usize, &[u8], &[u8], usize, &[u8]);
/// everything that can follow a property length and an identifier
fn props(go: Go, v: u8, h: u8, w: usize, q: &[u8], l: u8, suffix: &[u8], x: usize) {
    let l = l as usize;
    if l <= 4 {
        go(v, h, w, q, &[0, 1, 2, 97], l + x, suffix)
    } else {
        go(v, h, w, q, &[0, 1, 97], l + x, suffix)
    }
}
pub fn sets(s: usize, n: usize, deep: bool, out: &mut Out) {
    let mut job = 0;
    let mut go5 = |v: u8, h: u8, w: usize, prefix: &[u8], alpha: &[u8], len: usize, suffix: &[u8]| {
        job += 1;
        if job % n == s {
            if w == 2 {
                set_of::<u16>(v, h, prefix, alpha, len, suffix, out)
            } else {
                set_of::<u32>(v, h, prefix, alpha, len, suffix, out)
            }
        }
    };
    let ids: Vec<u8> = PROP_IDS.iter().copied().chain([0, 4, 10, 43, 127]).collect();
    let all: Vec<u8> = (0..=255).collect();
    let small = [0u8, 1, 2, 3, 35, 38, 128];
    let x = deep as usize;
    for v in [3u8, 5] {
        for t in 1..=15u8 {
            if v == 3 && t == 15 {
                continue;
            }
            let fl: Vec<u8> = match t {
                3 => (0..16).collect(),
                6 | 8 | 10 => vec![2],
                _ => vec![0],
            };
            for f in fl {
                for w in [2usize, 4] {
                    let no_id = matches!(t, 1 | 2 | 12..=15) || (t == 3 && f & 6 == 0);
                    if w == 4 && no_id {
                        continue;
                    }
                    let h = t << 4 | f;
                    let id: Vec<u8> = if no_id { vec![] } else if w == 2 { vec![1, 0] } else { vec![0, 1, 0, 0] };
                    go5(v, h, w, &[], &all, 1, &[]);
                    go5(v, h, w, &[], &small, 4 + x, &[]);
                    if t == 1 {
                        let mut p = vec![0, 4, b'M', b'Q', b'T', b'T', if v == 3 { 4 } else { 5 }];
                        go5(v, h, w, &p, &all, 1, &[]);
                        p.push(0);
                        let flags = p.len() - 1;
                        p.extend([0, 9]);
                        if v == 5 {
                            p.push(0);
                        }
                        p.extend([0, 1, b'c']);
                        for cf in 0..=255u8 {
                            let mut q = p.clone();
                            q[flags] = cf;
                            if v == 5 && cf & 4 != 0 {
                                q.push(0);
                            }
                            go5(v, h, w, &q, &[0, 1, 97], if cf & 0xc4 == 0xc4 { 6 + x } else { 4 + x }, &[]);
                        }
                        if v == 5 {
                            // a property of CONNECT, then of the will
                            for id in &ids {
                                for l in 1..=6u8 {
                                    let mut q = p[..flags].to_vec();
                                    q.extend([2, 0, 9, l, *id]);
                                    props(&mut go5, v, h, w, &q, l, &[0, 1, b'c'], x);
                                    let mut q = p.clone();
                                    q[flags] = 6;
                                    q.extend([l, *id]);
                                    props(&mut go5, v, h, w, &q, l, &[0, 1, b't', 0, 1, b'm'], x);
                                }
                            }
                        }
                        continue;
                    }
                    let mut p: Vec<u8> = match t {
                        2 => vec![0],
                        3 => [&[0, 1, b't'][..], &id[..]].concat(),
                        _ => id.clone(),
                    };
                    go5(v, h, w, &p, &all, 1, &[]);
                    go5(v, h, w, &p, &small, 4 + x, &[]);
                    if matches!(t, 2 | 4..=7 | 14 | 15) {
                        p.push(0);
                        go5(v, h, w, &p, &small, 4 + x, &[]);
                    }
                    if t == 8 || t == 10 {
                        // filters of one and two bytes with every option byte
                        let mut q = p.clone();
                        if v == 5 {
                            q.push(0);
                        }
                        q.extend([0, 1, b'a']);
                        go5(v, h, w, &q, &all, 1, &[]);
                        q.push(0);
                        go5(v, h, w, &q, &[0, 1, 2, 35, 43, 97], 4, &[]);
                    }
                    if t == 9 || t == 11 {
                        let mut q = p.clone();
                        if v == 5 {
                            q.push(0);
                        }
                        go5(v, h, w, &q, &all, 1, &[]);
                        q.push(0);
                        go5(v, h, w, &q, &all, 1, &[]);
                    }
                    if v == 5 && !matches!(t, 12 | 13) && (f == 0 || f == 2) {
                        if t == 15 {
                            *p.last_mut().unwrap() = 24;
                        }
                        if w == 4 && !deep {
                            continue;
                        }
                        let suffix: &[u8] = match t {
                            8 => &[0, 1, b'a', 1],
                            10 => &[0, 1, b'a'],
                            9 | 11 => &[0],
                            _ => &[],
                        };
                        for pid in &ids {
                            for l in 1..=6u8 {
                                let mut q = p.clone();
                                q.extend([l, *pid]);
                                props(&mut go5, v, h, w, &q, l, suffix, x);
                            }
                            if t == 15 {
                                for l in 1..=5u8 {
                                    let mut q = p.clone();
                                    q.extend([l + 4, 21, 0, 1, b'm', *pid]);
                                    props(&mut go5, v, h, w, &q, l, suffix, x);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- pieces below the packet level
/// strings, binaries, integers, properties, subscription entries: totality over random and short inputs
pub fn pieces(seed: u64, n: usize, out: &mut Out) {
    let mut r = Rng::new(seed);
    let mut total = 0u64;
    for i in 0..n {
        let return_piece: Vec<u8>;
        let b: Vec<u8> = if i < 66000 {
            if i < 256 {
                vec![i as u8]
            } else {
                vec![(i >> 8) as u8, i as u8]
            }
        } else {
            let x = r.below(10);
            if x < 6 {
                // a valid piece, often damaged
                let mut s = vec![];
                match x {
                    0 | 1 => {
                        let id = *r.pick(&PROP_IDS);
                        let v = pval(&mut r, id, false);
                        s = enc_props(&vec![(id, v)]);
                        if x == 1 {
                            s.splice(0..0, vbi(s.len()));
                        }
                    }
                    2 => {
                        let k = *r.pick(&["connect", "connack", "publish", "will", "auth"]);
                        let p = gprops(&mut r, k, false);
                        let e = enc_props(&p);
                        s.extend(vbi(e.len()));
                        s.extend(e);
                        if s.len() > 300 {
                            s.truncate(300);
                        }
                    }
                    3 => s = vbi(*r.pick(&[0usize, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455])),
                    _ => {
                        let t = string(&mut r, false);
                        s.extend([(t.len() >> 8) as u8, t.len() as u8]);
                        s.extend(t);
                        s.push(r.below(if x == 4 { 64 } else { 256 }) as u8);
                    }
                }
                if r.pct(60) {
                    mutate(&mut r, &mut s);
                }
                return_piece = s;
            } else {
                return_piece = vec![];
            }
            let m = if x < 6 { 0 } else { r.below(14) };
            if x < 6 {
                return_piece
            } else {
            (0..m).map(|_| if r.pct(50) { *r.pick(&[0u8, 1, 2, 3, 4, 0x7f, 0x80, 0xff, 0xc2, 0xe0, 0xed, 0xf0, 0xf4]) } else { r.next() as u8 }).collect()
            }
        };
        total += 1;
        macro_rules! t {
            ($n:expr, $e:expr) => {
                match catch(|| $e) {
                    Err(m) => out.line(json!({"k": "piece", "what": $n, "raw": b, "panic": m, "used": 0, "size": 0, "same": true})),
                    Ok(Some((used, size, same))) => {
                        let used: usize = used;
                        let size: usize = size;
                        let same: bool = same;
                        if used > b.len() || size != used || !same {
                            out.line(json!({"k": "piece", "what": $n, "raw": b, "panic": "", "used": used, "size": size, "same": same}))
                        }
                    }
                    Ok(None) => {}
                }
            };
        }
        t!("string", MqttString::decode(&b).ok().map(|(s, n)| (n, s.size(), s.to_continuous_buffer() == b[..n.min(b.len())])));
        t!("binary", MqttBinary::decode(&b).ok().map(|(s, n)| (n, s.size(), s.to_continuous_buffer() == b[..n.min(b.len())])));
        t!("integer", match VariableByteInteger::decode_stream(&b) {
            DecodeResult::Ok(x, n) => Some((n, x.size(), x.to_continuous_buffer() == b[..n.min(b.len())])),
            _ => None,
        });
        t!("property", Property::parse(&b).ok().map(|(x, n)| (n, x.size(), x.to_continuous_buffer() == b[..n.min(b.len())])));
        t!("entry", SubEntry::parse(&b).ok().map(|(x, n)| (n, x.size(), x.to_continuous_buffer() == b[..n.min(b.len())])));
        t!("properties", Properties::parse(&b).ok().map(|(_, n)| (n, n, true)));
        if i >= 66000 || i < 256 || r.below(16) == 0 {
            let d = catch(|| {
                let u = |x: Option<usize>| x.map(|n| n as i64).unwrap_or(-1);
                json!({"k": "dec", "raw": b,
                    "int": match VariableByteInteger::decode_stream(&b) { DecodeResult::Ok(x, n) => json!([n, x.to_u32()]), _ => json!([-1, 0]) },
                    "str": u(MqttString::decode(&b).ok().map(|x| x.1)), "bin": u(MqttBinary::decode(&b).ok().map(|x| x.1)),
                    "prop": u(Property::parse(&b).ok().map(|x| x.1)), "props": u(Properties::parse(&b).ok().map(|x| x.1)),
                    "entry": u(SubEntry::parse(&b).ok().map(|x| x.1))})
            });
            if let Ok(d) = d {
                out.line(d);
            }
        }
    }
    out.line(json!({"k": "sum", "parsed": total * 6, "accepted": 0}));
}
