//! Scenes: small alphabets of calls. `alphabet` writes the call records the specification works
//! with (sizes, contents and parse results of the real packets); `replay` performs schedules
//! (positions in the alphabet) enumerated by TLC on the real object.
use crate::conn::*;
use crate::drv::{profile, Sim};
use crate::pk::{encode, unhex, Pk, Props, PV};
use crate::util::Out;
use serde_json::{json, Value};

fn kind(k: &str) -> &'static str {
    const K: [&str; 15] = [
        "connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback", "unsubscribe", "unsuback",
        "pingreq", "pingresp", "disconnect", "auth",
    ];
    K.iter().find(|x| **x == k).unwrap()
}
fn packet(d: &Value, v: u8) -> Pk {
    let n = |k: &str| d[k].as_u64();
    let v = n("v").map(|x| x as u8).unwrap_or(v);
    let k = kind(d["k"].as_str().unwrap());
    let mut p = Pk { v, k, id: n("id").unwrap_or(0) as u32, qos: n("q").unwrap_or(0) as u8, ..Default::default() };
    p.dup = n("d") == Some(1);
    p.clean = n("cl") == Some(1);
    p.sp = n("sp") == Some(1);
    p.ka = n("ka").unwrap_or(0) as u16;
    p.rc = n("rc").map(|x| x as u8);
    let mut pr: Props = vec![];
    for (f, id) in [("rm", 33u8), ("tam", 34), ("a", 35), ("ska", 19)] {
        if let Some(x) = n(f) {
            pr.push((id, PV::H(x as u16)));
        }
    }
    for (f, id) in [("sei", 17u8), ("mps", 39)] {
        if let Some(x) = n(f) {
            pr.push((id, PV::W(x as u32)));
        }
    }
    if k == "auth" {
        p.rc = Some(24);
        pr.push((21, PV::S(b"m".to_vec())));
    }
    if k == "connack" {
        p.rc = Some(p.rc.unwrap_or(0));
    }
    if k == "connect" {
        p.cid = d["cid"].as_str().unwrap_or("c").as_bytes().to_vec();
    }
    if k == "publish" {
        p.topic = d["t"].as_str().unwrap_or("a").as_bytes().to_vec();
        p.payload = vec![b'x'; n("n").unwrap_or(1) as usize];
    }
    match k {
        "subscribe" => p.subs = vec![(b"a".to_vec(), 1)],
        "unsubscribe" => p.topics = vec![b"a".to_vec()],
        "suback" => p.rcs = vec![0],
        "unsuback" if v == 5 => p.rcs = vec![0],
        _ => {}
    }
    if v == 5 && (!pr.is_empty() || !matches!(k, "puback" | "pubrec" | "pubrel" | "pubcomp" | "pingreq" | "pingresp" | "disconnect")) {
        p.props = Some(pr);
    }
    p
}
const OPTS: [&str; 6] = ["auto_pub", "auto_ping", "auto_map", "auto_replace", "offline", "resp_timeout"];
fn opt(o: &str) -> &'static str {
    OPTS.iter().find(|x| **x == o).unwrap()
}

pub struct Scene {
    pub role: char,
    pub rver: u8,
    pub w: usize,
    pub ids: Vec<u32>,
    pub opts: Vec<(&'static str, u64)>,
    pub calls: Vec<(Call, bool)>,
    wild: bool,
}
pub fn load(text: &str) -> Scene {
    let d: Value = serde_json::from_str(text).unwrap();
    let v = d["v"].as_u64().unwrap() as u8;
    let w = d["w"].as_u64().unwrap_or(2) as usize;
    let id = |c: &Value| c["id"].as_u64().unwrap() as u32;
    let calls = d["calls"].as_array().unwrap().iter().map(|c| {
        let crash = c["c"] == "crash";
        let call = match c["c"].as_str().unwrap() {
            "opt" => Call::Opt(opt(c["o"].as_str().unwrap()), c["n"].as_u64().unwrap()),
            "setint" => Call::SetInt(c["ms"].as_u64()),
            "send" => Call::Send(packet(&c["p"], v)),
            "recv" => match c["hex"].as_str() {
                Some(h) => Call::Recv(unhex(h), vec![]),
                None => Call::Recv(encode(&packet(&c["p"], v), w), vec![]),
            },
            "part" => Call::Part(unhex(c["hex"].as_str().unwrap())),
            "timer" => Call::Timer(c["t"].as_u64().unwrap() as usize),
            "closed" | "crash" => Call::Closed,
            "acquire" => Call::Acquire,
            "register" => Call::Register(id(c)),
            "release" => Call::Release(id(c)),
            "erase" => Call::Erase(id(c)),
            "regulate" => Call::Regulate(packet(&c["p"], v)),
            x => panic!("unknown call {x}"),
        };
        (call, crash)
    }).collect();
    Scene {
        role: d["role"].as_str().unwrap().chars().next().unwrap(), rver: d["rver"].as_u64().map(|x| x as u8).unwrap_or(v), w,
        ids: d["ids"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect(),
        opts: d["opts"].as_array().map(|a| a.iter().map(|o| (opt(o[0].as_str().unwrap()), o[1].as_u64().unwrap())).collect()).unwrap_or_default(),
        calls, wild: d["wild"] == true,
    }
}
pub fn alphabet(text: &str, out: &mut Out) {
    let s = load(text);
    let opts: Vec<Value> = s.opts.iter().map(|o| json!([o.0, o.1])).collect();
    out.line(json!({"role":s.role.to_string(),"rver":s.rver,"w":s.w,"ids":s.ids,"opts":opts,"wild":s.wild}));
    let ex = make(s.role, s.rver, s.w);
    for (c, crash) in &s.calls {
        let mut m = callj(c, ex.as_ref(), s.rver);
        if let Call::Recv(b, _) = c {
            assert!(m["bad"] == true || m["sz"] == b.len(), "not one whole frame: {b:?}");
        }
        if matches!(c, Call::Closed) {
            m.insert("crash".into(), json!(crash));
        }
        // what the packet is depends on the version the object has adopted by then
        if s.rver == 0 && matches!(c, Call::Recv(..)) {
            for v in [3, 5] {
                m.insert(format!("in{v}"), Value::Object(callj(c, make(s.role, v, s.w).as_ref(), v)));
            }
        }
        out.line(Value::Object(m));
    }
}
/// performs walks that take the transitions of the state graph TLC printed
pub fn replay(text: &str, edges: &str, prof: &str, seed: u64, budget: usize, out: &mut Out) -> String {
    let (mut skipped, mut calls) = (0, 0);
    let s = load(text);
    let pr = profile(prof);
    let (ws, n, left) = crate::walk::walks(edges, seed, 70, budget);
    for w in &ws {
        let mut sim = Sim::scene(s.role, s.rver, s.w, s.ids.clone(), &pr, out);
        for (o, n) in &s.opts {
            sim.option(o, *n);
        }
        for i in w {
            let (c, crash) = &s.calls[i - 1];
            calls += 1;
            if *crash {
                sim.crash_now();
            } else if !sim.perform(c) {
                skipped += 1;
            }
        }
    }
    json!({"walks": ws.len(), "calls": calls, "edges": n, "left": left, "skipped": skipped}).to_string()
}
