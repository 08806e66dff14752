//! Driver for `ValueAllocator` (C20).  All values are logged relative to the lower end of the
//! range, so that ranges at the very end of u32/u64/i8 fit the integers of the specification.
use crate::rng::Rng;
use crate::util::{catch, Out};
use mqtt_protocol_core::mqtt::ValueAllocator;
use serde_json::{json, Value};

pub trait Dut {
    fn alloc(&mut self) -> Option<i64>;
    fn first(&self) -> Option<i64>;
    fn reserve(&mut self, r: i64) -> bool;
    fn free(&mut self, r: i64);
    /// None: the value does not exist in the type
    fn used(&self, r: i64) -> Option<bool>;
    fn clear(&mut self);
    fn count(&self) -> usize;
    fn dump(&self);
    fn dup(&self) -> Box<dyn Dut>;
}
struct D<T: num::P + num_traits::PrimInt> {
    a: ValueAllocator<T>,
    lo: T,
}
mod num {
    pub trait P: 'static + Clone + Copy + std::fmt::Debug + Bits {}
    pub trait Bits {
        fn rel(lo: Self, r: i64) -> Option<Self>
        where
            Self: Sized;
        fn back(self, lo: Self) -> i64;
    }
}
macro_rules! dut {
    ($t:ty) => {
        impl num::P for $t {}
        impl num::Bits for $t {
            fn rel(lo: $t, r: i64) -> Option<$t> {
                <$t>::try_from(lo as i128 + r as i128).ok()
            }
            fn back(self, lo: $t) -> i64 {
                (self as i128 - lo as i128) as i64
            }
        }
        impl Dut for D<$t> {
            fn alloc(&mut self) -> Option<i64> {
                self.a.allocate().map(|v| num::Bits::back(v, self.lo))
            }
            fn first(&self) -> Option<i64> {
                self.a.first_vacant().map(|v| num::Bits::back(v, self.lo))
            }
            fn reserve(&mut self, r: i64) -> bool {
                self.a.use_value(num::Bits::rel(self.lo, r).unwrap())
            }
            fn free(&mut self, r: i64) {
                self.a.deallocate(num::Bits::rel(self.lo, r).unwrap())
            }
            fn used(&self, r: i64) -> Option<bool> {
                <$t as num::Bits>::rel(self.lo, r).map(|v| self.a.is_used(v))
            }
            fn clear(&mut self) {
                self.a.clear()
            }
            fn count(&self) -> usize {
                self.a.interval_count()
            }
            fn dump(&self) {
                self.a.dump()
            }
            fn dup(&self) -> Box<dyn Dut> {
                Box::new(D::<$t> { a: self.a.clone(), lo: self.lo })
            }
        }
    };
}
dut!(u8);
dut!(i8);
dut!(u16);
dut!(i32);
dut!(u32);
dut!(u64);

/// ty: type, at: where in the type's domain the range sits (lo|mid|hi|one), w: width
pub fn make(ty: &str, at: &str, w: i64) -> Option<Box<dyn Dut>> {
    macro_rules! mk {
        ($t:ty) => {{
            let (mn, mx) = (<$t>::MIN as i128, <$t>::MAX as i128);
            let w = w as i128;
            if w > mx - mn + 1 {
                return None;
            }
            let lo = match at {
                "lo" => mn,
                "hi" => mx - w + 1,
                "one" => 1,
                _ => (mn + mx) / 2 - w / 2,
            };
            if lo < mn || lo + w - 1 > mx {
                return None;
            }
            let l = lo as $t;
            Box::new(D::<$t> { a: ValueAllocator::new(l, (lo + w - 1) as $t), lo: l })
        }};
    }
    Some(match ty {
        "u8" => mk!(u8),
        "i8" => mk!(i8),
        "u16" => mk!(u16),
        "i32" => mk!(i32),
        "u32" => mk!(u32),
        _ => mk!(u64),
    })
}
pub const TYPES: [&str; 6] = ["u8", "i8", "u16", "i32", "u32", "u64"];

fn opt(v: Option<i64>) -> Value {
    match v {
        Some(x) => json!([x]),
        None => json!([]),
    }
}

fn obs(d: &mut Box<dyn Dut>, w: i64, probes: &[i64]) -> Value {
    d.dump();
    // the probed values that are reported used
    let u: Vec<i64> = probes.iter().copied().filter(|p| d.used(*p) == Some(true)).collect();
    json!({"n": d.count(), "fv": opt(d.first()), "u": u, "w": w})
}

/// Replays the transitions TLC enumerated.  Every pre-state is reached along several routes.
pub fn replay(input: &str, out: &mut Out) {
    let mut n = 0u64;
    for line in input.lines() {
        let v: Value = match serde_json::from_str(line) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let w = v["w"].as_i64().unwrap();
        let used: Vec<i64> = v["used"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let op = v["op"].as_str().unwrap().to_string();
        let arg = v["arg"].as_i64().unwrap();
        for (ty, at) in [("u8", "lo"), ("u16", "hi"), ("i8", "mid"), ("u32", "one"), ("u64", "hi")] {
            for route in 0..4 {
                n += 1;
                let used = used.clone();
                let op = op.clone();
                let r = catch(|| {
                    let mut d = make(ty, at, w).unwrap();
                    match route {
                        0 => used.iter().for_each(|u| {
                            d.reserve(*u);
                        }),
                        1 => used.iter().rev().for_each(|u| {
                            d.reserve(*u);
                        }),
                        2 => {
                            while d.alloc().is_some() {}
                            (0..w).filter(|x| !used.contains(x)).for_each(|x| d.free(x));
                        }
                        _ => {
                            while d.alloc().is_some() {}
                            // free everything from both ends inwards, then take the used ones
                            let mut a = 0;
                            let mut b = w - 1;
                            while a <= b {
                                d.free(b);
                                if a != b {
                                    d.free(a);
                                }
                                a += 1;
                                b -= 1;
                            }
                            used.iter().for_each(|u| {
                                d.reserve(*u);
                            });
                        }
                    }
                    let ret = match op.as_str() {
                        "alloc" => opt(d.alloc()),
                        "use" => json!([d.reserve(arg) as u8]),
                        "free" => {
                            d.free(arg);
                            json!([])
                        }
                        _ => {
                            d.clear();
                            json!([])
                        }
                    };
                    let probes: Vec<i64> = (-1..=w).collect();
                    let o = obs(&mut d, w, &probes);
                    // drain a copy: the order of the remaining values is the free set, ascending
                    let mut c = d.dup();
                    let mut drain = vec![];
                    while let Some(x) = c.alloc() {
                        drain.push(x);
                        if drain.len() as i64 > w {
                            break;
                        }
                    }
                    (ret, o, drain)
                });
                match r {
                    Ok((ret, o, drain)) => {
                        let eu = v["u2"].as_array().unwrap();
                        let mut eu2: Vec<i64> = eu.iter().map(|x| x.as_i64().unwrap()).collect();
                        eu2.sort();
                        let used_ok = o["u"] == json!(eu2);
                        let free: Vec<Value> = (0..w).map(|x| json!(x)).filter(|x| !eu.contains(x)).collect();
                        let ok = ret == v["ret"]
                            && o["n"] == v["n"]
                            && o["fv"] == v["fv"]
                            && used_ok
                            && json!(drain) == json!(free);
                        if !ok {
                            out.line(json!({"fail":1,"vec":v,"type":ty,"at":at,"route":route,"ret":ret,"obs":o,"drain":drain}));
                        }
                    }
                    Err(m) => out.line(json!({"fail":1,"vec":v,"type":ty,"at":at,"route":route,"panic":m})),
                }
            }
        }
    }
    out.line(json!({"done": n}));
}

/// Random histories, recorded for TLC.
pub fn trace(seed: u64, traces: usize, steps: usize, out: &mut Out) {
    let mut r = Rng::new(seed);
    for t in 0..traces {
        let ty = *r.pick(&TYPES);
        let at = *r.pick(&["lo", "hi", "mid", "one"]);
        let w = *r.pick(&[1i64, 2, 3, 5, 8, 13, 24, 40, 100, 256, 65535]);
        let mut d = match make(ty, at, w) {
            Some(d) => d,
            None => continue,
        };
        let edge: i64 = 30;
        let probes: Vec<i64> = if w <= 40 {
            (-2..w + 2).collect()
        } else {
            (-1..edge).chain(w - edge..w + 1).collect()
        };
        out.line(json!({"c":"new","w":w,"ty":ty,"at":at,"t":t,"pr":[[probes[0], if w <= 40 { w + 1 } else { edge - 1 }], [if w <= 40 { 0 } else { w - edge }, if w <= 40 { 0 } else { w }]],"obs":obs(&mut d, w, &probes)}));
        // biased phases: fill, drain, mixed; values drawn from a sliding window so that runs form
        let mut bias = 50;
        let mut win = 0i64;
        for _ in 0..steps {
            if r.pct(8) {
                bias = *r.pick(&[15u32, 35, 50, 65, 85]);
                win = if w > 40 && r.pct(50) { w - edge } else { 0 };
            }
            let val = |r: &mut Rng| {
                if r.pct(6) {
                    *r.pick(&[0, w - 1])
                } else {
                    (win + r.range(0, edge.min(w) - 1)).min(w - 1)
                }
            };
            let x = val(&mut r);
            let what = if r.pct(1) {
                "clear"
            } else if r.pct(bias) {
                if r.pct(50) {
                    "alloc"
                } else {
                    "use"
                }
            } else {
                "free"
            };
            // reserving a value outside the range is a legal call and must be refused
            let x = if what == "use" && r.pct(5) {
                *r.pick(&[-1, w, w + 1])
            } else {
                x
            };
            let res = catch(|| match what {
                "alloc" => opt(d.alloc()),
                "use" => {
                    if d.used(x).is_none() {
                        json!([0])
                    } else {
                        json!([d.reserve(x) as u8])
                    }
                }
                "free" => {
                    d.free(x);
                    json!([])
                }
                _ => {
                    d.clear();
                    json!([])
                }
            });
            match res {
                Ok(ret) => {
                    let o = catch(|| obs(&mut d, w, &probes));
                    match o {
                        Ok(o) => out.line(json!({"c":what,"x":x,"ret":ret,"obs":o})),
                        Err(m) => {
                            out.line(json!({"c":"panic","in":"query","msg":m,"x":x}));
                            break;
                        }
                    }
                }
                Err(m) => {
                    out.line(json!({"c":"panic","in":what,"msg":m,"x":x}));
                    break;
                }
            }
        }
    }
}
