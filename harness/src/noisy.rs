//! The same packets through awkward uses of the builders: setters called twice (the last call counts),
//! in another order, optional ones left out when their value is the default.
use crate::pk::{mk_props, Pid, Pk};
use crate::rng::Rng;
use mqtt_protocol_core::mqtt::common::ArcPayload;
use mqtt_protocol_core::mqtt::packet::*;
use mqtt_protocol_core::mqtt::result_code::*;

fn s(x: &[u8]) -> Result<String, String> {
    String::from_utf8(x.to_vec()).map_err(|_| "utf8".to_string())
}
fn e(x: MqttError) -> String {
    format!("{x:?}")
}
fn q(x: u8) -> Result<Qos, String> {
    Qos::try_from(x).map_err(|_| "qos".to_string())
}
fn up(r: &mut Rng) -> Properties {
    vec![Property::UserProperty(UserProperty::new("n", "x".repeat(r.below(4))).unwrap())]
}

pub fn build<P: Pid>(p: &Pk, seed: u64) -> Result<GenericPacket<P>, String>
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    let mut r = Rng::new(seed);
    use GenericPacket::*;
    macro_rules! connect {
        ($b:expr, $clean:ident, $v5:expr) => {{
            let mut b = $b;
            let mut steps = vec![0, 1, 2, 3, 4, 5];
            for i in 0..steps.len() {
                let j = i + r.below(steps.len() - i);
                steps.swap(i, j);
            }
            for st in steps {
                match st {
                    0 => {
                        if r.pct(50) {
                            b = b.client_id("other").map_err(e)?;
                        }
                        b = b.client_id(s(&p.cid)?).map_err(e)?;
                    }
                    1 => {
                        if r.pct(50) {
                            b = b.$clean(!p.clean);
                        }
                        b = b.$clean(p.clean);
                    }
                    2 => {
                        if r.pct(50) {
                            b = b.keep_alive(p.ka ^ 0x5555);
                        }
                        if p.ka != 0 || r.pct(50) {
                            b = b.keep_alive(p.ka);
                        } else {
                            b = b.keep_alive(0);
                        }
                    }
                    3 => {
                        if let Some(w) = &p.will {
                            if r.pct(60) {
                                b = b.will_message("o", vec![1u8, 2, 3], q(r.below(3) as u8)?, r.pct(50)).map_err(e)?;
                            }
                            b = b.will_message(s(&w.topic)?, w.payload.clone(), q(w.qos)?, w.retain).map_err(e)?;
                        }
                    }
                    4 => {
                        if let Some(u) = &p.user {
                            if r.pct(50) {
                                b = b.user_name("someone").map_err(e)?;
                            }
                            b = b.user_name(s(u)?).map_err(e)?;
                        }
                    }
                    _ => {
                        if let Some(u) = &p.pass {
                            if r.pct(50) {
                                b = b.password(vec![9u8; 3]).map_err(e)?;
                            }
                            b = b.password(u.clone()).map_err(e)?;
                        }
                    }
                }
            }
            b
        }};
    }
    Ok(match (p.v, p.k) {
        (3, "connect") => V3_1_1Connect(connect!(v3_1_1::Connect::builder(), clean_session, false).build().map_err(e)?),
        (5, "connect") => {
            let mut b = connect!(v5_0::Connect::builder(), clean_start, true);
            if r.pct(50) {
                b = b.props(up(&mut r));
            }
            b = b.props(mk_props(p.props.as_ref().unwrap())?);
            match &p.will {
                Some(w) => {
                    if r.pct(50) {
                        b = b.will_props(up(&mut r));
                    }
                    b = b.will_props(mk_props(&w.props)?);
                }
                None => {
                    // will properties without a will
                    if r.pct(50) {
                        b = b.will_props(up(&mut r));
                    }
                }
            }
            V5_0Connect(b.build().map_err(e)?)
        }
        (_, "publish") => {
            macro_rules! pubsteps {
                ($b:expr) => {{
                    let mut b = $b;
                    let mut steps = vec![0, 1, 2, 3, 4, 5];
                    for i in 0..steps.len() {
                        let j = i + r.below(steps.len() - i);
                        steps.swap(i, j);
                    }
                    for st in steps {
                        match st {
                            0 => {
                                if r.pct(50) {
                                    b = b.topic_name("other").map_err(e)?;
                                }
                                b = b.topic_name(s(&p.topic)?).map_err(e)?;
                            }
                            1 => {
                                if r.pct(50) {
                                    b = b.qos(q(r.below(3) as u8)?);
                                }
                                b = b.qos(q(p.qos)?);
                            }
                            2 => {
                                if r.pct(50) {
                                    b = b.dup(!p.dup);
                                }
                                b = b.dup(p.dup);
                            }
                            3 => {
                                if r.pct(50) {
                                    b = b.retain(!p.retain);
                                }
                                b = b.retain(p.retain);
                            }
                            4 => {
                                if r.pct(50) {
                                    b = b.payload(vec![7u8; r.below(40)]);
                                }
                                b = match r.below(6) {
                                    0 => b.payload(p.payload.clone()),
                                    1 => b.payload(&p.payload[..]),
                                    2 => b.payload(std::sync::Arc::<[u8]>::from(p.payload.clone())),
                                    3 => b.payload(&p.payload),
                                    4 if p.payload.is_empty() => b.payload(()),
                                    4 if std::str::from_utf8(&p.payload).is_ok() => b.payload(std::str::from_utf8(&p.payload).unwrap()),
                                    _ => {
                                        // a part of a larger buffer
                                        let (x, y) = (r.below(40), r.below(40));
                                        let mut v = vec![1u8; x];
                                        v.extend(&p.payload);
                                        v.extend(vec![2u8; y]);
                                        b.payload(ArcPayload::new(v.into(), x, p.payload.len()))
                                    }
                                };
                            }
                            _ => {
                                if p.qos > 0 || p.id != 0 {
                                    if r.pct(50) {
                                        b = b.packet_id(P::of(77));
                                    }
                                    b = b.packet_id(P::of(p.id));
                                }
                            }
                        }
                    }
                    b
                }};
            }
            if p.v == 3 {
                V3_1_1Publish(pubsteps!(v3_1_1::GenericPublish::<P>::builder()).build().map_err(e)?)
            } else {
                let mut b = pubsteps!(v5_0::GenericPublish::<P>::builder());
                if r.pct(50) {
                    b = b.props(up(&mut r));
                }
                b = b.props(mk_props(p.props.as_ref().unwrap())?);
                V5_0Publish(b.build().map_err(e)?)
            }
        }
        _ => return crate::pk::build::<P>(p),
    })
}
