//! Abstract packets: description <-> library packet <-> reference encoding.
//! `encode` is an independent encoder written from the OASIS documents; TLC judges both it and
//! the library's serialiser against Codec.tla.
use mqtt_protocol_core::mqtt::packet::prelude::*;
use mqtt_protocol_core::mqtt::packet::*;
use mqtt_protocol_core::mqtt::result_code::*;
use mqtt_protocol_core::mqtt::Version;
use serde_json::{json, Value};
use std::sync::Arc;

pub trait Pid: IsPacketId + serde::Serialize + Send + Sync + std::hash::Hash + IntoPacketId<Self> {
    const W: usize;
    fn of(v: u32) -> Self;
    fn u(self) -> u32;
    const MAX: u32;
}
impl Pid for u16 {
    const W: usize = 2;
    const MAX: u32 = u16::MAX as u32;
    fn of(v: u32) -> Self {
        v as u16
    }
    fn u(self) -> u32 {
        self as u32
    }
}
impl Pid for u32 {
    const W: usize = 4;
    const MAX: u32 = u32::MAX;
    fn of(v: u32) -> Self {
        v
    }
    fn u(self) -> u32 {
        self
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum PV {
    B(u8),
    H(u16),
    W(u32),
    V(u32),
    S(Vec<u8>),
    D(Vec<u8>),
    P(Vec<u8>, Vec<u8>),
}
pub type Props = Vec<(u8, PV)>;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Will {
    pub topic: Vec<u8>,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Pk {
    pub v: u8,
    pub k: &'static str,
    pub id: u32,
    pub qos: u8,
    pub dup: bool,
    pub retain: bool,
    pub topic: Vec<u8>,
    pub payload: Vec<u8>,
    pub props: Option<Props>,
    pub rc: Option<u8>,
    pub sp: bool,
    pub clean: bool,
    pub ka: u16,
    pub cid: Vec<u8>,
    pub will: Option<Will>,
    pub user: Option<Vec<u8>>,
    pub pass: Option<Vec<u8>>,
    pub subs: Vec<(Vec<u8>, u8)>,
    pub topics: Vec<Vec<u8>>,
    pub rcs: Vec<u8>,
    pub xt: bool,
}

pub const KINDS: [&str; 15] = [
    "connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback", "unsubscribe",
    "unsuback", "pingreq", "pingresp", "disconnect", "auth",
];
pub fn kind_of(t: u8) -> Option<&'static str> {
    if t == 0 {
        None
    } else {
        Some(KINDS[t as usize - 1])
    }
}
pub fn type_of(k: &str) -> u8 {
    KINDS.iter().position(|x| *x == k).unwrap() as u8 + 1
}

// ---------------------------------------------------------------- reference encoder
pub fn vbi(mut n: usize) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            o.push(b | 0x80)
        } else {
            o.push(b);
            return o;
        }
    }
}
fn st(o: &mut Vec<u8>, s: &[u8]) {
    o.extend((s.len() as u16).to_be_bytes());
    o.extend(s);
}
fn idb(o: &mut Vec<u8>, id: u32, w: usize) {
    if w == 2 {
        o.extend((id as u16).to_be_bytes())
    } else {
        o.extend(id.to_be_bytes())
    }
}
pub fn enc_props(p: &Props) -> Vec<u8> {
    let mut b = vec![];
    for (id, v) in p {
        b.push(*id);
        match v {
            PV::B(x) => b.push(*x),
            PV::H(x) => b.extend(x.to_be_bytes()),
            PV::W(x) => b.extend(x.to_be_bytes()),
            PV::V(x) => b.extend(vbi(*x as usize)),
            PV::S(x) | PV::D(x) => st(&mut b, x),
            PV::P(x, y) => {
                st(&mut b, x);
                st(&mut b, y)
            }
        }
    }
    b
}
fn props(o: &mut Vec<u8>, p: &Props) {
    let b = enc_props(p);
    o.extend(vbi(b.len()));
    o.extend(b);
}
pub fn encode_body(p: &Pk, w: usize) -> (u8, Vec<u8>) {
    let mut b = vec![];
    let t = type_of(p.k) << 4;
    let none = vec![];
    let pr = p.props.as_ref().unwrap_or(&none);
    let mut fl = 0;
    match p.k {
        "connect" => {
            st(&mut b, b"MQTT");
            b.push(if p.v == 3 { 4 } else { 5 });
            let mut f = 0u8;
            if p.user.is_some() {
                f |= 0x80
            }
            if p.pass.is_some() {
                f |= 0x40
            }
            if let Some(w) = &p.will {
                f |= 4 | (w.qos << 3) | if w.retain { 0x20 } else { 0 }
            }
            if p.clean {
                f |= 2
            }
            b.push(f);
            b.extend(p.ka.to_be_bytes());
            if p.v == 5 {
                props(&mut b, pr)
            }
            st(&mut b, &p.cid);
            if let Some(w) = &p.will {
                if p.v == 5 {
                    props(&mut b, &w.props)
                }
                st(&mut b, &w.topic);
                st(&mut b, &w.payload);
            }
            if let Some(x) = &p.user {
                st(&mut b, x)
            }
            if let Some(x) = &p.pass {
                st(&mut b, x)
            }
        }
        "connack" => {
            b.push(p.sp as u8);
            b.push(p.rc.unwrap_or(0));
            if p.v == 5 {
                props(&mut b, pr)
            }
        }
        "publish" => {
            fl = ((p.dup as u8) << 3) | (p.qos << 1) | p.retain as u8;
            st(&mut b, &p.topic);
            if p.qos > 0 {
                idb(&mut b, p.id, w)
            }
            if p.v == 5 {
                props(&mut b, pr)
            }
            b.extend(&p.payload);
        }
        "puback" | "pubrec" | "pubrel" | "pubcomp" => {
            if p.k == "pubrel" {
                fl = 2
            }
            idb(&mut b, p.id, w);
            if let Some(r) = p.rc {
                b.push(r);
                if let Some(x) = &p.props {
                    props(&mut b, x)
                }
            }
        }
        "subscribe" => {
            fl = 2;
            idb(&mut b, p.id, w);
            if p.v == 5 {
                props(&mut b, pr)
            }
            for (s, o) in &p.subs {
                st(&mut b, s);
                b.push(*o);
            }
        }
        "unsubscribe" => {
            fl = 2;
            idb(&mut b, p.id, w);
            if p.v == 5 {
                props(&mut b, pr)
            }
            for s in &p.topics {
                st(&mut b, s);
            }
        }
        "suback" | "unsuback" => {
            idb(&mut b, p.id, w);
            if p.v == 5 {
                props(&mut b, pr)
            }
            b.extend(&p.rcs);
        }
        "disconnect" | "auth" => {
            if let Some(r) = p.rc {
                b.push(r);
                if let Some(x) = &p.props {
                    props(&mut b, x)
                }
            }
        }
        _ => {}
    }
    (t | fl, b)
}
pub fn encode(p: &Pk, w: usize) -> Vec<u8> {
    let (h, b) = encode_body(p, w);
    let mut o = vec![h];
    o.extend(vbi(b.len()));
    o.extend(b);
    o
}

// ---------------------------------------------------------------- properties
fn s(x: &[u8]) -> Result<String, String> {
    String::from_utf8(x.to_vec()).map_err(|_| "utf8".to_string())
}
fn e(x: MqttError) -> String {
    format!("{x:?}")
}
pub fn mk_prop(id: u8, v: &PV) -> Result<Property, String> {
    macro_rules! p {
        ($t:ident, $x:expr) => {
            Ok(Property::$t($t::new($x).map_err(e)?))
        };
    }
    let bad = || Err("type".to_string());
    match (id, v) {
        (1, PV::B(x)) => match x {
            0 => p!(PayloadFormatIndicator, PayloadFormat::Binary),
            1 => p!(PayloadFormatIndicator, PayloadFormat::String),
            _ => Err("unrepresentable".into()),
        },
        (2, PV::W(x)) => p!(MessageExpiryInterval, *x),
        (3, PV::S(x)) => p!(ContentType, s(x)?),
        (8, PV::S(x)) => p!(ResponseTopic, s(x)?),
        (9, PV::D(x)) => p!(CorrelationData, x.clone()),
        (11, PV::V(x)) => p!(SubscriptionIdentifier, *x),
        (17, PV::W(x)) => p!(SessionExpiryInterval, *x),
        (18, PV::S(x)) => p!(AssignedClientIdentifier, s(x)?),
        (19, PV::H(x)) => p!(ServerKeepAlive, *x),
        (21, PV::S(x)) => p!(AuthenticationMethod, s(x)?),
        (22, PV::D(x)) => p!(AuthenticationData, x.clone()),
        (23, PV::B(x)) => p!(RequestProblemInformation, *x),
        (24, PV::W(x)) => p!(WillDelayInterval, *x),
        (25, PV::B(x)) => p!(RequestResponseInformation, *x),
        (26, PV::S(x)) => p!(ResponseInformation, s(x)?),
        (28, PV::S(x)) => p!(ServerReference, s(x)?),
        (31, PV::S(x)) => p!(ReasonString, s(x)?),
        (33, PV::H(x)) => p!(ReceiveMaximum, *x),
        (34, PV::H(x)) => p!(TopicAliasMaximum, *x),
        (35, PV::H(x)) => p!(TopicAlias, *x),
        (36, PV::B(x)) => p!(MaximumQos, *x),
        (37, PV::B(x)) => p!(RetainAvailable, *x),
        (38, PV::P(x, y)) => Ok(Property::UserProperty(UserProperty::new(s(x)?, s(y)?).map_err(e)?)),
        (39, PV::W(x)) => p!(MaximumPacketSize, *x),
        (40, PV::B(x)) => p!(WildcardSubscriptionAvailable, *x),
        (41, PV::B(x)) => p!(SubscriptionIdentifierAvailable, *x),
        (42, PV::B(x)) => p!(SharedSubscriptionAvailable, *x),
        _ => bad(),
    }
}
pub fn mk_props(p: &Props) -> Result<Properties, String> {
    p.iter().map(|(i, v)| mk_prop(*i, v)).collect()
}
/// Value category of a property: 'b' 'h' 'w' 'v' 's' 'd' 'p'.
pub fn cat(id: u8) -> Option<char> {
    Some(match id {
        1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => 'b',
        19 | 33 | 34 | 35 => 'h',
        2 | 17 | 24 | 39 => 'w',
        11 => 'v',
        3 | 8 | 18 | 21 | 26 | 28 | 31 => 's',
        9 | 22 => 'd',
        38 => 'p',
        _ => return None,
    })
}
pub fn de_prop(p: &Property) -> (u8, PV) {
    let id = p.id() as u8;
    let v = match cat(id) {
        Some('b') => PV::B(p.as_u8().unwrap()),
        Some('h') => PV::H(p.as_u16().unwrap()),
        Some('w') => PV::W(p.as_u32().unwrap()),
        Some('v') => PV::V(p.as_u32().unwrap()),
        Some('s') => PV::S(p.as_str().unwrap().as_bytes().to_vec()),
        Some('d') => PV::D(p.as_bytes().unwrap().to_vec()),
        _ => {
            let (k, v) = p.as_key_value().unwrap();
            PV::P(k.as_bytes().to_vec(), v.as_bytes().to_vec())
        }
    };
    (id, v)
}
pub fn de_props(p: &Properties) -> Props {
    p.iter().map(de_prop).collect()
}

// ---------------------------------------------------------------- building through the public builders
fn q(x: u8) -> Result<Qos, String> {
    Qos::try_from(x).map_err(|_| "qos".to_string())
}
macro_rules! rc {
    ($t:ty, $x:expr) => {
        <$t>::try_from($x).map_err(|_| "rc".to_string())?
    };
}

pub fn build<P: Pid>(p: &Pk) -> Result<GenericPacket<P>, String>
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    if p.v == 3 {
        build3(p)
    } else {
        build5(p)
    }
}

fn build3<P: Pid>(p: &Pk) -> Result<GenericPacket<P>, String>
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    use GenericPacket::*;
    macro_rules! ack {
        ($var:ident, $t:ident, $r:ty) => {{
            let mut b = v3_1_1::$t::<P>::builder().packet_id(P::of(p.id));
            if let Some(x) = p.rc {
                b = b.reason_code(rc!($r, x));
            }
            $var(b.build().map_err(e)?)
        }};
    }
    Ok(match p.k {
        "connect" => {
            let mut b = v3_1_1::Connect::builder().client_id(s(&p.cid)?).map_err(e)?.clean_session(p.clean).keep_alive(p.ka);
            if let Some(w) = &p.will {
                b = b.will_message(s(&w.topic)?, w.payload.clone(), q(w.qos)?, w.retain).map_err(e)?;
            }
            if let Some(u) = &p.user {
                b = b.user_name(s(u)?).map_err(e)?;
            }
            if let Some(u) = &p.pass {
                b = b.password(u.clone()).map_err(e)?;
            }
            V3_1_1Connect(b.build().map_err(e)?)
        }
        "connack" => V3_1_1Connack(
            v3_1_1::Connack::builder()
                .session_present(p.sp)
                .return_code(rc!(ConnectReturnCode, p.rc.unwrap_or(0)))
                .build()
                .map_err(e)?,
        ),
        "publish" => {
            let mut b = v3_1_1::GenericPublish::<P>::builder()
                .topic_name(s(&p.topic)?)
                .map_err(e)?
                .qos(q(p.qos)?)
                .dup(p.dup)
                .retain(p.retain)
                .payload(p.payload.clone());
            if p.qos > 0 || p.id != 0 {
                b = b.packet_id(P::of(p.id));
            }
            V3_1_1Publish(b.build().map_err(e)?)
        }
        "puback" => ack!(V3_1_1Puback, GenericPuback, PubackReasonCode),
        "pubrec" => ack!(V3_1_1Pubrec, GenericPubrec, PubrecReasonCode),
        "pubrel" => ack!(V3_1_1Pubrel, GenericPubrel, PubrelReasonCode),
        "pubcomp" => ack!(V3_1_1Pubcomp, GenericPubcomp, PubcompReasonCode),
        "subscribe" => {
            let es: Result<Vec<_>, String> =
                p.subs.iter().map(|(t, o)| SubEntry::new(s(t)?, SubOpts::from_u8(*o).map_err(e)?).map_err(e)).collect();
            V3_1_1Subscribe(
                v3_1_1::GenericSubscribe::<P>::builder().packet_id(P::of(p.id)).entries(es?).build().map_err(e)?,
            )
        }
        "suback" => {
            let mut r = vec![];
            for x in &p.rcs {
                r.push(rc!(SubackReturnCode, *x));
            }
            V3_1_1Suback(
                v3_1_1::GenericSuback::<P>::builder().packet_id(P::of(p.id)).return_codes(r).build().map_err(e)?,
            )
        }
        "unsubscribe" => {
            let t: Result<Vec<String>, String> = p.topics.iter().map(|x| s(x)).collect();
            V3_1_1Unsubscribe(
                v3_1_1::GenericUnsubscribe::<P>::builder()
                    .packet_id(P::of(p.id))
                    .entries(t?)
                    .map_err(e)?
                    .build()
                    .map_err(e)?,
            )
        }
        "unsuback" => V3_1_1Unsuback(v3_1_1::GenericUnsuback::<P>::builder().packet_id(P::of(p.id)).build().map_err(e)?),
        "pingreq" => V3_1_1Pingreq(v3_1_1::Pingreq::new()),
        "pingresp" => V3_1_1Pingresp(v3_1_1::Pingresp::new()),
        "disconnect" => V3_1_1Disconnect(v3_1_1::Disconnect::new()),
        _ => return Err("kind".into()),
    })
}

fn build5<P: Pid>(p: &Pk) -> Result<GenericPacket<P>, String>
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    use GenericPacket::*;
    macro_rules! ack {
        ($var:ident, $t:ident, $r:ty) => {{
            let mut b = v5_0::$t::<P>::builder().packet_id(P::of(p.id));
            if let Some(x) = p.rc {
                b = b.reason_code(rc!($r, x));
            }
            if let Some(x) = &p.props {
                b = b.props(mk_props(x)?);
            }
            $var(b.build().map_err(e)?)
        }};
    }
    macro_rules! pr {
        ($b:ident) => {
            if let Some(x) = &p.props {
                $b = $b.props(mk_props(x)?);
            }
        };
    }
    Ok(match p.k {
        "connect" => {
            let mut b = v5_0::Connect::builder().client_id(s(&p.cid)?).map_err(e)?.clean_start(p.clean).keep_alive(p.ka);
            pr!(b);
            if let Some(w) = &p.will {
                b = b.will_message(s(&w.topic)?, w.payload.clone(), q(w.qos)?, w.retain).map_err(e)?;
                if !w.props.is_empty() {
                    b = b.will_props(mk_props(&w.props)?);
                }
            }
            if let Some(u) = &p.user {
                b = b.user_name(s(u)?).map_err(e)?;
            }
            if let Some(u) = &p.pass {
                b = b.password(u.clone()).map_err(e)?;
            }
            V5_0Connect(b.build().map_err(e)?)
        }
        "connack" => {
            let mut b = v5_0::Connack::builder()
                .session_present(p.sp)
                .reason_code(rc!(ConnectReasonCode, p.rc.unwrap_or(0)));
            pr!(b);
            V5_0Connack(b.build().map_err(e)?)
        }
        "publish" => {
            let mut b = v5_0::GenericPublish::<P>::builder()
                .topic_name(s(&p.topic)?)
                .map_err(e)?
                .qos(q(p.qos)?)
                .dup(p.dup)
                .retain(p.retain)
                .payload(p.payload.clone());
            if p.qos > 0 || p.id != 0 {
                b = b.packet_id(P::of(p.id));
            }
            pr!(b);
            V5_0Publish(b.build().map_err(e)?)
        }
        "puback" => ack!(V5_0Puback, GenericPuback, PubackReasonCode),
        "pubrec" => ack!(V5_0Pubrec, GenericPubrec, PubrecReasonCode),
        "pubrel" => ack!(V5_0Pubrel, GenericPubrel, PubrelReasonCode),
        "pubcomp" => ack!(V5_0Pubcomp, GenericPubcomp, PubcompReasonCode),
        "subscribe" => {
            let es: Result<Vec<_>, String> =
                p.subs.iter().map(|(t, o)| SubEntry::new(s(t)?, SubOpts::from_u8(*o).map_err(e)?).map_err(e)).collect();
            let mut b = v5_0::GenericSubscribe::<P>::builder().packet_id(P::of(p.id)).entries(es?);
            pr!(b);
            V5_0Subscribe(b.build().map_err(e)?)
        }
        "suback" => {
            let mut r = vec![];
            for x in &p.rcs {
                r.push(rc!(SubackReasonCode, *x));
            }
            let mut b = v5_0::GenericSuback::<P>::builder().packet_id(P::of(p.id)).reason_codes(r);
            pr!(b);
            V5_0Suback(b.build().map_err(e)?)
        }
        "unsubscribe" => {
            let t: Result<Vec<String>, String> = p.topics.iter().map(|x| s(x)).collect();
            let mut b = v5_0::GenericUnsubscribe::<P>::builder().packet_id(P::of(p.id)).entries(t?).map_err(e)?;
            pr!(b);
            V5_0Unsubscribe(b.build().map_err(e)?)
        }
        "unsuback" => {
            let mut r = vec![];
            for x in &p.rcs {
                r.push(rc!(UnsubackReasonCode, *x));
            }
            let mut b = v5_0::GenericUnsuback::<P>::builder().packet_id(P::of(p.id)).reason_codes(r);
            pr!(b);
            V5_0Unsuback(b.build().map_err(e)?)
        }
        "pingreq" => V5_0Pingreq(v5_0::Pingreq::new()),
        "pingresp" => V5_0Pingresp(v5_0::Pingresp::new()),
        "disconnect" => {
            let mut b = v5_0::Disconnect::builder();
            if let Some(x) = p.rc {
                b = b.reason_code(rc!(DisconnectReasonCode, x));
            }
            pr!(b);
            V5_0Disconnect(b.build().map_err(e)?)
        }
        "auth" => {
            let mut b = v5_0::Auth::builder();
            if let Some(x) = p.rc {
                b = b.reason_code(rc!(AuthReasonCode, x));
            }
            pr!(b);
            V5_0Auth(b.build().map_err(e)?)
        }
        _ => return Err("kind".into()),
    })
}

// ---------------------------------------------------------------- describing through the accessors
pub fn describe<P: Pid>(g: &GenericPacket<P>) -> Pk
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    use GenericPacket::*;
    let v = if g.protocol_version() == Version::V3_1_1 { 3 } else { 5 };
    let mut d = Pk { v, k: kind_of(g.packet_type() as u8).unwrap(), ..Default::default() };
    macro_rules! ack3 {
        ($p:expr) => {{
            d.id = $p.packet_id().u();
            d.rc = $p.reason_code().map(|x| x as u8);
        }};
    }
    macro_rules! ack5 {
        ($p:expr) => {{
            d.id = $p.packet_id().u();
            d.rc = $p.reason_code().map(|x| x as u8);
            d.props = $p.props().as_ref().map(de_props);
        }};
    }
    macro_rules! conn {
        ($p:expr, $wp:expr) => {{
            d.clean = $p.clean_start();
            d.ka = $p.keep_alive();
            d.cid = $p.client_id().as_bytes().to_vec();
            if $p.will_flag() {
                d.will = Some(Will {
                    topic: $p.will_topic().unwrap_or("\u{0}none").as_bytes().to_vec(),
                    payload: $p.will_payload().unwrap_or(b"\0none").to_vec(),
                    qos: $p.will_qos() as u8,
                    retain: $p.will_retain(),
                    props: $wp,
                });
            }
            if $p.user_name_flag() {
                d.user = Some($p.user_name().unwrap_or("\u{0}none").as_bytes().to_vec());
            }
            if $p.password_flag() {
                d.pass = Some($p.password().unwrap_or(b"\0none").to_vec());
            }
        }};
    }
    match g {
        V3_1_1Connect(p) => conn!(p, vec![]),
        V5_0Connect(p) => {
            conn!(p, de_props(p.will_props()));
            d.props = Some(de_props(p.props()));
        }
        V3_1_1Connack(p) => {
            d.sp = p.session_present();
            d.rc = Some(p.return_code() as u8);
        }
        V5_0Connack(p) => {
            d.sp = p.session_present();
            d.rc = Some(p.reason_code() as u8);
            d.props = Some(de_props(p.props()));
        }
        V3_1_1Publish(p) => {
            d.id = p.packet_id().map(|x| x.u()).unwrap_or(0);
            d.qos = p.qos() as u8;
            d.dup = p.dup();
            d.retain = p.retain();
            d.topic = p.topic_name().as_bytes().to_vec();
            d.payload = p.payload().as_slice().to_vec();
        }
        V5_0Publish(p) => {
            d.id = p.packet_id().map(|x| x.u()).unwrap_or(0);
            d.qos = p.qos() as u8;
            d.dup = p.dup();
            d.retain = p.retain();
            d.topic = p.topic_name().as_bytes().to_vec();
            d.payload = p.payload().as_slice().to_vec();
            d.props = Some(de_props(p.props()));
            d.xt = p.topic_name_extracted();
        }
        V3_1_1Puback(p) => ack3!(p),
        V3_1_1Pubrec(p) => ack3!(p),
        V3_1_1Pubrel(p) => ack3!(p),
        V3_1_1Pubcomp(p) => ack3!(p),
        V5_0Puback(p) => ack5!(p),
        V5_0Pubrec(p) => ack5!(p),
        V5_0Pubrel(p) => ack5!(p),
        V5_0Pubcomp(p) => ack5!(p),
        V3_1_1Subscribe(p) => {
            d.id = p.packet_id().u();
            d.subs = p.entries().iter().map(sub).collect();
        }
        V5_0Subscribe(p) => {
            d.id = p.packet_id().u();
            d.props = Some(de_props(p.props()));
            d.subs = p.entries().iter().map(sub).collect();
        }
        V3_1_1Suback(p) => {
            d.id = p.packet_id().u();
            d.rcs = p.return_codes().iter().map(|x| *x as u8).collect();
        }
        V5_0Suback(p) => {
            d.id = p.packet_id().u();
            d.props = Some(de_props(p.props()));
            d.rcs = p.reason_codes().iter().map(|x| *x as u8).collect();
        }
        V3_1_1Unsubscribe(p) => {
            d.id = p.packet_id().u();
            d.topics = p.entries().iter().map(|x| x.as_str().as_bytes().to_vec()).collect();
        }
        V5_0Unsubscribe(p) => {
            d.id = p.packet_id().u();
            d.props = Some(de_props(p.props()));
            d.topics = p.entries().iter().map(|x| x.as_str().as_bytes().to_vec()).collect();
        }
        V3_1_1Unsuback(p) => d.id = p.packet_id().u(),
        V5_0Unsuback(p) => {
            d.id = p.packet_id().u();
            d.props = Some(de_props(p.props()));
            d.rcs = p.reason_codes().iter().map(|x| *x as u8).collect();
        }
        V5_0Disconnect(p) => {
            d.rc = p.reason_code().map(|x| x as u8);
            d.props = p.props().as_ref().map(de_props);
        }
        V5_0Auth(p) => {
            d.rc = p.reason_code().map(|x| x as u8);
            d.props = p.props().as_ref().map(de_props);
        }
        _ => {}
    }
    d
}
fn sub(x: &SubEntry) -> (Vec<u8>, u8) {
    let o = x.sub_opts();
    (
        x.topic_filter().as_bytes().to_vec(),
        o.qos() as u8 | if o.nl() { 4 } else { 0 } | if o.rap() { 8 } else { 0 } | ((o.rh() as u8) << 4),
    )
}

// ---------------------------------------------------------------- parsing through the library's packet parsers
/// Parses `body` as the packet kind in the header byte. Err carries the library's error name.
pub fn parse<P: Pid>(v: u8, header: u8, body: &[u8]) -> Result<(GenericPacket<P>, usize), String>
where
    <P as IsPacketId>::Buffer: std::fmt::Debug,
{
    use GenericPacket::*;
    macro_rules! b {
        ($var:ident, $t:ty) => {
            <$t>::parse(body).map(|(p, n)| ($var(p), n)).map_err(e)
        };
    }
    match (v, header >> 4) {
        (3, 1) => b!(V3_1_1Connect, v3_1_1::Connect),
        (3, 2) => b!(V3_1_1Connack, v3_1_1::Connack),
        (3, 3) => v3_1_1::GenericPublish::<P>::parse(header & 0x0f, Arc::from(body))
            .map(|(p, n)| (V3_1_1Publish(p), n))
            .map_err(e),
        (3, 4) => b!(V3_1_1Puback, v3_1_1::GenericPuback<P>),
        (3, 5) => b!(V3_1_1Pubrec, v3_1_1::GenericPubrec<P>),
        (3, 6) => b!(V3_1_1Pubrel, v3_1_1::GenericPubrel<P>),
        (3, 7) => b!(V3_1_1Pubcomp, v3_1_1::GenericPubcomp<P>),
        (3, 8) => b!(V3_1_1Subscribe, v3_1_1::GenericSubscribe<P>),
        (3, 9) => b!(V3_1_1Suback, v3_1_1::GenericSuback<P>),
        (3, 10) => b!(V3_1_1Unsubscribe, v3_1_1::GenericUnsubscribe<P>),
        (3, 11) => b!(V3_1_1Unsuback, v3_1_1::GenericUnsuback<P>),
        (3, 12) => b!(V3_1_1Pingreq, v3_1_1::Pingreq),
        (3, 13) => b!(V3_1_1Pingresp, v3_1_1::Pingresp),
        (3, 14) => b!(V3_1_1Disconnect, v3_1_1::Disconnect),
        (5, 1) => b!(V5_0Connect, v5_0::Connect),
        (5, 2) => b!(V5_0Connack, v5_0::Connack),
        (5, 3) => v5_0::GenericPublish::<P>::parse(header & 0x0f, Arc::from(body))
            .map(|(p, n)| (V5_0Publish(p), n))
            .map_err(e),
        (5, 4) => b!(V5_0Puback, v5_0::GenericPuback<P>),
        (5, 5) => b!(V5_0Pubrec, v5_0::GenericPubrec<P>),
        (5, 6) => b!(V5_0Pubrel, v5_0::GenericPubrel<P>),
        (5, 7) => b!(V5_0Pubcomp, v5_0::GenericPubcomp<P>),
        (5, 8) => b!(V5_0Subscribe, v5_0::GenericSubscribe<P>),
        (5, 9) => b!(V5_0Suback, v5_0::GenericSuback<P>),
        (5, 10) => b!(V5_0Unsubscribe, v5_0::GenericUnsubscribe<P>),
        (5, 11) => b!(V5_0Unsuback, v5_0::GenericUnsuback<P>),
        (5, 12) => b!(V5_0Pingreq, v5_0::Pingreq),
        (5, 13) => b!(V5_0Pingresp, v5_0::Pingresp),
        (5, 14) => b!(V5_0Disconnect, v5_0::Disconnect),
        (5, 15) => b!(V5_0Auth, v5_0::Auth),
        _ => Err("kind".into()),
    }
}

// ---------------------------------------------------------------- JSON
pub fn hex(b: &[u8]) -> String {
    let mut o = String::with_capacity(b.len() * 2);
    for x in b {
        o.push_str(&format!("{x:02x}"));
    }
    o
}
pub fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// run-length encoded bytes [[b,n],..]
pub fn rle(b: &[u8]) -> Value {
    let mut o: Vec<(u8, usize)> = vec![];
    for x in b {
        match o.last_mut() {
            Some((y, n)) if y == x => *n += 1,
            _ => o.push((*x, 1)),
        }
    }
    json!(o)
}
