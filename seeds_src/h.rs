// Helper for the demonstrations: one endpoint driven with raw packets, events as short strings.
#![allow(dead_code)]
use mqtt_protocol_core::mqtt;
use mqtt::common::Cursor;
use mqtt::connection::prelude::*;
use mqtt::connection::role::{Client, Server};
use mqtt::packet::prelude::*;
use mqtt::packet::*;
pub fn vbi(mut n: usize) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        o.push(if n > 0 { b | 128 } else { b });
        if n == 0 {
            return o;
        }
    }
}
pub fn fr(h: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![h];
    o.extend(vbi(body.len()));
    o.extend(body);
    o
}
pub fn st(s: &str) -> Vec<u8> {
    let mut o = vec![(s.len() >> 8) as u8, s.len() as u8];
    o.extend(s.as_bytes());
    o
}
pub fn pr(v: u8, p: &[u8]) -> Vec<u8> {
    if v == 5 {
        let mut o = vbi(p.len());
        o.extend(p);
        o
    } else {
        vec![]
    }
}
/// v: 4 or 5
pub fn connect(v: u8, clean: bool, ka: u16, p: &[u8]) -> Vec<u8> {
    let mut b = st("MQTT");
    b.extend([v, if clean { 2 } else { 0 }, (ka >> 8) as u8, ka as u8]);
    b.extend(pr(v, p));
    b.extend(st("c"));
    fr(0x10, &b)
}
pub fn connack(v: u8, sp: bool, rc: u8, p: &[u8]) -> Vec<u8> {
    let mut b = vec![sp as u8, rc];
    b.extend(pr(v, p));
    fr(0x20, &b)
}
pub fn publish(v: u8, q: u8, dup: bool, t: &str, id: u16, p: &[u8], pay: &str) -> Vec<u8> {
    let mut b = st(t);
    if q > 0 {
        b.extend([(id >> 8) as u8, id as u8]);
    }
    b.extend(pr(v, p));
    b.extend(pay.as_bytes());
    fr(0x30 | (dup as u8) << 3 | q << 1, &b)
}
/// h: 0x40 PUBACK 0x50 PUBREC 0x62 PUBREL 0x70 PUBCOMP
pub fn ack(h: u8, id: u16) -> Vec<u8> {
    fr(h, &[(id >> 8) as u8, id as u8])
}
pub fn ackrc(h: u8, id: u16, rc: u8) -> Vec<u8> {
    fr(h, &[(id >> 8) as u8, id as u8, rc])
}
pub fn subscribe(v: u8, id: u16) -> Vec<u8> {
    let mut b = vec![(id >> 8) as u8, id as u8];
    b.extend(pr(v, &[]));
    b.extend(st("a"));
    b.push(0);
    fr(0x82, &b)
}
pub fn unsubscribe(v: u8, id: u16) -> Vec<u8> {
    let mut b = vec![(id >> 8) as u8, id as u8];
    b.extend(pr(v, &[]));
    b.extend(st("a"));
    fr(0xa2, &b)
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn body(b: &[u8]) -> &[u8] {
    let mut i = 1;
    while b[i] & 128 != 0 {
        i += 1;
    }
    &b[i + 1..]
}
pub fn parse(v: u8, b: &[u8]) -> GenericPacket<u16> {
    let d = body(b);
    macro_rules! p { ($k:ident) => { if v == 5 { v5_0::$k::parse(d).unwrap().0.into() } else { v3_1_1::$k::parse(d).unwrap().0.into() } } }
    match b[0] >> 4 {
        1 => p!(Connect),
        2 => p!(Connack),
        3 => {
            if v == 5 { v5_0::Publish::parse(b[0] & 15, d.into()).unwrap().0.into() } else { v3_1_1::Publish::parse(b[0] & 15, d.into()).unwrap().0.into() }
        }
        4 => p!(Puback),
        5 => p!(Pubrec),
        6 => p!(Pubrel),
        7 => p!(Pubcomp),
        8 => p!(Subscribe),
        9 => p!(Suback),
        10 => p!(Unsubscribe),
        11 => p!(Unsuback),
        12 => p!(Pingreq),
        13 => p!(Pingresp),
        14 => p!(Disconnect),
        _ => v5_0::Auth::parse(d).unwrap().0.into(),
    }
}
pub fn show(e: Vec<GenericEvent<u16>>) -> Vec<String> {
    e.into_iter()
        .map(|e| match e {
            GenericEvent::NotifyPacketReceived(p) => format!("R:{}", hex(&p.to_continuous_buffer())),
            GenericEvent::RequestSendPacket { packet, .. } => format!("S:{}", hex(&packet.to_continuous_buffer())),
            GenericEvent::NotifyPacketIdReleased(i) => format!("rel:{}", i),
            GenericEvent::RequestTimerReset { kind, duration_ms } => format!("set:{:?}:{}", kind, duration_ms),
            GenericEvent::RequestTimerCancel(k) => format!("cancel:{:?}", k),
            GenericEvent::NotifyError(e) => format!("err:{:?}", e),
            GenericEvent::RequestClose => "close".into(),
        })
        .collect()
}
pub fn s(b: &[u8]) -> String {
    format!("S:{}", hex(b))
}
pub fn r(b: &[u8]) -> String {
    format!("R:{}", hex(b))
}
pub fn has(e: &[String], x: &str) -> bool {
    e.iter().any(|y| y == x || (x.ends_with('*') && y.starts_with(&x[..x.len() - 1])))
}
macro_rules! ep {
    ($n:ident, $role:ty) => {
        pub struct $n(pub GenericConnection<$role, u16>, pub u8);
        impl $n {
            pub fn new(v: u8) -> Self {
                $n(GenericConnection::new(if v == 5 { mqtt::Version::V5_0 } else if v == 0 { mqtt::Version::Undetermined } else { mqtt::Version::V3_1_1 }), v)
            }
            pub fn send(&mut self, b: &[u8]) -> Vec<String> {
                let p = parse(self.1, b);
                show(self.0.send(p))
            }
            pub fn recv(&mut self, b: &[u8]) -> Vec<String> {
                let mut c = Cursor::new(b);
                let mut o = vec![];
                while (c.position() as usize) < b.len() {
                    o.extend(show(self.0.recv(&mut c)));
                }
                o
            }
            pub fn closed(&mut self) -> Vec<String> {
                show(self.0.notify_closed())
            }
            pub fn timer(&mut self, k: TimerKind) -> Vec<String> {
                show(self.0.notify_timer_fired(k))
            }
            pub fn id(&mut self) -> u16 {
                self.0.acquire_packet_id().unwrap()
            }
            pub fn used(&mut self, i: u16) -> bool {
                if self.0.register_packet_id(i).is_ok() {
                    self.0.release_packet_id(i);
                    false
                } else {
                    true
                }
            }
            pub fn stored(&self) -> Vec<String> {
                self.0.get_stored_packets().into_iter().map(|p| hex(&GenericPacket::from(p).to_continuous_buffer())).collect()
            }
        }
    };
}
ep!(Cl, Client);
ep!(Sv, Server);
pub use mqtt::connection::GenericConnection;
/// the session expiry property
pub const SEI: [u8; 5] = [0x11, 0, 0, 1, 0];
