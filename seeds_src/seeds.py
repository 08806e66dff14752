SEEDS = {}
def S(i, prop, needs, breaks, code):
    SEEDS[i] = (prop, needs, breaks, "fn main() {\n" + code + "\n}\n")

S("c05b", "C05", "a packet that cannot be accepted arrives while the v5.0 connection is not (or no longer) established",
  "the packet is neither delivered nor reported as an error",
  """
    let mut c = Cl::new(5);
    c.send(&connect(5, true, 0, &[]));
    c.recv(&connack(5, false, 0, &[]));
    c.closed();
    let e = c.recv(&[0x40, 1, 0]); // truncated PUBACK
    assert!(has(&e, "err:*"), "{:?}", e);
""")
S("c06b", "C06", "a stored PUBLISH whose size is exactly the Maximum Packet Size of the resumed connection",
  "the packet is dropped from the store on reconnection instead of being sent again",
  """
    let mut c = Cl::new(5);
    c.send(&connect(5, false, 0, &SEI));
    c.recv(&connack(5, false, 0, &[]));
    let i = c.id();
    let p = publish(5, 1, false, "topic", i, &[], "0123456789");
    assert!(has(&c.send(&p), &s(&p)));
    c.closed();
    c.send(&connect(5, false, 0, &SEI));
    let e = c.recv(&connack(5, true, 0, &[0x27, 0, 0, 0, p.len() as u8]));
    assert!(has(&e, &s(&publish(5, 1, true, "topic", i, &[], "0123456789"))), "{:?}", e);
    assert_eq!(c.stored().len(), 1);
""")
S("c06c", "C06", "an acknowledgement removes a stored packet that is neither the last nor the only one, with at least two packets behind it",
  "the order of the stored packets changes, and with it the order in which they are sent again",
  """
    let mut c = Cl::new(4);
    c.send(&connect(4, false, 0, &[]));
    c.recv(&connack(4, false, 0, &[]));
    let mut v = vec![];
    for _ in 0..4 {
        let i = c.id();
        c.send(&publish(4, 1, false, "t", i, &[], "x"));
        v.push(i);
    }
    c.recv(&ack(0x40, v[0]));
    c.closed();
    c.send(&connect(4, false, 0, &[]));
    let e = c.recv(&connack(4, true, 0, &[]));
    let want: Vec<String> = v[1..].iter().map(|i| s(&publish(4, 1, true, "t", *i, &[], "x"))).collect();
    let got: Vec<String> = e.into_iter().filter(|x| x.starts_with("S:")).collect();
    assert_eq!(got, want);
""")
S("c06d", "C06", "the application erases a stored PUBLISH that has at least two packets behind it",
  "the order of the stored packets changes, and with it the order in which they are sent again",
  """
    let mut c = Cl::new(4);
    c.send(&connect(4, false, 0, &[]));
    c.recv(&connack(4, false, 0, &[]));
    let mut v = vec![];
    for _ in 0..4 {
        let i = c.id();
        c.send(&publish(4, 2, false, "t", i, &[], "x"));
        v.push(i);
    }
    show(c.0.erase_stored_publish(v[0]));
    c.closed();
    c.send(&connect(4, false, 0, &[]));
    let e = c.recv(&connack(4, true, 0, &[]));
    let want: Vec<String> = v[1..].iter().map(|i| s(&publish(4, 2, true, "t", *i, &[], "x"))).collect();
    let got: Vec<String> = e.into_iter().filter(|x| x.starts_with("S:")).collect();
    assert_eq!(got, want);
""")
S("c07a", "C07", "automatic responses off and PUBREL received: the identifier stays recorded and a new message that reuses it is taken for a retransmission",
  "a new QoS 2 message is not delivered",
  """
    for v in [4, 5] {
        let mut c = Cl::new(v);
        c.send(&connect(v, true, 0, &[]));
        c.recv(&connack(v, false, 0, &[]));
        let p = publish(v, 2, false, "t", 7, &[], "one");
        assert!(has(&c.recv(&p), &r(&p)));
        c.send(&ack(0x50, 7));
        c.recv(&ack(0x62, 7));
        c.send(&ack(0x70, 7));
        let p = publish(v, 2, false, "t", 7, &[], "two");
        assert!(has(&c.recv(&p), &r(&p)), "v{}", v);
    }
""")
S("c07c", "C07", "a QoS 2 PUBLISH repeated before its PUBREL with the DUP bit clear (v3.1.1)",
  "the same message is delivered twice",
  """
    let mut c = Cl::new(4);
    c.0.set_auto_pub_response(true);
    c.send(&connect(4, true, 0, &[]));
    c.recv(&connack(4, false, 0, &[]));
    let p = publish(4, 2, false, "t", 7, &[], "one");
    assert!(has(&c.recv(&p), &r(&p)));
    let e = c.recv(&p);
    assert!(!has(&e, "R:*"), "{:?}", e);
""")
S("c07d", "C07", "the application refuses, after a reconnection, a QoS 2 message that was delivered before it",
  "the refused identifier stays recorded, and the next message that uses it is not delivered",
  """
    let mut c = Cl::new(5);
    c.send(&connect(5, false, 0, &SEI));
    c.recv(&connack(5, false, 0, &[]));
    let p = publish(5, 2, false, "t", 7, &[], "one");
    assert!(has(&c.recv(&p), &r(&p)));
    c.closed();
    c.send(&connect(5, false, 0, &SEI));
    c.recv(&connack(5, true, 0, &[]));
    c.send(&ackrc(0x50, 7, 0x80));
    assert!(c.0.get_qos2_publish_handled().is_empty());
    let p = publish(5, 2, false, "t", 7, &[], "two");
    let e = c.recv(&p);
    assert!(has(&e, &r(&p)), "{:?}", e);
""")
S("c08c", "C08", "the highest packet identifier is requested or registered",
  "one identifier of the range can never be used",
  """
    let mut c = Cl::new(5);
    assert!(c.0.register_packet_id(65535).is_ok());
    let mut n = 1;
    while c.0.acquire_packet_id().is_ok() {
        n += 1;
    }
    assert_eq!(n, 65535);
""")
S("c08d", "C06", "the application erases a stored QoS 2 PUBLISH, the identifier is used again for a QoS 1 PUBLISH, and a late PUBREC arrives",
  "the late PUBREC releases or rewrites an identifier that belongs to another exchange",
  """
    let mut c = Cl::new(5);
    c.send(&connect(5, false, 0, &SEI));
    c.recv(&connack(5, false, 0, &[]));
    let i = c.id();
    c.send(&publish(5, 2, false, "t", i, &[], "x"));
    show(c.0.erase_stored_publish(i));
    assert!(c.0.register_packet_id(i).is_ok());
    c.send(&publish(5, 1, false, "t", i, &[], "x"));
    let e = c.recv(&ackrc(0x50, i, 0x80));
    assert!(!has(&e, "rel:*"), "{:?}", e);
    assert!(c.used(i));
""")
S("c09a", "C09", "an over-long Remaining Length is followed by another packet on the same connection object",
  "the length of the following packet is added to the remains of the rejected one, so the framing of the next connection's stream is wrong",
  """
    let mut c = Cl::new(4);
    let e = c.recv(&[0x30, 0x81, 0x82, 0x83, 0x84]);
    assert!(has(&e, "err:*"), "{:?}", e);
    let mut c2 = Cl::new(4);
    for c in [&mut c, &mut c2] {
        c.send(&connect(4, true, 0, &[]));
        let e = c.recv(&connack(4, false, 0, &[]));
        assert!(has(&e, &r(&connack(4, false, 0, &[]))), "{:?}", e);
    }
""")
S("c09d", "C09", "a packet without a body is followed by another packet in the same buffer",
  "one call consumes two packets, so the events depend on how the stream was split",
  """
    let mut c = Cl::new(4);
    c.send(&connect(4, true, 0, &[]));
    c.recv(&connack(4, false, 0, &[]));
    let p = publish(4, 0, false, "t", 0, &[], "x");
    let mut b = vec![0xd0, 0];
    b.extend(&p);
    let mut cur = mqtt_protocol_core::mqtt::common::Cursor::new(&b[..]);
    let e = show(c.0.recv(&mut cur));
    assert_eq!(cur.position(), 2);
    assert!(!has(&e, &r(&p)));
    assert!(has(&show(c.0.recv(&mut cur)), &r(&p)));
""")
S("c10c", "C10", "a QoS 2 exchange waits for PUBCOMP when a clean session starts, and the identifier is used again",
  "an acknowledgement of the discarded exchange is accepted in the new session and frees an identifier that is in use",
  """
    let mut c = Cl::new(4);
    c.send(&connect(4, false, 0, &[]));
    c.recv(&connack(4, false, 0, &[]));
    let i = c.id();
    c.send(&publish(4, 2, false, "t", i, &[], "x"));
    c.recv(&ack(0x50, i));
    c.send(&ack(0x62, i));
    c.closed();
    c.send(&connect(4, true, 0, &[]));
    c.recv(&connack(4, false, 0, &[]));
    assert!(c.0.register_packet_id(i).is_ok());
    c.send(&subscribe(4, i));
    let e = c.recv(&ack(0x70, i));
    assert!(!has(&e, "rel:*"), "{:?}", e);
""")
S("c11b", "C11", "a PUBCOMP is refused because it exceeds the peer's Maximum Packet Size",
  "the refused send changes state: the peer's quota is given back although the exchange is not complete",
  """
    let mut c = Cl::new(5);
    c.send(&connect(5, true, 0, &[0x21, 0, 1]));
    c.recv(&connack(5, false, 0, &[0x27, 0, 0, 0, 10]));
    c.recv(&publish(5, 2, false, "t", 7, &[], "x"));
    c.send(&ack(0x50, 7));
    c.recv(&ack(0x62, 7));
    let mut b = vec![0, 7, 0, 23, 0x1f, 0, 20];
    b.extend([b'x'; 20]);
    let e = c.send(&fr(0x70, &b));
    assert!(has(&e, "err:PacketTooLarge"), "{:?}", e);
    let p = publish(5, 1, false, "t", 8, &[], "x");
    let e = c.recv(&p);
    assert!(!has(&e, &r(&p)), "{:?}", e);
""")
S("c12b", "C12", "the application refuses a QoS 2 message with an error PUBREC and the peer then uses the quota it got back",
  "the quota is not given back: the peer's next message is answered with 'receive maximum exceeded'",
  """
    let mut c = Cl::new(5);
    c.send(&connect(5, true, 0, &[0x21, 0, 1]));
    c.recv(&connack(5, false, 0, &[]));
    c.recv(&publish(5, 2, false, "t", 7, &[], "x"));
    c.send(&ackrc(0x50, 7, 0x80));
    let p = publish(5, 1, false, "t", 8, &[], "x");
    let e = c.recv(&p);
    assert!(has(&e, &r(&p)), "{:?}", e);
""")
S("c12c", "C12", "the only PUBLISH in flight is erased by the application",
  "the quota it held is never given back",
  """
    let mut c = Cl::new(5);
    c.send(&connect(5, false, 0, &SEI));
    c.recv(&connack(5, false, 0, &[0x21, 0, 1]));
    let i = c.id();
    c.send(&publish(5, 1, false, "t", i, &[], "x"));
    assert_eq!(c.0.get_receive_maximum_vacancy_for_send(), Some(0));
    show(c.0.erase_stored_publish(i));
    assert_eq!(c.0.get_receive_maximum_vacancy_for_send(), Some(1));
""")
S("c13b", "C13", "one topic holds two aliases, the one that was registered later is given to another topic, then the earlier one too, and automatic replacement is on",
  "a PUBLISH goes out with an alias that stands for another topic",
  """
    let mut c = Cl::new(5);
    c.send(&connect(5, true, 0, &[]));
    c.recv(&connack(5, false, 0, &[0x22, 0, 5]));
    for (t, a) in [("A", 1), ("A", 2), ("B", 2), ("B", 1)] {
        c.send(&publish(5, 0, false, t, 0, &[0x23, 0, a], "x"));
    }
    c.0.set_auto_replace_topic_alias_send(true);
    let p = publish(5, 0, false, "A", 0, &[], "x");
    let e = c.send(&p);
    assert!(has(&e, &s(&p)), "{:?}", e);
""")
S("c17b", "C17", "a CONNECT whose protocol level has its top bit set reaches a connection of undetermined version, and the object is used again",
  "the unsupported protocol level is adopted as v3.1.1 or v5.0, and a later CONNECT of the other version is refused",
  """
    for lv in [4u8, 5] {
        let mut c = Sv::new(0);
        let mut p = connect(lv, true, 0, &[]);
        p[8] |= 0x80;
        let e = c.recv(&p);
        assert!(has(&e, "err:*") && !has(&e, "R:*"), "{:?}", e);
        c.closed();
        let p = connect(9 - lv, true, 0, &[]);
        let e = c.recv(&p);
        assert!(has(&e, &r(&p)), "{:?}", e);
    }
""")
S("c15a", "C15", "PINGRESP arrives while the PINGRESP timer is armed, and the connection then goes on",
  "the timer is treated as armed after it was cancelled, so it is cancelled again at the next opportunity",
  """
    let mut c = Cl::new(4);
    c.0.set_pingresp_recv_timeout(1000);
    c.send(&connect(4, true, 10, &[]));
    c.recv(&connack(4, false, 0, &[]));
    assert!(has(&c.send(&[0xc0, 0]), "set:PingrespRecv:*"));
    assert!(has(&c.recv(&[0xd0, 0]), "cancel:PingrespRecv"));
    let e = c.recv(&[0xd0, 0]);
    assert!(!has(&e, "cancel:PingrespRecv"), "{:?}", e);
    let e = c.closed();
    assert!(!has(&e, "cancel:PingrespRecv"), "{:?}", e);
""")
