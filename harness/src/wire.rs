//! Independent MQTT v5 model: an encoder for everything a server may send and a strict
//! decoder for everything this client may send. Written from the OASIS text, sharing no
//! code with the crate under test.

#[derive(Clone, Debug, PartialEq)]
pub enum Prop {
    Pfi(u8),
    Expiry(u32),
    RespTopic(String),
    Corr(Vec<u8>),
    User(String, String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum AckProp {
    Reason(String),
    User(String, String),
}

pub fn put_vbi(out: &mut Vec<u8>, mut n: usize) {
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            out.push(b | 0x80);
        } else {
            out.push(b);
            return;
        }
    }
}
pub fn vbi(n: usize) -> Vec<u8> {
    let mut v = vec![];
    put_vbi(&mut v, n);
    v
}
pub fn put_bin(out: &mut Vec<u8>, b: &[u8]) {
    assert!(b.len() <= 65535, "model asked to encode an oversize string");
    out.extend_from_slice(&(b.len() as u16).to_be_bytes());
    out.extend_from_slice(b);
}
pub fn enc_prop(out: &mut Vec<u8>, p: &Prop) {
    match p {
        Prop::Pfi(v) => out.extend_from_slice(&[0x01, *v]),
        Prop::Expiry(v) => {
            out.push(0x02);
            out.extend_from_slice(&v.to_be_bytes());
        }
        Prop::RespTopic(s) => {
            out.push(0x08);
            put_bin(out, s.as_bytes());
        }
        Prop::Corr(b) => {
            out.push(0x09);
            put_bin(out, b);
        }
        Prop::User(k, v) => {
            out.push(0x26);
            put_bin(out, k.as_bytes());
            put_bin(out, v.as_bytes());
        }
    }
}
pub fn enc_ack_prop(out: &mut Vec<u8>, p: &AckProp) {
    match p {
        AckProp::Reason(s) => {
            out.push(0x1F);
            put_bin(out, s.as_bytes());
        }
        AckProp::User(k, v) => {
            out.push(0x26);
            put_bin(out, k.as_bytes());
            put_bin(out, v.as_bytes());
        }
    }
}
pub fn enc_ack_props(out: &mut Vec<u8>, ps: &[AckProp]) {
    let mut b = vec![];
    for p in ps {
        enc_ack_prop(&mut b, p);
    }
    put_vbi(out, b.len());
    out.extend_from_slice(&b);
}
pub fn enc_props(out: &mut Vec<u8>, ps: &[Prop]) {
    let mut b = vec![];
    for p in ps {
        enc_prop(&mut b, p);
    }
    put_vbi(out, b.len());
    out.extend_from_slice(&b);
}

#[derive(Clone, Debug, PartialEq)]
pub struct SPublish {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub id: u16,
    pub props: Vec<Prop>,
    pub payload: Vec<u8>,
}

/// Packets a server sends.
#[derive(Clone, Debug, PartialEq)]
pub enum SPkt {
    Connack { sp: bool, reason: u8, props: Vec<AckProp> },
    Publish(SPublish),
    /// reason None: two-byte form; props None: no property length
    Puback { id: u16, reason: Option<u8>, props: Option<Vec<AckProp>> },
    Suback { id: u16, reason: u8, props: Vec<AckProp> },
    Unsuback { id: u16, reason: u8, props: Vec<AckProp> },
    Pingresp,
    Disconnect { reason: Option<u8>, props: Option<Vec<AckProp>> },
    Raw(Vec<u8>),
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(body.len() + 5);
    v.push(first);
    put_vbi(&mut v, body.len());
    v.extend_from_slice(body);
    v
}

impl SPkt {
    pub fn ok_connack() -> SPkt {
        SPkt::Connack { sp: false, reason: 0, props: vec![] }
    }
    pub fn fence(id: u16) -> SPkt {
        SPkt::Publish(SPublish { dup: false, qos: 1, retain: false, topic: "fence".into(), id, props: vec![], payload: vec![] })
    }
    pub fn puback(id: u16) -> SPkt {
        SPkt::Puback { id, reason: None, props: None }
    }
    pub fn first_and_body(&self) -> (u8, Vec<u8>) {
        let mut b = vec![];
        let f = match self {
            SPkt::Connack { sp, reason, props } => {
                b.push(*sp as u8);
                b.push(*reason);
                enc_ack_props(&mut b, props);
                0x20
            }
            SPkt::Publish(p) => {
                put_bin(&mut b, p.topic.as_bytes());
                if p.qos > 0 {
                    b.extend_from_slice(&p.id.to_be_bytes());
                }
                enc_props(&mut b, &p.props);
                b.extend_from_slice(&p.payload);
                0x30 | (p.dup as u8) << 3 | p.qos << 1 | p.retain as u8
            }
            SPkt::Puback { id, reason, props } => {
                b.extend_from_slice(&id.to_be_bytes());
                if let Some(r) = reason {
                    b.push(*r);
                    if let Some(ps) = props {
                        enc_ack_props(&mut b, ps);
                    }
                }
                0x40
            }
            SPkt::Suback { id, reason, props } | SPkt::Unsuback { id, reason, props } => {
                b.extend_from_slice(&id.to_be_bytes());
                enc_ack_props(&mut b, props);
                b.push(*reason);
                if matches!(self, SPkt::Suback { .. }) {
                    0x90
                } else {
                    0xB0
                }
            }
            SPkt::Pingresp => 0xD0,
            SPkt::Disconnect { reason, props } => {
                if let Some(r) = reason {
                    b.push(*r);
                    if let Some(ps) = props {
                        enc_ack_props(&mut b, ps);
                    }
                }
                0xE0
            }
            SPkt::Raw(_) => unreachable!(),
        };
        (f, b)
    }
    pub fn encode(&self) -> Vec<u8> {
        if let SPkt::Raw(v) = self {
            return v.clone();
        }
        let (f, b) = self.first_and_body();
        frame(f, &b)
    }
}

pub const CONNACK_REASONS: &[(u8, &str)] = &[
    (0, "Success"), (128, "UnspecifiedError"), (129, "MalformedPacket"), (130, "ProtocolError"),
    (131, "ImplementationSpecificError"), (132, "UnsupportedProtocolVersion"), (133, "ClientIdentifierNotValid"),
    (134, "BadUserNameOrPassword"), (135, "NotAuthorized"), (136, "ServerUnavailable"), (137, "ServerBusy"),
    (138, "Banned"), (140, "BadAuthenticationMethod"), (144, "TopicNameInvalid"), (149, "PacketTooLarge"),
    (151, "QuotaExceeded"), (153, "PayloadFormatInvalid"), (154, "RetainNotSupported"), (155, "QoSNotSupported"),
    (156, "UseAnotherServer"), (157, "ServerMoved"), (159, "ConnectionRateExceeded"),
];
pub const SUBACK_REASONS: &[(u8, &str)] = &[
    (0, "QoS0"), (1, "QoS1"), (2, "QoS2"), (128, "UnspecifiedError"), (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"), (143, "TopicFilterInvalid"), (145, "PacketIdentifierInUse"), (151, "QuotaExceeded"),
    (158, "SharedSubsNotSupported"), (161, "SubIdsNotSupported"), (162, "WildcardSubsNotSupported"),
];
pub const UNSUBACK_REASONS: &[(u8, &str)] = &[
    (0, "Success"), (17, "NoSubscriptionExisted"), (128, "UnspecifiedError"), (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"), (143, "TopicFilterInvalid"), (145, "PacketIdentifierInUse"),
];
pub const PUBACK_REASONS: &[u8] = &[0, 16, 128, 131, 135, 144, 145, 151, 153];
/// Reasons a server may give in DISCONNECT (0 normal; 4 is client-only).
pub const DISCONNECT_REASONS: &[u8] = &[
    0, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157,
    158, 159, 160, 161, 162,
];

/// Packets this client sends.
#[derive(Clone, Debug, PartialEq)]
pub enum CPkt {
    Connect { clean: bool, keep_alive: u16, client_id: String, flags: u8 },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, id: u16, props: Vec<Prop>, payload: Vec<u8> },
    Puback { id: u16, reason: u8 },
    Subscribe { id: u16, filters: Vec<(String, u8)> },
    Unsubscribe { id: u16, filters: Vec<String> },
    Pingreq,
    Disconnect { reason: u8 },
}

impl CPkt {
    pub fn brief(&self) -> String {
        match self {
            CPkt::Publish { qos, topic, id, props, payload, .. } => {
                format!("PUBLISH qos={} id={} topic={} props={} payload={}B", qos, id, clip(topic), props.len(), payload.len())
            }
            CPkt::Subscribe { id, filters } => format!("SUBSCRIBE id={} {}", id, clip(&format!("{:?}", filters))),
            CPkt::Unsubscribe { id, filters } => format!("UNSUBSCRIBE id={} {}", id, clip(&format!("{:?}", filters))),
            x => format!("{:?}", x),
        }
    }
    pub fn needs_id(&self) -> Option<u16> {
        match self {
            CPkt::Publish { qos, id, .. } if *qos > 0 => Some(*id),
            CPkt::Subscribe { id, .. } | CPkt::Unsubscribe { id, .. } => Some(*id),
            _ => None,
        }
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 40 {
        let t: String = s.chars().take(40).collect();
        format!("{:?}..({}B)", t, s.len())
    } else {
        format!("{:?}", s)
    }
}

struct Rd<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> Rd<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.at
    }
    fn take(&mut self, n: usize, what: &str) -> Result<&'a [u8], String> {
        if self.left() < n {
            return Err(format!("{} overruns the packet", what));
        }
        let s = &self.b[self.at..self.at + n];
        self.at += n;
        Ok(s)
    }
    fn u8(&mut self, w: &str) -> Result<u8, String> {
        Ok(self.take(1, w)?[0])
    }
    fn u16(&mut self, w: &str) -> Result<u16, String> {
        let s = self.take(2, w)?;
        Ok(u16::from_be_bytes([s[0], s[1]]))
    }
    fn u32(&mut self, w: &str) -> Result<u32, String> {
        let s = self.take(4, w)?;
        Ok(u32::from_be_bytes([s[0], s[1], s[2], s[3]]))
    }
    fn bin(&mut self, w: &str) -> Result<Vec<u8>, String> {
        let n = self.u16(w)? as usize;
        Ok(self.take(n, w)?.to_vec())
    }
    fn str(&mut self, w: &str) -> Result<String, String> {
        String::from_utf8(self.bin(w)?).map_err(|_| format!("{} is not UTF-8", w))
    }
    fn vbi(&mut self, w: &str) -> Result<usize, String> {
        let mut v = 0usize;
        for i in 0..4 {
            let b = self.u8(w)?;
            v |= ((b & 0x7F) as usize) << (7 * i);
            if b & 0x80 == 0 {
                if i > 0 && b == 0 {
                    return Err(format!("{}: length not minimally encoded", w));
                }
                return Ok(v);
            }
        }
        Err(format!("{}: length field over 4 bytes", w))
    }
    fn nonzero_id(&mut self) -> Result<u16, String> {
        let id = self.u16("packet identifier")?;
        if id == 0 {
            return Err("packet identifier is zero".into());
        }
        Ok(id)
    }
    fn empty_props(&mut self, what: &str) -> Result<(), String> {
        let n = self.vbi(what)?;
        if n != 0 {
            return Err(format!("{}: unexpected properties ({} bytes) that the caller never supplied", what, n));
        }
        Ok(())
    }
}

/// None: more bytes needed. Some(Ok((pkt, len))) or Some(Err(why malformed)).
pub fn parse_client(buf: &[u8]) -> Option<Result<(CPkt, usize), String>> {
    if buf.is_empty() {
        return None;
    }
    let mut len = 0usize;
    let mut i = 0;
    loop {
        if i == 4 {
            return Some(Err("remaining length over 4 bytes".into()));
        }
        let b = *buf.get(1 + i)?;
        len |= ((b & 0x7F) as usize) << (7 * i);
        i += 1;
        if b & 0x80 == 0 {
            if i > 1 && b == 0 {
                return Some(Err("remaining length not minimally encoded".into()));
            }
            break;
        }
    }
    let total = 1 + i + len;
    if buf.len() < total {
        return None;
    }
    let first = buf[0];
    let mut r = Rd { b: &buf[1 + i..total], at: 0 };
    Some(parse_body(first, &mut r).and_then(|p| {
        if r.left() > 0 {
            Err(format!("{} trailing bytes in packet {:?}", r.left(), p.brief()))
        } else {
            Ok((p, total))
        }
    }))
}

fn parse_body(first: u8, r: &mut Rd) -> Result<CPkt, String> {
    let flags = first & 0x0F;
    let want_flags = |f: u8, n: &str| if flags == f { Ok(()) } else { Err(format!("{}: fixed header flags {:#x}", n, flags)) };
    match first >> 4 {
        1 => {
            want_flags(0, "CONNECT")?;
            if r.str("protocol name")? != "MQTT" {
                return Err("protocol name".into());
            }
            let v = r.u8("version")?;
            if v != 5 {
                return Err(format!("protocol version {}", v));
            }
            let fl = r.u8("connect flags")?;
            if fl & 1 != 0 {
                return Err("CONNECT reserved flag set".into());
            }
            let keep_alive = r.u16("keep alive")?;
            let n = r.vbi("connect properties")?;
            r.take(n, "connect properties")?;
            let client_id = r.str("client id")?;
            if fl & !0b10 != 0 {
                return Err(format!("CONNECT announces will/user/password ({:#x}) that nobody asked for", fl));
            }
            Ok(CPkt::Connect { clean: fl & 2 != 0, keep_alive, client_id, flags: fl })
        }
        3 => {
            let qos = (flags >> 1) & 3;
            if qos == 3 {
                return Err("PUBLISH with QoS 3".into());
            }
            if qos == 0 && flags & 8 != 0 {
                return Err("PUBLISH QoS 0 with DUP".into());
            }
            let topic = r.str("topic")?;
            let id = if qos > 0 { r.nonzero_id()? } else { 0 };
            let n = r.vbi("publish properties")?;
            let pb = r.take(n, "publish properties")?;
            let mut pr = Rd { b: pb, at: 0 };
            let mut props = vec![];
            while pr.left() > 0 {
                props.push(match pr.u8("property id")? {
                    0x01 => Prop::Pfi(pr.u8("payload format")?),
                    0x02 => Prop::Expiry(pr.u32("expiry")?),
                    0x08 => Prop::RespTopic(pr.str("response topic")?),
                    0x09 => Prop::Corr(pr.bin("correlation data")?),
                    0x26 => Prop::User(pr.str("user key")?, pr.str("user value")?),
                    x => return Err(format!("unexpected property {:#x}", x)),
                });
            }
            let n = r.left();
            let payload = r.take(n, "payload")?.to_vec();
            Ok(CPkt::Publish { dup: flags & 8 != 0, qos, retain: flags & 1 != 0, topic, id, props, payload })
        }
        4 => {
            want_flags(0, "PUBACK")?;
            let id = r.nonzero_id()?;
            let reason = if r.left() > 0 { r.u8("reason")? } else { 0 };
            if r.left() > 0 {
                r.empty_props("PUBACK properties")?;
            }
            Ok(CPkt::Puback { id, reason })
        }
        8 => {
            want_flags(2, "SUBSCRIBE")?;
            let id = r.nonzero_id()?;
            r.empty_props("SUBSCRIBE properties")?;
            let mut filters = vec![];
            while r.left() > 0 {
                let f = r.str("topic filter")?;
                let o = r.u8("subscription options")?;
                if o & 0b1100_0000 != 0 || o & 3 == 3 || (o >> 4) & 3 == 3 {
                    return Err(format!("subscription options {:#x}", o));
                }
                filters.push((f, o));
            }
            if filters.is_empty() {
                return Err("SUBSCRIBE without filter".into());
            }
            Ok(CPkt::Subscribe { id, filters })
        }
        10 => {
            want_flags(2, "UNSUBSCRIBE")?;
            let id = r.nonzero_id()?;
            r.empty_props("UNSUBSCRIBE properties")?;
            let mut filters = vec![];
            while r.left() > 0 {
                filters.push(r.str("topic filter")?);
            }
            if filters.is_empty() {
                return Err("UNSUBSCRIBE without filter".into());
            }
            Ok(CPkt::Unsubscribe { id, filters })
        }
        12 => {
            want_flags(0, "PINGREQ")?;
            Ok(CPkt::Pingreq)
        }
        14 => {
            want_flags(0, "DISCONNECT")?;
            let reason = if r.left() > 0 { r.u8("reason")? } else { 0 };
            if r.left() > 0 {
                r.empty_props("DISCONNECT properties")?;
            }
            Ok(CPkt::Disconnect { reason })
        }
        t => Err(format!("packet type {} is not one this client sends", t)),
    }
}
