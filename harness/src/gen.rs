//! Random but structured inputs: text, API calls, server packets, segmentations.
use crate::engine::{Call, Pay};
use crate::rng::Rng;
use crate::wire::*;

const CHARS: &[&str] = &[
    "a", "b", "z", "/", "Z", "0", " ", "\"", "\\", "\n", "\t", "\r", "\u{1}", "\u{7f}", "'", "{", "}", "(", ")", ",", "[", "]", "$", "+", "#",
    "é", "ß", "Ж", "中", "日", "€", "\u{feff}", "\u{301}", "\u{200d}", "😀", "𝄞", "\u{10fffd}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffef}", "\u{10000}",
];

fn text_len_fancy(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n + 4);
    while s.len() < n {
        let c = *r.pick(CHARS);
        s.push_str(if s.len() + c.len() <= n { c } else { "q" });
    }
    s
}
/// UTF-8 text of exactly `n` bytes.
pub fn text_len(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n + 4);
    let fancy = r.chance(1, 2);
    if fancy && n >= 4096 {
        // a block of odd length repeated, so that characters straddle every power of two
        let k = r.range(300, 1500) | 1;
        let block = text_len_fancy(r, k).replace(['+', '#'], "-");
        while s.len() + k <= n {
            s.push_str(&block);
        }
        let rest = n - s.len();
        s.push_str(&text_len_fancy(r, rest).replace(['+', '#'], "-"));
        return s;
    }
    while s.len() < n {
        let c = if fancy { *r.pick(CHARS) } else { ["a", "b", "c", "d", "e", "x", "y", "/"][r.below(8)] };
        if s.len() + c.len() <= n {
            s.push_str(c);
        } else {
            s.push('q');
        }
    }
    s
}
pub fn small_len(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=8 => r.range(3, 24),
        9 | 10 => r.range(25, 200),
        _ => *r.pick(&[126usize, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024]),
    }
}
pub fn text(r: &mut Rng) -> String {
    let n = small_len(r);
    text_len(r, n)
}
/// Names that something may take to be special.
const NAMES: &[&str] = &[
    "$SYS/broker/uptime", "$SYS/broker/log", "$SYS", "$share/g/t", "$queue/t", "$", "/", "//", "a", "a/b", "a/b/", "/a/b", "a//b", " ", " a", "a ", "a b",
    "status", "will", "$aws/things/x/shadow/update", "homeassistant/light/x/set", "MQTT", "null", "None", "true", "0", "-1", "%s", "{}", "\\0", "../x", "\u{feff}a", "é", "topic",
];
pub fn topic(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        return r.pick(NAMES).to_string();
    }
    let n = small_len(r).max(1);
    let s = text_len(r, n);
    // a topic name has no wildcards
    s.replace(['+', '#'], "-")
}
pub fn filter(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "#".into(),
        1 => r.pick(&["+/x/#", "+", "+/+", "/+", "a/#", "$SYS/#", "+/", "a/+/b"]).to_string(),
        2 => r.pick(&["$share/grp/t", "$share/g/#", "$share/g/+/x", "$share/g//"]).to_string(),
        _ => topic(r),
    }
}
pub fn any_u32(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => *r.pick(&[0u32, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x01020304, 0x26000000, 0x1f, u32::MAX - 1, u32::MAX, 0x00000026, 0x01010101]),
        1 => r.u64() as u32,
        _ => r.below(100000) as u32,
    }
}
pub fn any_id(r: &mut Rng) -> u16 {
    match r.below(4) {
        0 => *r.pick(&[1u16, 2, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65280, 65534, 65535]),
        1 => r.range(1, 20) as u16,
        _ => r.range(1, 65535) as u16,
    }
}
pub fn bin(r: &mut Rng) -> Vec<u8> {
    let n = small_len(r);
    r.bytes(n)
}

/// Properties a caller may add to a publish (each single-valued kind at most once).
pub fn call_props(r: &mut Rng, max: usize) -> Vec<Prop> {
    let n = match r.below(6) {
        0 | 1 => 0,
        2 | 3 => 1,
        _ => r.range(0, max),
    };
    let mut v = vec![];
    let (mut e, mut t, mut c) = (false, false, false);
    for _ in 0..n {
        match r.below(8) {
            0 if !e => {
                e = true;
                v.push(Prop::Expiry(any_u32(r)))
            }
            1 if !t => {
                t = true;
                v.push(Prop::RespTopic(topic(r)))
            }
            2 if !c => {
                c = true;
                v.push(Prop::Corr(bin(r)))
            }
            _ => v.push(Prop::User(text(r), text(r))),
        }
    }
    v
}

/// Contents that something may take to be special, text or not.
const CONTENTS: &[&[u8]] = &[
    b"0", b"1", b"on", b"off", b"true", b"null", b"None", b"{}", b"[]", b"\"\"", b"{\"a\":1}", b" ", b"\n", b"\r\n", b"\0", b"\0\0\0\0", b"a\0b", b"\xef\xbb\xbfa", b"offline",
    b"\xe0\0", b"\x20\x02\0\0", b"\xd0\0", b"\xc0\0", b"\x40\x02\0\x01", b"\xff", b"\xff\xff\xff\x7f", b"\xc3", b"\xed\xa0\x80", b"\x80", b"MQTT", b"%d", b"\\", b"\x1b[0m",
];
fn content(r: &mut Rng, text: bool) -> Vec<u8> {
    loop {
        let c = *r.pick(CONTENTS);
        if !text || std::str::from_utf8(c).is_ok() {
            return c.to_vec();
        }
    }
}

pub fn payload(r: &mut Rng) -> Pay {
    if r.chance(1, 12) {
        return if r.chance(1, 2) { Pay::Text(String::from_utf8(content(r, true)).unwrap()) } else { Pay::Bytes(content(r, false)) };
    }
    let n = match r.below(10) {
        0 => 0,
        9 => r.range(200, 20000),
        _ => small_len(r),
    };
    if r.chance(1, 2) {
        Pay::Text(text_len(r, n))
    } else {
        Pay::Bytes(r.bytes(n))
    }
}

pub fn call(r: &mut Rng) -> Call {
    match r.below(10) {
        0 | 1 => Call::Subscribe(filter(r), r.below(3) as u8),
        2 | 3 => Call::Unsubscribe(filter(r)),
        _ => {
            let qos = *r.pick(&[0u8, 0, 1, 1, 1, 2]);
            let set_qos = qos != 0 || r.chance(1, 2);
            if r.chance(1, 20) {
                // the same call over and over
                return Call::Publish { topic: "state".into(), payload: Pay::Text("on".into()), props: vec![], qos: r.below(2) as u8, set_qos: true };
            }
            let topic = if r.chance(1, 30) { String::new() } else { topic(r) };
            Call::Publish { topic, payload: payload(r), props: call_props(r, 6), qos, set_qos }
        }
    }
}
/// As `call` but never QoS 2 (the client has no QoS 2 handshake).
pub fn call01(r: &mut Rng) -> Call {
    loop {
        let c = call(r);
        if !matches!(c, Call::Publish { qos: 2, .. }) {
            return c;
        }
    }
}
/// A call that needs an identifier and will be answered.
pub fn request(r: &mut Rng) -> Call {
    loop {
        let c = call01(r);
        if !matches!(c, Call::Publish { qos: 0, .. }) {
            return c;
        }
    }
}
pub fn tagged(tag: &str, qos: u8) -> Call {
    Call::Publish { topic: format!("t/{}", tag), payload: Pay::Text(tag.to_string()), props: vec![], qos, set_qos: true }
}

pub fn ack_props(r: &mut Rng) -> Vec<AckProp> {
    let n = match r.below(6) {
        0..=2 => 0,
        3 | 4 => 1,
        _ => r.range(2, 5),
    };
    let mut v = vec![];
    let mut rs = false;
    for _ in 0..n {
        if !rs && r.chance(1, 2) {
            rs = true;
            v.push(AckProp::Reason(text(r)));
        } else {
            v.push(AckProp::User(text(r), text(r)));
        }
    }
    v
}

/// Properties a server may put on a PUBLISH. PFI included.
pub fn pub_props(r: &mut Rng) -> Vec<Prop> {
    let mut v = call_props(r, 6);
    if r.chance(1, 2) {
        let at = r.below(v.len() + 1);
        v.insert(at, Prop::Pfi(r.below(2) as u8));
    }
    v
}

pub fn s_publish(r: &mut Rng, qos: u8) -> SPublish {
    let props = pub_props(r);
    let n = match r.below(12) {
        0 => 0,
        11 => r.range(200, 20000),
        _ => small_len(r),
    };
    if r.chance(1, 16) {
        // the same few messages over and over
        return SPublish { dup: false, qos, retain: false, topic: "state".into(), id: r.range(1, 3) as u16, props: vec![], payload: b"on".to_vec() };
    }
    let text = props.iter().any(|p| matches!(p, Prop::Pfi(1)));
    let payload = if r.chance(1, 12) { content(r, text) } else if text { text_len(r, n).into_bytes() } else { r.bytes(n) };
    SPublish { dup: qos > 0 && r.chance(1, 4), qos, retain: r.chance(1, 3), topic: topic(r), id: any_id(r), props, payload }
}

/// A well-formed packet a server may send on an established connection (not DISCONNECT).
pub fn s_packet(r: &mut Rng) -> SPkt {
    match r.below(14) {
        0..=3 => SPkt::Publish(s_publish(r, 0)),
        4..=8 => SPkt::Publish(s_publish(r, 1)),
        9 => SPkt::Suback { id: any_id(r), reason: r.pick(SUBACK_REASONS).0, props: ack_props(r) },
        10 => SPkt::Unsuback { id: any_id(r), reason: r.pick(UNSUBACK_REASONS).0, props: ack_props(r) },
        11 | 12 => puback(r, None),
        _ => SPkt::Pingresp,
    }
}
pub fn puback(r: &mut Rng, id: Option<u16>) -> SPkt {
    let id = id.unwrap_or_else(|| any_id(r));
    match r.below(4) {
        0 => SPkt::Puback { id, reason: None, props: None },
        1 => SPkt::Puback { id, reason: Some(*r.pick(PUBACK_REASONS)), props: None },
        _ => SPkt::Puback { id, reason: Some(*r.pick(PUBACK_REASONS)), props: Some(ack_props(r)) },
    }
}
/// The acknowledgement that answers client packet `p`.
pub fn answer(r: &mut Rng, p: &CPkt) -> Option<SPkt> {
    match p {
        CPkt::Publish { qos: 1, id, .. } => Some(puback(r, Some(*id))),
        CPkt::Subscribe { id, .. } => Some(SPkt::Suback { id: *id, reason: r.pick(SUBACK_REASONS).0, props: ack_props(r) }),
        CPkt::Unsubscribe { id, .. } => Some(SPkt::Unsuback { id: *id, reason: r.pick(UNSUBACK_REASONS).0, props: ack_props(r) }),
        _ => None,
    }
}
pub fn ok_connack(r: &mut Rng) -> SPkt {
    SPkt::Connack { sp: false, reason: 0, props: ack_props(r) }
}

/// Cuts a byte string into pieces; `mode` selects the style.
pub fn cut(r: &mut Rng, b: &[u8], mode: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        let n = match mode {
            0 => b.len(),
            1 => 1,
            2 => r.range(1, 3),
            3 => r.range(1, 40),
            4 => r.range(1, 5000),
            5 => *r.pick(&[1, 2, 8191, 8192, 8193, 4096]),
            _ => if r.chance(1, 2) { 1 } else { r.range(1, 200) },
        };
        let n = n.min(b.len() - at);
        v.push(b[at..at + n].to_vec());
        at += n;
    }
    v
}
