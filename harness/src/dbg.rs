//! Parser for Rust's `{:?}` output (what `Notification` hands to the application) and the
//! comparison of such values with the model's packets, by field name, not by position.
use crate::wire::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Struct(String, Vec<(String, Val)>),
    Tuple(String, Vec<Val>),
    List(Vec<Val>),
    Bytes(Vec<u8>),
    Str(String),
    Num(i128),
}

struct P<'a> {
    s: &'a [u8],
    at: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.at < self.s.len() && (self.s[self.at] as char).is_ascii_whitespace() {
            self.at += 1;
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.s.get(self.at).copied()
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Some(c) {
            self.at += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.at))
        }
    }
    fn ident(&mut self) -> String {
        let st = self.at;
        while self.at < self.s.len() && (self.s[self.at].is_ascii_alphanumeric() || self.s[self.at] == b'_') {
            self.at += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.at]).into()
    }
    fn val(&mut self) -> Result<Val, String> {
        match self.peek().ok_or("unexpected end")? {
            b'"' => self.string(),
            b'[' => {
                self.at += 1;
                let mut v: Vec<Val> = vec![];
                let mut bytes: Vec<u8> = vec![];
                let mut all_bytes = true;
                while !self.eat(b']') {
                    let x = self.val()?;
                    match x {
                        Val::Num(n) if all_bytes && (0..256).contains(&n) => bytes.push(n as u8),
                        x => {
                            if all_bytes {
                                v = bytes.drain(..).map(|b| Val::Num(b as i128)).collect();
                                all_bytes = false;
                            }
                            v.push(x);
                        }
                    }
                    if !self.eat(b',') {
                        self.need(b']')?;
                        break;
                    }
                }
                Ok(if all_bytes { Val::Bytes(bytes) } else { Val::List(v) })
            }
            c if c == b'-' || c.is_ascii_digit() => {
                let st = self.at;
                self.at += 1;
                while self.at < self.s.len() && self.s[self.at].is_ascii_digit() {
                    self.at += 1;
                }
                std::str::from_utf8(&self.s[st..self.at]).unwrap().parse().map(Val::Num).map_err(|e| e.to_string())
            }
            _ => {
                let name = self.ident();
                if name.is_empty() {
                    return Err(format!("unexpected {:?} at {}", self.s[self.at] as char, self.at));
                }
                match self.peek() {
                    Some(b'(') => {
                        self.at += 1;
                        let mut v = vec![];
                        while !self.eat(b')') {
                            v.push(self.val()?);
                            if !self.eat(b',') {
                                self.need(b')')?;
                                break;
                            }
                        }
                        Ok(Val::Tuple(name, v))
                    }
                    Some(b'{') => {
                        self.at += 1;
                        let mut v = vec![];
                        while !self.eat(b'}') {
                            self.ws();
                            let k = self.ident();
                            self.need(b':')?;
                            let x = self.val()?;
                            v.push((k, x));
                            if !self.eat(b',') {
                                self.need(b'}')?;
                                break;
                            }
                        }
                        Ok(Val::Struct(name, v))
                    }
                    _ => Ok(Val::Tuple(name, vec![])),
                }
            }
        }
    }
    fn string(&mut self) -> Result<Val, String> {
        self.at += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.s.get(self.at).ok_or("unterminated string")?;
            self.at += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = *self.s.get(self.at).ok_or("unterminated escape")?;
                    self.at += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'0' => out.push(0),
                        b'\\' | b'"' | b'\'' => out.push(e),
                        b'u' => {
                            self.need(b'{')?;
                            let st = self.at;
                            while self.s.get(self.at).map_or(false, |c| *c != b'}') {
                                self.at += 1;
                            }
                            let h = std::str::from_utf8(&self.s[st..self.at]).map_err(|e| e.to_string())?;
                            self.need(b'}')?;
                            let ch = u32::from_str_radix(h, 16).ok().and_then(char::from_u32).ok_or("bad escape")?;
                            let mut b = [0; 4];
                            out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                        }
                        _ => return Err("unknown escape".into()),
                    }
                }
                c => out.push(c),
            }
        }
        String::from_utf8(out).map(Val::Str).map_err(|e| e.to_string())
    }
}

pub fn parse(s: &str) -> Result<Val, String> {
    let mut p = P { s: s.as_bytes(), at: 0 };
    let v = p.val().map_err(|e| format!("cannot read notification text: {} in {}", e, clip(s)))?;
    p.ws();
    if p.at != p.s.len() {
        return Err(format!("trailing text in notification {}", clip(s)));
    }
    Ok(v)
}

impl Val {
    /// The value of the field called `k`, at any depth.
    fn named(&self, k: &str) -> Option<&Val> {
        match self {
            Val::Struct(_, f) => f.iter().find(|(n, _)| n == k).map(|(_, v)| v).or_else(|| f.iter().find_map(|(_, v)| v.named(k))),
            Val::Tuple(_, f) => f.iter().find_map(|v| v.named(k)),
            _ => None,
        }
    }
    /// The value of field `k`. Field names are an implementation detail: if there is no such
    /// field, any field whose value satisfies `fits` will do.
    fn field(&self, k: &str, fits: impl Fn(&Val) -> bool) -> Result<&Val, String> {
        fn any<'a>(v: &'a Val, fits: &dyn Fn(&Val) -> bool) -> Option<&'a Val> {
            match v {
                Val::Struct(_, f) => f.iter().find(|(_, x)| fits(x)).map(|(_, x)| x).or_else(|| f.iter().find_map(|(_, x)| any(x, fits))),
                Val::Tuple(_, f) => f.iter().find(|x| fits(x)).or_else(|| f.iter().find_map(|x| any(x, fits))),
                _ => None,
            }
        }
        self.named(k).or_else(|| any(self, &fits)).ok_or_else(|| format!("no `{}` with the value the server sent in the notification", k))
    }
    fn unit(&self) -> Result<&str, String> {
        match self {
            Val::Tuple(n, v) if v.is_empty() => Ok(n),
            x => Err(format!("expected a plain name, got {:?}", x)),
        }
    }
    fn bool(&self) -> Result<bool, String> {
        match self.unit()? {
            "true" => Ok(true),
            "false" => Ok(false),
            x => Err(format!("expected bool, got {}", x)),
        }
    }
    fn list(&self) -> Result<Vec<Val>, String> {
        match self {
            Val::List(v) => Ok(v.clone()),
            Val::Bytes(v) => Ok(v.iter().map(|b| Val::Num(*b as i128)).collect()),
            x => Err(format!("expected a list, got {:?}", x)),
        }
    }
}

fn need<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        let (g, w) = (format!("{:?}", got), format!("{:?}", want));
        Err(format!("{}: notified {} but the server sent {}", what, clip(&g), clip(&w)))
    }
}

fn prop_val(p: &Prop) -> Val {
    match p {
        Prop::Pfi(v) => Val::Tuple("PayloadFormatId".into(), vec![Val::Num(*v as i128)]),
        Prop::Expiry(v) => Val::Tuple("MessageExpiryInterval".into(), vec![Val::Num(*v as i128)]),
        Prop::RespTopic(s) => Val::Tuple("ResponseTopic".into(), vec![Val::Str(s.clone())]),
        Prop::Corr(b) => Val::Tuple("CorrelationData".into(), vec![Val::Bytes(b.clone())]),
        Prop::User(k, v) => Val::Tuple("UserProperty".into(), vec![Val::Str(k.clone()), Val::Str(v.clone())]),
    }
}
fn ack_prop_val(p: &AckProp) -> Val {
    match p {
        AckProp::Reason(s) => Val::Tuple("ReasonString".into(), vec![Val::Str(s.clone())]),
        AckProp::User(k, v) => Val::Tuple("UserProperty".into(), vec![Val::Str(k.clone()), Val::Str(v.clone())]),
    }
}

fn cmp_props(got: &Val, want: Vec<Val>) -> Result<(), String> {
    let g = got.list()?;
    need("number of properties", g.len(), want.len())?;
    for (i, (a, b)) in g.iter().zip(want.iter()).enumerate() {
        need(&format!("property #{}", i), a, b)?;
    }
    Ok(())
}

pub fn match_publish(v: &Val, p: &SPublish) -> Result<(), String> {
    let topic = Val::Str(p.topic.clone());
    need("topic", v.field("topic", |x| *x == topic)?, &topic)?;
    let is = |b: bool| move |x: &Val| x.bool() == Ok(b);
    need("DUP", v.field("dup", is(p.dup))?.bool()?, p.dup)?;
    need("RETAIN", v.field("retain", is(p.retain))?.bool()?, p.retain)?;
    let qos = ["AtMostOnce", "AtLeastOnce", "ExactlyOnce"][p.qos as usize];
    need("QoS", v.field("qos", |x| x.unit() == Ok(qos))?.unit()?, qos)?;
    let want = if p.qos > 0 { Val::Tuple("Some".into(), vec![Val::Num(p.id as i128)]) } else { Val::Tuple("None".into(), vec![]) };
    need("packet identifier", v.field("pktid", |x| *x == want)?, &want)?;
    let props: Vec<Val> = p.props.iter().map(prop_val).collect();
    cmp_props(v.field("properties", |x| cmp_props(x, props.clone()).is_ok())?, props.clone())?;
    let text = p.props.iter().any(|x| matches!(x, Prop::Pfi(1)));
    let pl = v.field("payload", |x| matches!(x, Val::Tuple(n, y) if y.len() == 1 && (n == "String" || n == "Bytes")))?;
    match pl {
        Val::Tuple(n, x) if x.len() == 1 => {
            if text {
                need("payload kind", n.as_str(), "String")?;
                need("payload", &x[0], &Val::Str(String::from_utf8(p.payload.clone()).expect("model sends UTF-8")))
            } else {
                need("payload kind", n.as_str(), "Bytes")?;
                need("payload", &x[0], &Val::Bytes(p.payload.clone()))
            }
        }
        x => Err(format!("payload: {:?}", x)),
    }
}

pub fn match_ack(v: &Val, id: u16, reason: &str, props: &[AckProp]) -> Result<(), String> {
    let id = Val::Num(id as i128);
    need("packet identifier", v.field("pktid", |x| *x == id)?, &id)?;
    match_reason(v, reason, props)
}

pub fn match_connack(v: &Val, sp: bool, reason: &str, props: &[AckProp]) -> Result<(), String> {
    need("session present", v.field("session_present", |x| x.bool() == Ok(sp))?.bool()?, sp)?;
    match_reason(v, reason, props)
}
fn match_reason(v: &Val, reason: &str, props: &[AckProp]) -> Result<(), String> {
    need("reason", v.field("reason", |x| x.unit() == Ok(reason))?.unit()?, reason)?;
    let props: Vec<Val> = props.iter().map(ack_prop_val).collect();
    cmp_props(v.field("properties", |x| cmp_props(x, props.clone()).is_ok())?, props.clone())
}

/// What the application got, as text.
#[derive(Clone, Debug, PartialEq)]
pub struct Notif {
    pub kind: &'static str,
    pub text: String,
}

pub fn reason_name(tab: &[(u8, &'static str)], r: u8) -> &'static str {
    tab.iter().find(|x| x.0 == r).map(|x| x.1).unwrap_or("?")
}

/// Does the notification say exactly what the packet says? (packet must be one that notifies)
pub fn match_notif(n: &Notif, p: &SPkt) -> Result<(), String> {
    let kind = match p {
        SPkt::Connack { .. } => "ConnAck",
        SPkt::Publish(_) => "Message",
        SPkt::Suback { .. } => "SubAck",
        SPkt::Unsuback { .. } => "UnsubAck",
        _ => return Err(format!("notification {} {} for a packet that must not notify", n.kind, clip(&n.text))),
    };
    need("notification kind", n.kind, kind)?;
    let v = parse(&n.text)?;
    match p {
        SPkt::Connack { sp, reason, props } => match_connack(&v, *sp, reason_name(CONNACK_REASONS, *reason), props),
        SPkt::Publish(p) => match_publish(&v, p),
        SPkt::Suback { id, reason, props } => match_ack(&v, *id, reason_name(SUBACK_REASONS, *reason), props),
        SPkt::Unsuback { id, reason, props } => match_ack(&v, *id, reason_name(UNSUBACK_REASONS, *reason), props),
        _ => unreachable!(),
    }
}

pub fn notifies(p: &SPkt) -> bool {
    matches!(p, SPkt::Connack { .. } | SPkt::Publish(_) | SPkt::Suback { .. } | SPkt::Unsuback { .. })
}
