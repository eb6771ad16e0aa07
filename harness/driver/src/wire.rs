//! The client's side of the wire: a small encoder/decoder written from the MQTT 3.1/3.1.1/5.0
//! standards, working on JSON values.  It shares no code with the broker or with its codec.
use serde_json::{json, Map, Value};

pub fn s(v: &Value, k: &str) -> String {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string()
}
pub fn i(v: &Value, k: &str, d: i64) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(d)
}
pub fn has(v: &Value, k: &str) -> bool {
    v.get(k).is_some()
}
pub fn levels(v: &Value) -> String {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("")).collect::<Vec<_>>().join("/"))
        .unwrap_or_default()
}
pub fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap_or(0)).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn u16be(o: &mut Vec<u8>, n: i64) {
    o.extend_from_slice(&(n as u16).to_be_bytes());
}
fn u32be(o: &mut Vec<u8>, n: i64) {
    o.extend_from_slice(&(n as u32).to_be_bytes());
}
fn bin(o: &mut Vec<u8>, b: &[u8]) {
    u16be(o, b.len() as i64);
    o.extend_from_slice(b);
}
fn varint(o: &mut Vec<u8>, mut n: usize) {
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 128;
        }
        o.push(b);
        if n == 0 {
            break;
        }
    }
}
fn frame(h: u8, body: Vec<u8>) -> Vec<u8> {
    let mut o = vec![h];
    varint(&mut o, body.len());
    o.extend(body);
    o
}
fn props(o: &mut Vec<u8>, p: Vec<u8>) {
    varint(o, p.len());
    o.extend(p);
}
fn p_u8(p: &mut Vec<u8>, v: &Value, k: &str, id: u8) {
    let n = i(v, k, -1);
    if n >= 0 {
        p.push(id);
        p.push(n as u8);
    }
}
fn p_u16(p: &mut Vec<u8>, v: &Value, k: &str, id: u8) {
    let n = i(v, k, -1);
    if n >= 0 {
        p.push(id);
        u16be(p, n);
    }
}
/// -2 stands for 0xFFFFFFFF (TLC's integers are 32 bit)
fn p_u32(p: &mut Vec<u8>, v: &Value, k: &str, id: u8) {
    let n = i(v, k, -1);
    if n != -1 {
        p.push(id);
        u32be(p, if n == -2 { 0xffff_ffff } else { n });
    }
}
fn p_str(p: &mut Vec<u8>, v: &Value, k: &str, id: u8) {
    if let Some(x) = v.get(k).and_then(|x| x.as_str())
        && !x.is_empty()
    {
        p.push(id);
        bin(p, x.as_bytes());
    }
}
fn p_hex(p: &mut Vec<u8>, v: &Value, k: &str, id: u8) {
    if let Some(x) = v.get(k).and_then(|x| x.as_str())
        && !x.is_empty()
    {
        p.push(id);
        bin(p, &unhex(x));
    }
}
fn p_users(p: &mut Vec<u8>, v: &Value) {
    if let Some(a) = v.get("up").and_then(|x| x.as_array()) {
        for kv in a {
            p.push(0x26);
            bin(p, kv[0].as_str().unwrap_or("").as_bytes());
            bin(p, kv[1].as_str().unwrap_or("").as_bytes());
        }
    }
}

/// payload number n <-> bytes.  0 is the empty payload; "m<n>" followed by `pad` dots otherwise.
pub fn payload(op: &Value, k: &str, pad: &str) -> Vec<u8> {
    let n = i(op, k, 0);
    if let Some(h) = op.get("plhex").and_then(|x| x.as_str()) {
        return unhex(h);
    }
    if n == 0 {
        return vec![];
    }
    let mut b = format!("m{n}").into_bytes();
    let pad = i(op, pad, 0);
    for _ in 0..pad {
        b.push(b'.');
    }
    b
}
fn payload_no(b: &[u8]) -> i64 {
    if b.is_empty() {
        return 0;
    }
    let t = b.iter().position(|c| *c == b'.').unwrap_or(b.len());
    if b[0] != b'm' || b[t..].iter().any(|c| *c != b'.') {
        return -1;
    }
    std::str::from_utf8(&b[1..t]).ok().and_then(|x| x.parse().ok()).unwrap_or(-1)
}

pub fn filter(f: &Value) -> String {
    let base = levels(&f["f"]);
    let sh = s(f, "sh");
    if sh.is_empty() { base } else { format!("$share/{sh}/{base}") }
}

pub fn connect(op: &Value) -> Vec<u8> {
    let v = i(op, "v", 5);
    let mut b = Vec::new();
    match v {
        3 => {
            bin(&mut b, b"MQIsdp");
            b.push(3)
        }
        4 => {
            bin(&mut b, b"MQTT");
            b.push(4)
        }
        _ => {
            bin(&mut b, b"MQTT");
            b.push(5)
        }
    }
    let will = op.get("wlv").and_then(|x| x.as_array()).is_some_and(|a| !a.is_empty());
    let mut flags = 0u8;
    if i(op, "cs", 1) == 1 {
        flags |= 2;
    }
    if will {
        flags |= 4 | ((i(op, "wq", 0) as u8) << 3) | ((i(op, "wr", 0) as u8) << 5);
    }
    let user = op.get("user").and_then(|x| x.as_str());
    let pw = op.get("pw").and_then(|x| x.as_str());
    let pwhex = op.get("pwhex").and_then(|x| x.as_str());
    if user.is_some() {
        flags |= 0x80;
    }
    if pw.is_some() || pwhex.is_some() {
        flags |= 0x40;
    }
    b.push(flags);
    u16be(&mut b, i(op, "ka", 0));
    if v == 5 {
        let mut p = Vec::new();
        p_u32(&mut p, op, "se", 0x11);
        p_u16(&mut p, op, "rm", 0x21);
        p_u32(&mut p, op, "mp", 0x27);
        p_u16(&mut p, op, "tam", 0x22);
        p_u8(&mut p, op, "rri", 0x19);
        p_u8(&mut p, op, "rpi", 0x17);
        p_users(&mut p, op);
        p_str(&mut p, op, "am", 0x15);
        p_str(&mut p, op, "ad", 0x16);
        p_hex(&mut p, op, "adhex", 0x16);
        props(&mut b, p);
    }
    bin(&mut b, s(op, "cid").as_bytes());
    if will {
        if v == 5 {
            let mut p = Vec::new();
            p_u32(&mut p, op, "wd", 0x18);
            p_u8(&mut p, op, "wfmt", 0x01);
            p_u32(&mut p, op, "wexp", 0x02);
            p_str(&mut p, op, "wct", 0x03);
            p_str(&mut p, op, "wrt", 0x08);
            p_str(&mut p, op, "wcd", 0x09);
            if has(op, "wup") {
                p_users(&mut p, &json!({"up": op["wup"]}));
            }
            props(&mut b, p);
        }
        bin(&mut b, levels(&op["wlv"]).as_bytes());
        bin(&mut b, &payload(op, "wpl", "wpad"));
    }
    if let Some(u) = user {
        bin(&mut b, u.as_bytes());
    }
    if let Some(p) = pwhex {
        bin(&mut b, &unhex(p));
    } else if let Some(p) = pw {
        bin(&mut b, p.as_bytes());
    }
    frame(0x10, b)
}

pub fn publish(v: i64, op: &Value) -> Vec<u8> {
    let q = i(op, "qos", 0);
    let mut h = 0x30u8 | ((q as u8) << 1);
    if i(op, "retain", 0) == 1 {
        h |= 1;
    }
    if i(op, "dup", 0) == 1 {
        h |= 8;
    }
    let mut b = Vec::new();
    bin(&mut b, levels(&op["lv"]).as_bytes());
    if q > 0 {
        u16be(&mut b, i(op, "pid", 1));
    }
    if v == 5 {
        let mut p = Vec::new();
        p_u8(&mut p, op, "fmt", 0x01);
        p_u32(&mut p, op, "exp", 0x02);
        p_u16(&mut p, op, "ta", 0x23);
        p_str(&mut p, op, "rt", 0x08);
        p_str(&mut p, op, "cd", 0x09);
        p_users(&mut p, op);
        p_str(&mut p, op, "ct", 0x03);
        let sid = i(op, "sid", -1);
        if sid >= 0 {
            p.push(0x0b);
            varint(&mut p, sid as usize);
        }
        props(&mut b, p);
    }
    b.extend(payload(op, "pl", "pad"));
    frame(h, b)
}

pub fn ack(v: i64, h: u8, pid: i64, rc: i64) -> Vec<u8> {
    let mut b = Vec::new();
    u16be(&mut b, pid);
    if v == 5 && rc != 0 {
        b.push(rc as u8);
    }
    frame(h, b)
}

pub fn subscribe(v: i64, op: &Value) -> Vec<u8> {
    let mut b = Vec::new();
    u16be(&mut b, i(op, "pid", 1));
    if v == 5 {
        let mut p = Vec::new();
        let sid = i(op, "sid", -1);
        if sid >= 0 {
            p.push(0x0b);
            varint(&mut p, sid as usize);
        }
        p_users(&mut p, op);
        props(&mut b, p);
    }
    if let Some(fs) = op["fs"].as_array() {
        for f in fs {
            bin(&mut b, filter(f).as_bytes());
            let mut o = i(f, "q", 0) as u8;
            if v == 5 {
                o |= (i(f, "nl", 0) as u8) << 2;
                o |= (i(f, "rap", 0) as u8) << 3;
                o |= (i(f, "rh", 0) as u8) << 4;
            }
            b.push(o);
        }
    }
    frame(0x82, b)
}

pub fn unsubscribe(v: i64, op: &Value) -> Vec<u8> {
    let mut b = Vec::new();
    u16be(&mut b, i(op, "pid", 1));
    if v == 5 {
        props(&mut b, vec![]);
    }
    if let Some(fs) = op["fs"].as_array() {
        for f in fs {
            bin(&mut b, filter(f).as_bytes());
        }
    }
    frame(0xa2, b)
}

pub fn disconnect(v: i64, op: &Value) -> Vec<u8> {
    let mut b = Vec::new();
    if v == 5 {
        let rc = i(op, "rc", 0);
        let se = i(op, "se", -1);
        if rc != 0 || se != -1 {
            b.push(rc as u8);
            if se != -1 {
                let mut p = Vec::new();
                p_u32(&mut p, op, "se", 0x11);
                props(&mut b, p);
            }
        }
    }
    frame(0xe0, b)
}

pub fn auth(op: &Value) -> Vec<u8> {
    let mut b = vec![i(op, "rc", 0x18) as u8];
    let mut p = Vec::new();
    p_str(&mut p, op, "am", 0x15);
    p_str(&mut p, op, "ad", 0x16);
    p_hex(&mut p, op, "adhex", 0x16);
    props(&mut b, p);
    frame(0xf0, b)
}

// ---------------------------------------------------------------- decoding

pub struct Rd<'a>(pub &'a [u8], pub usize);
impl<'a> Rd<'a> {
    fn u8(&mut self) -> Option<i64> {
        let b = *self.0.get(self.1)?;
        self.1 += 1;
        Some(b as i64)
    }
    fn u16(&mut self) -> Option<i64> {
        Some(self.u8()? << 8 | self.u8()?)
    }
    fn u32(&mut self) -> Option<i64> {
        let n = self.u16()? << 16 | self.u16()?;
        Some(if n > i32::MAX as i64 { n - (1 << 32) - 1 } else { n })
    }
    fn bin(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()? as usize;
        let r = self.0.get(self.1..self.1 + n)?;
        self.1 += n;
        Some(r)
    }
    fn st(&mut self) -> Option<String> {
        String::from_utf8(self.bin()?.to_vec()).ok()
    }
    fn var(&mut self) -> Option<i64> {
        let (mut r, mut m) = (0i64, 1i64);
        for _ in 0..4 {
            let b = self.u8()?;
            r += (b & 127) * m;
            m *= 128;
            if b & 128 == 0 {
                return Some(r);
            }
        }
        None
    }
    fn rest(&self) -> &'a [u8] {
        &self.0[self.1..]
    }
    /// properties as a flat map of short names
    fn props(&mut self) -> Option<Map<String, Value>> {
        let n = self.var()? as usize;
        let end = self.1 + n;
        if end > self.0.len() {
            return None;
        }
        let mut m = Map::new();
        let mut up = Vec::new();
        let mut sids = Vec::new();
        while self.1 < end {
            let id = self.u8()?;
            let (k, v) = match id {
                0x01 => ("fmt", json!(self.u8()?)),
                0x02 => ("exp", json!(self.u32()?)),
                0x03 => ("ct", json!(self.st()?)),
                0x08 => ("rt", json!(self.st()?)),
                0x09 => ("cd", json!(String::from_utf8_lossy(self.bin()?))),
                0x0b => {
                    sids.push(json!(self.var()?));
                    continue;
                }
                0x11 => ("se", json!(self.u32()?)),
                0x12 => ("acid", json!(self.st()?)),
                0x13 => ("ska", json!(self.u16()?)),
                0x15 => ("am", json!(self.st()?)),
                0x16 => ("ad", json!(String::from_utf8_lossy(self.bin()?))),
                0x1a => ("ri", json!(self.st()?)),
                0x1c => ("sref", json!(self.st()?)),
                0x1f => ("rs", json!(self.st()?)),
                0x21 => ("rm", json!(self.u16()?)),
                0x22 => ("tam", json!(self.u16()?)),
                0x23 => ("ta", json!(self.u16()?)),
                0x24 => ("mq", json!(self.u8()?)),
                0x25 => ("ra", json!(self.u8()?)),
                0x26 => {
                    let a = self.st()?;
                    let b = self.st()?;
                    up.push(json!([a, b]));
                    continue;
                }
                0x27 => ("mp", json!(self.u32()?)),
                0x28 => ("wsa", json!(self.u8()?)),
                0x29 => ("sia", json!(self.u8()?)),
                0x2a => ("ssa", json!(self.u8()?)),
                _ => return None,
            };
            m.insert(k.to_string(), v);
        }
        if self.1 != end {
            return None;
        }
        m.insert("up".into(), Value::Array(up));
        m.insert("sids".into(), Value::Array(sids));
        Some(m)
    }
}

/// One packet off the front of `buf`: Ok(None) = incomplete.
pub fn split(buf: &[u8]) -> Result<Option<usize>, ()> {
    if buf.is_empty() {
        return Ok(None);
    }
    let mut r = Rd(buf, 1);
    let (mut n, mut m) = (0usize, 1usize);
    for k in 0.. {
        if k == 4 {
            return Err(());
        }
        let Some(b) = r.u8() else { return Ok(None) };
        n += (b as usize & 127) * m;
        m *= 128;
        if b & 128 == 0 {
            break;
        }
    }
    if buf.len() < r.1 + n { Ok(None) } else { Ok(Some(r.1 + n)) }
}

fn put(o: &mut Map<String, Value>, p: Map<String, Value>, keys: &[(&str, bool)]) {
    for (k, is_str) in keys {
        let d = if *is_str { json!("") } else { json!(-1) };
        o.insert(k.to_string(), p.get(*k).cloned().unwrap_or(d));
    }
}

/// Decode one server packet; None = malformed.  `v` is the protocol of the connection.
pub fn decode(v: i64, pkt: &[u8]) -> Option<Map<String, Value>> {
    let h = pkt[0];
    let mut r = Rd(pkt, 1);
    r.var()?;
    let mut o = Map::new();
    let t = h >> 4;
    let fl = h & 15;
    if t != 3 && fl != (if t == 6 { 2 } else { 0 }) {
        return None;
    }
    match t {
        2 => {
            o.insert("t".into(), json!("connack"));
            let f = r.u8()?;
            if f > 1 {
                return None;
            }
            o.insert("sp".into(), json!(f));
            o.insert("code".into(), json!(r.u8()?));
            let p = if v == 5 { r.props()? } else { Map::new() };
            put(
                &mut o,
                p,
                &[
                    ("se", false), ("rm", false), ("mq", false), ("ra", false), ("mp", false), ("tam", false),
                    ("wsa", false), ("sia", false), ("ssa", false), ("ska", false), ("acid", true), ("am", true),
                    ("ad", true), ("rs", true),
                ],
            );
        }
        3 => {
            o.insert("t".into(), json!("publish"));
            let q = ((h >> 1) & 3) as i64;
            if q == 3 {
                return None;
            }
            o.insert("qos".into(), json!(q));
            o.insert("dup".into(), json!((h >> 3) & 1));
            o.insert("retain".into(), json!(h & 1));
            let topic = r.st()?;
            o.insert("wire".into(), json!(topic));
            o.insert("pid".into(), json!(if q > 0 { r.u16()? } else { 0 }));
            let p = if v == 5 { r.props()? } else { Map::new() };
            let up = p.get("up").cloned().unwrap_or(json!([]));
            let sids = p.get("sids").cloned().unwrap_or(json!([]));
            put(&mut o, p, &[("fmt", false), ("exp", false), ("ta", false), ("ct", true), ("rt", true), ("cd", true)]);
            o.insert("up".into(), up);
            o.insert("sids".into(), sids);
            o.insert("pl".into(), json!(payload_no(r.rest())));
            o.insert("plen".into(), json!(r.rest().len()));
            o.insert("plhex".into(), json!(if r.rest().len() <= 64 { hex(r.rest()) } else { String::new() }));
            r.1 = pkt.len();
        }
        4..=7 => {
            o.insert("t".into(), json!(["puback", "pubrec", "pubrel", "pubcomp"][t as usize - 4]));
            o.insert("pid".into(), json!(r.u16()?));
            let rc = if v == 5 && r.1 < pkt.len() { r.u8()? } else { 0 };
            o.insert("code".into(), json!(rc));
            if v == 5 && r.1 < pkt.len() {
                r.props()?;
            }
        }
        9 | 11 => {
            o.insert("t".into(), json!(if t == 9 { "suback" } else { "unsuback" }));
            o.insert("pid".into(), json!(r.u16()?));
            if v == 5 {
                r.props()?;
            }
            let codes: Vec<i64> = r.rest().iter().map(|b| *b as i64).collect();
            r.1 = pkt.len();
            o.insert("codes".into(), json!(codes));
        }
        13 => {
            o.insert("t".into(), json!("pingresp"));
        }
        14 if v == 5 => {
            o.insert("t".into(), json!("disconnect"));
            let rc = if r.1 < pkt.len() { r.u8()? } else { 0 };
            o.insert("code".into(), json!(rc));
            let p = if r.1 < pkt.len() { r.props()? } else { Map::new() };
            put(&mut o, p, &[("se", false), ("rs", true)]);
        }
        15 if v == 5 => {
            o.insert("t".into(), json!("auth"));
            let rc = if r.1 < pkt.len() { r.u8()? } else { 0 };
            o.insert("code".into(), json!(rc));
            let p = if r.1 < pkt.len() { r.props()? } else { Map::new() };
            put(&mut o, p, &[("am", true), ("ad", true)]);
        }
        _ => return None,
    }
    if r.1 != pkt.len() {
        return None;
    }
    o.insert("sz".into(), json!(pkt.len()));
    Some(o)
}
