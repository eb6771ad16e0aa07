//! Executes one scenario against the real broker in virtual time and records what each client sees.
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddr;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

use akasa_core::server::{handle_accept, ConnectionArgs};
use akasa_core::{Config, GlobalState};
use base64::Engine;
use serde_json::{json, Map, Value};

use crate::hook::SimHook;
use crate::mock::{wake, MockStream, Pipe, Shared, ACTIVITY};
use crate::wire::{self, i, s};
use crate::{clock, scram, PANICS};

#[derive(Default)]
struct Ws {
    up: bool,
    /// frames waiting for the handshake to complete
    queued: Vec<u8>,
    /// reassembly of a fragmented binary message
    frag: Vec<u8>,
}

struct Conn {
    pipe: Shared,
    v: i64,
    cid: String,
    raw: Vec<u8>,
    mqtt: Vec<u8>,
    ws: Option<Ws>,
    garbage: bool,
    closed: bool,
    ended: Arc<Mutex<Option<String>>>,
    ended_seen: bool,
    aliases: HashMap<i64, String>,
    auto: bool,
    split: usize,
    scram: Option<scram::Client>,
    server_first: String,
    cut: bool,
}

struct Sim {
    rt: tokio::runtime::Runtime,
    global: Arc<GlobalState>,
    hook: SimHook,
    conns: BTreeMap<i64, Conn>,
    /// (cid, payload) -> pid of the latest PUBLISH carrying it
    pids: HashMap<(String, i64), i64>,
    now_ms: u64,
    rounds: usize,
    out: Vec<Value>,
    closed: Vec<Value>,
    ended: Vec<Value>,
    net: Value,
}

fn config(over: &Value) -> Config {
    let mut base = serde_json::to_value(Config::new_allow_anonymous()).expect("config to json");
    base["listeners"]["mqtt"] = json!({"addr":"127.0.0.1:1883","reuse_port":false,"proxy_mode":null});
    for k in ["enable_before_connect", "enable_after_connect", "enable_after_disconnect", "enable_publish", "enable_subscribe", "enable_unsubscribe"] {
        base["hook"][k] = json!(false);
    }
    if let Some(o) = over.as_object() {
        for (k, v) in o {
            match (v.as_object(), k.as_str()) {
                (Some(m), "hook" | "auth") => {
                    for (kk, vv) in m {
                        base[k][kk] = vv.clone();
                    }
                }
                _ => base[k] = v.clone(),
            }
        }
    }
    serde_json::from_value(base).expect("config from json")
}

pub fn run(sc: &Value) -> Value {
    clock::reset();
    PANICS.lock().unwrap().clear();
    let cfg = config(&sc["cfg"]);
    let mut pre = Vec::new();
    let global = GlobalState::new(cfg);
    if let Some(t) = sc.get("pwfile").and_then(|x| x.as_str()) {
        match akasa_core::load_passwords(t.as_bytes()) {
            Ok(m) => {
                pre.push(json!({"t":"pwfile","ok":1}));
                for (k, v) in m {
                    global.auth_passwords.insert(k, v);
                }
            }
            Err(_) => pre.push(json!({"t":"pwfile","ok":0})),
        }
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut sim = Sim {
        rt,
        global: Arc::new(global),
        hook: SimHook::default(),
        conns: BTreeMap::new(),
        pids: HashMap::new(),
        now_ms: 0,
        rounds: i(sc, "rounds", 6) as usize,
        out: vec![],
        closed: vec![],
        ended: vec![],
        net: sc.get("net").cloned().unwrap_or(json!({})),
    };
    let mut steps = Vec::new();
    for op in sc["ops"].as_array().cloned().unwrap_or_default() {
        let t0 = sim.now_ms;
        let mut op2 = op.clone();
        if s(&op, "t") == "burst" {
            let mut sub = Vec::new();
            for o in op["ops"].as_array().cloned().unwrap_or_default() {
                let mut o2 = o.clone();
                if !sim.apply(&mut o2) {
                    o2 = json!({"t":"skip","was":s(&o,"t")});
                }
                sub.push(o2);
                for _ in 0..i(&op, "yields", 0) {
                    sim.rt.block_on(tokio::task::yield_now());
                }
            }
            op2["ops"] = Value::Array(sub);
            sim.settle();
        } else {
            if !sim.apply(&mut op2) {
                op2 = json!({"t":"skip","was":s(&op,"t"),"k":i(&op,"k",0)});
            }
            sim.settle();
        }
        let panics: Vec<String> = std::mem::take(&mut *PANICS.lock().unwrap());
        let hooks: Vec<Value> = std::mem::take(&mut *sim.hook.log.lock().unwrap());
        let mut out = std::mem::take(&mut sim.out);
        out.sort_by_key(|o| i(o, "k", 0));
        steps.push(json!({
            "op": op2, "out": out, "closed": std::mem::take(&mut sim.closed), "ended": std::mem::take(&mut sim.ended),
            "hooks": hooks, "panics": panics, "t0": t0, "t1": sim.now_ms,
            "clients": sim.global.clients_count(), "online": sim.global.online_clients_count(),
        }));
    }
    // let the tasks be dropped before the next scenario; a panic there is data as well
    let Sim { rt, conns, global, .. } = sim;
    drop(conns);
    drop(rt);
    drop(global);
    let late: Vec<String> = std::mem::take(&mut *PANICS.lock().unwrap());
    json!({"id": sc.get("id").cloned().unwrap_or(json!("")), "pre": pre, "steps": steps, "late": late,
        "meta": sc.get("meta").cloned().unwrap_or(json!({}))})
}

fn args(net: &Value, op: &Value) -> ConnectionArgs {
    let g = |k: &str| i(op, k, i(net, k, 0)) == 1;
    ConnectionArgs {
        addr: "127.0.0.1:1883".parse().unwrap(),
        reuse_port: false,
        proxy: g("proxy"),
        proxy_tls_termination: g("proxytls"),
        websocket: g("ws"),
        tls_acceptor: None,
    }
}

fn ws_frame(opcode: u8, fin: bool, data: &[u8]) -> Vec<u8> {
    let mut o = vec![if fin { 0x80 } else { 0 } | opcode];
    let n = data.len();
    if n < 126 {
        o.push(0x80 | n as u8);
    } else if n < 65536 {
        o.push(0x80 | 126);
        o.extend_from_slice(&(n as u16).to_be_bytes());
    } else {
        o.push(0x80 | 127);
        o.extend_from_slice(&(n as u64).to_be_bytes());
    }
    let mask = [0x11u8, 0x22, 0x33, 0x44];
    o.extend_from_slice(&mask);
    o.extend(data.iter().enumerate().map(|(j, b)| b ^ mask[j % 4]));
    o
}

impl Sim {
    fn open(&mut self, k: i64, op: &Value) {
        let pipe: Shared = Arc::new(Mutex::new(Pipe::default()));
        {
            let mut p = pipe.lock().unwrap();
            p.rchunk = i(op, "rchunk", i(&self.net, "rchunk", 0)) as usize;
            p.wchunk = i(op, "wchunk", i(&self.net, "wchunk", 0)) as usize;
            p.lazy = i(op, "lazy", i(&self.net, "lazy", 0)) == 1;
            p.held = i(op, "hold", 0) == 1;
            if let Some(h) = op.get("pre").and_then(|x| x.as_str()) {
                p.inbuf.extend(wire::unhex(h));
            }
        }
        let a = args(&self.net, op);
        let ws = a.websocket;
        if ws {
            let sub = op.get("wsproto").and_then(|x| x.as_str()).unwrap_or("mqtt");
            let req = format!(
                "GET /mqtt HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n{}\r\n",
                if sub.is_empty() { String::new() } else { format!("Sec-WebSocket-Protocol: {sub}\r\n") }
            );
            let mut req = req.into_bytes();
            // a client that stops in the middle of its handshake
            req.truncate(i(op, "wscut", 1 << 20) as usize);
            pipe.lock().unwrap().inbuf.extend(req);
        }
        let ended = Arc::new(Mutex::new(None));
        let (st, e2, hk, gl) = (MockStream(pipe.clone()), ended.clone(), self.hook.clone(), self.global.clone());
        let peer: SocketAddr = ([127, 0, 0, 1], 10000 + k as u16).into();
        self.rt.spawn(async move {
            let r = handle_accept(st, a, peer, hk, gl).await;
            *e2.lock().unwrap() = Some(match r {
                Ok(()) => "ok".into(),
                Err(e) => format!("{:?}", e.kind()),
            });
        });
        self.conns.insert(
            k,
            Conn {
                pipe,
                v: i(op, "v", 5),
                cid: s(op, "cid"),
                raw: vec![],
                mqtt: vec![],
                ws: ws.then(Ws::default),
                garbage: false,
                closed: false,
                ended,
                ended_seen: false,
                aliases: HashMap::new(),
                auto: i(op, "auto", 0) == 1,
                split: i(op, "wssplit", i(&self.net, "wssplit", 0)) as usize,
                scram: None,
                server_first: String::new(),
                cut: false,
            },
        );
    }

    fn send_raw(&mut self, k: i64, b: Vec<u8>) {
        if let Some(c) = self.conns.get(&k) {
            let mut p = c.pipe.lock().unwrap();
            p.inbuf.extend(b);
            wake(&mut p);
        }
    }

    fn send(&mut self, k: i64, b: Vec<u8>) {
        let Some(c) = self.conns.get_mut(&k) else { return };
        if let Some(ws) = c.ws.as_mut() {
            let n = if c.split == 0 { b.len().max(1) } else { c.split };
            let mut o = Vec::new();
            for part in b.chunks(n) {
                o.extend(ws_frame(2, true, part));
            }
            if !ws.up {
                ws.queued.extend(o);
                return;
            }
            self.send_raw(k, o);
        } else {
            self.send_raw(k, b);
        }
    }

    /// false = not applicable in the present state of the real system (recorded as a skip)
    fn apply(&mut self, op: &mut Value) -> bool {
        let t = s(op, "t");
        let k = i(op, "k", 0);
        let alive = self.conns.get(&k).is_some_and(|c| !c.closed && !c.cut);
        let v = self.conns.get(&k).map(|c| c.v).unwrap_or(5);
        match t.as_str() {
            "open" => self.open(k, op),
            "connect" => {
                if !self.conns.contains_key(&k) {
                    self.open(k, op);
                } else if !alive {
                    return false;
                }
                let c = self.conns.get_mut(&k).unwrap();
                c.cid = s(op, "cid");
                c.v = i(op, "v", 5);
                let mut wire_op = op.clone();
                if let Some(sp) = op.get("scram") {
                    let (cl, first) = scram::Client::new(sp);
                    c.scram = Some(cl);
                    wire_op["am"] = json!("SCRAM-SHA-256");
                    wire_op["ad"] = json!(first);
                }
                self.send(k, wire::connect(&wire_op));
            }
            "scramfinal" => {
                if !alive {
                    return false;
                }
                let c = self.conns.get_mut(&k).unwrap();
                let sf = c.server_first.clone();
                let Some(cl) = c.scram.as_mut() else { return false };
                let Some(fin) = cl.finale(&sf, op) else { return false };
                let mut a = op.clone();
                if a.get("am").is_none() {
                    a["am"] = json!("SCRAM-SHA-256");
                }
                a["ad"] = json!(fin);
                self.send(k, wire::auth(&a));
            }
            "scramreplay" => {
                // send AUTH with the client-first message of another exchange / arbitrary text
                if !alive {
                    return false;
                }
                let mut a = op.clone();
                a["am"] = json!("SCRAM-SHA-256");
                self.send(k, wire::auth(&a));
            }
            "auth" if alive => self.send(k, wire::auth(op)),
            "pub" if alive => self.send(k, wire::publish(v, op)),
            "sub" if alive => self.send(k, wire::subscribe(v, op)),
            "unsub" if alive => self.send(k, wire::unsubscribe(v, op)),
            "puback" | "pubrec" | "pubcomp" if alive => {
                let mut pid = i(op, "pid", 0);
                if pid == 0 {
                    let cid = self.conns[&k].cid.clone();
                    match self.pids.get(&(cid, i(op, "pl", 0))) {
                        Some(p) => pid = *p,
                        None => return false,
                    }
                }
                op["pid"] = json!(pid);
                let h = match t.as_str() {
                    "puback" => 0x40,
                    "pubrec" => 0x50,
                    _ => 0x70,
                };
                self.send(k, wire::ack(v, h, pid, i(op, "rc", 0)));
            }
            "pubrel" if alive => self.send(k, wire::ack(v, 0x62, i(op, "pid", 1), i(op, "rc", 0))),
            "ping" if alive => self.send(k, vec![0xc0, 0]),
            "disc" if alive => self.send(k, wire::disconnect(v, op)),
            "cut" | "reset" => {
                let Some(c) = self.conns.get_mut(&k) else { return false };
                if c.cut || c.closed {
                    return false;
                }
                c.cut = true;
                let mut p = c.pipe.lock().unwrap();
                if t == "cut" {
                    p.eof = true;
                } else {
                    p.reset = true;
                }
                wake(&mut p);
            }
            "raw" if alive => self.send(k, wire::unhex(&s(op, "hex"))),
            "rawtcp" if alive => self.send_raw(k, wire::unhex(&s(op, "hex"))),
            "wsframe" if alive => {
                let f = ws_frame(i(op, "opcode", 2) as u8, i(op, "fin", 1) == 1, &wire::unhex(&s(op, "hex")));
                self.send_raw(k, f);
            }
            "hold" | "unhold" if alive => {
                let c = &self.conns[&k];
                let mut p = c.pipe.lock().unwrap();
                p.held = t == "hold";
                if t == "unhold" {
                    wake(&mut p);
                }
            }
            "adv" => {
                let ms = i(op, "ms", 0) as u64;
                let step = i(op, "step", 500).max(1) as u64;
                let target = self.now_ms + ms;
                while self.now_ms < target {
                    self.settle();
                    self.now_ms = (self.now_ms + step).min(target);
                    clock::set_ms(self.now_ms);
                }
            }
            "hook" => {
                self.hook.cfg.lock().unwrap().insert(s(op, "name"), op.clone());
            }
            "srvpub" if alive => {
                // the embedding program publishes (a hook action, triggered by a harmless UNSUBSCRIBE)
                let mut a = op.clone();
                a["a"] = json!("pub");
                let h = json!({"once":1,"actions":[a]});
                self.hook.cfg.lock().unwrap().insert("after_unsubscribe".into(), h);
                self.send(k, wire::unsubscribe(v, &json!({"pid":65000,"fs":[{"f":["zz","none"]}]})));
            }
            "stat" => {}
            _ => return false,
        }
        true
    }

    fn settle(&mut self) {
        let mut quiet = 0;
        let mut guard = 0;
        while quiet < self.rounds && guard < 20000 {
            guard += 1;
            let before = ACTIVITY.load(Ordering::Relaxed);
            self.rt.block_on(async {
                for _ in 0..8 {
                    tokio::task::yield_now().await;
                }
            });
            let moved = self.collect();
            if moved || ACTIVITY.load(Ordering::Relaxed) != before {
                quiet = 0;
            } else {
                quiet += 1;
            }
        }
    }

    /// Drain what the server wrote; returns whether a client reacted.
    fn collect(&mut self) -> bool {
        let mut replies: Vec<(i64, Vec<u8>)> = Vec::new();
        let mut raw_replies: Vec<(i64, Vec<u8>)> = Vec::new();
        let at = self.now_ms;
        let mut moved = false;
        for (k, c) in self.conns.iter_mut() {
            let k = *k;
            let (data, gone) = {
                let mut p = c.pipe.lock().unwrap();
                (std::mem::take(&mut p.out), p.shutdown || p.dropped)
            };
            if !data.is_empty() {
                moved = true;
            }
            c.raw.extend(data);
            if c.ws.is_some() {
                Self::ws_in(c, k, at, &mut self.out, &mut raw_replies);
            } else {
                let r = std::mem::take(&mut c.raw);
                c.mqtt.extend(r);
            }
            while !c.garbage {
                match wire::split(&c.mqtt) {
                    Ok(None) => break,
                    Ok(Some(n)) => {
                        let pkt: Vec<u8> = c.mqtt.drain(..n).collect();
                        match wire::decode(c.v, &pkt) {
                            Some(m) => Self::packet(c, k, at, m, &mut self.pids, &mut self.out, &mut replies),
                            None => {
                                self.out.push(json!({"k":k,"t":"garbage","hex":wire::hex(&pkt[..pkt.len().min(200)]),"at":at}));
                                c.garbage = true;
                            }
                        }
                    }
                    Err(()) => {
                        self.out.push(json!({"k":k,"t":"garbage","hex":"","at":at}));
                        c.garbage = true;
                    }
                }
            }
            if gone && !c.closed {
                c.closed = true;
                moved = true;
                self.closed.push(json!({"k":k,"at":at,"part":c.mqtt.len() as i64}));
                // a real client closes its half as well
                let mut p = c.pipe.lock().unwrap();
                p.eof = true;
                wake(&mut p);
            }
            if !c.ended_seen
                && let Some(r) = c.ended.lock().unwrap().clone()
            {
                c.ended_seen = true;
                moved = true;
                self.ended.push(json!({"k":k,"at":at,"r":r}));
            }
        }
        for (k, b) in replies {
            moved = true;
            self.send(k, b);
        }
        for (k, b) in raw_replies {
            moved = true;
            self.send_raw(k, b);
        }
        moved
    }

    fn packet(
        c: &mut Conn,
        k: i64,
        at: u64,
        mut m: Map<String, Value>,
        pids: &mut HashMap<(String, i64), i64>,
        out: &mut Vec<Value>,
        replies: &mut Vec<(i64, Vec<u8>)>,
    ) {
        m.insert("k".into(), json!(k));
        m.insert("at".into(), json!(at));
        let t = m["t"].as_str().unwrap().to_string();
        if t == "publish" {
            let wire_topic = m["wire"].as_str().unwrap().to_string();
            let ta = m["ta"].as_i64().unwrap();
            // resolve the alias the way a client has to
            let topic = if ta >= 0 {
                if wire_topic.is_empty() {
                    c.aliases.get(&ta).cloned().unwrap_or("?".into())
                } else {
                    c.aliases.insert(ta, wire_topic.clone());
                    wire_topic
                }
            } else {
                wire_topic
            };
            m.insert("lv".into(), json!(topic.split('/').collect::<Vec<_>>()));
            m.insert("topic".into(), json!(topic));
            let q = m["qos"].as_i64().unwrap();
            let pid = m["pid"].as_i64().unwrap();
            if q > 0 {
                pids.insert((c.cid.clone(), m["pl"].as_i64().unwrap()), pid);
                if c.auto {
                    replies.push((k, wire::ack(c.v, if q == 1 { 0x40 } else { 0x50 }, pid, 0)));
                }
            }
        } else if t == "pubrel" && c.auto {
            replies.push((k, wire::ack(c.v, 0x70, m["pid"].as_i64().unwrap(), 0)));
        } else if t == "pubrec" && c.auto && m["code"].as_i64().unwrap() < 0x80 {
            replies.push((k, wire::ack(c.v, 0x62, m["pid"].as_i64().unwrap(), 0)));
        } else if t == "auth" {
            c.server_first = m["ad"].as_str().unwrap_or("").to_string();
        } else if t == "connack"
            && let Some(sc) = &c.scram
        {
            let ok = sc.server_ok(m["ad"].as_str().unwrap_or(""));
            m.insert("sigok".into(), json!(ok as i64));
        }
        out.push(Value::Object(m));
    }

    fn ws_in(c: &mut Conn, k: i64, at: u64, out: &mut Vec<Value>, replies: &mut Vec<(i64, Vec<u8>)>) {
        let ws = c.ws.as_mut().unwrap();
        if !ws.up {
            let Some(p) = c.raw.windows(4).position(|w| w == b"\r\n\r\n") else { return };
            let head = String::from_utf8_lossy(&c.raw[..p]).to_string();
            c.raw.drain(..p + 4);
            let code: i64 = head.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            let proto = head
                .lines()
                .find_map(|l| l.to_ascii_lowercase().strip_prefix("sec-websocket-protocol:").map(|x| x.trim().to_string()))
                .unwrap_or_default();
            out.push(json!({"k":k,"t":"wsup","code":code,"proto":proto,"at":at}));
            ws.up = code == 101;
            if !ws.up {
                c.raw.clear();
                return;
            }
            if !ws.queued.is_empty() {
                replies.push((k, std::mem::take(&mut ws.queued)));
            }
        }
        loop {
            let b = &c.raw;
            if b.len() < 2 {
                return;
            }
            let (fin, opcode) = (b[0] & 0x80 != 0, b[0] & 15);
            if b[1] & 0x80 != 0 || b[0] & 0x70 != 0 {
                out.push(json!({"k":k,"t":"garbage","hex":"","at":at}));
                c.garbage = true;
                c.raw.clear();
                return;
            }
            let (n, h) = match b[1] {
                126 if b.len() >= 4 => (u16::from_be_bytes([b[2], b[3]]) as usize, 4),
                127 if b.len() >= 10 => (u64::from_be_bytes(b[2..10].try_into().unwrap()) as usize, 10),
                126 | 127 => return,
                n => (n as usize, 2),
            };
            if b.len() < h + n {
                return;
            }
            let data = b[h..h + n].to_vec();
            c.raw.drain(..h + n);
            match opcode {
                0 | 2 => {
                    ws.frag.extend(data);
                    if fin {
                        c.mqtt.extend(std::mem::take(&mut ws.frag));
                    }
                }
                9 => {
                    replies.push((k, ws_frame(10, true, &data)));
                    out.push(json!({"k":k,"t":"ws","opcode":9,"hex":wire::hex(&data),"at":at}));
                }
                8 => {
                    replies.push((k, ws_frame(8, true, &data)));
                    out.push(json!({"k":k,"t":"ws","opcode":8,"hex":wire::hex(&data),"at":at}));
                }
                o => out.push(json!({"k":k,"t":"ws","opcode":o,"hex":wire::hex(&data),"at":at})),
            }
        }
    }
}

#[allow(dead_code)]
pub fn b64(b: &[u8]) -> String {
    base64::engine::general_purpose::STANDARD_NO_PAD.encode(b)
}
