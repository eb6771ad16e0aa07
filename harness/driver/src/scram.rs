//! SCRAM-SHA-256 client (RFC 5802 / 7677), written independently of the broker's.
use base64::{engine::general_purpose::STANDARD, Engine};
use ring::{digest, hmac, pbkdf2};
use serde_json::Value;
use std::num::NonZeroU32;

use crate::wire::{i, s};

#[derive(Clone, Default, Debug)]
pub struct Client {
    pub user: String,
    pub pw: String,
    pub nonce: String,
    pub gs2: String,
    pub first_bare: String,
    pub server_sig: Vec<u8>,
}

fn esc(t: &str) -> String {
    t.replace('=', "=3D").replace(',', "=2C")
}

impl Client {
    /// `spec`: {user, pw, authzid, flag, nonce, firstmut}
    pub fn new(spec: &Value) -> (Client, String) {
        let user = s(spec, "user");
        let az = s(spec, "authzid");
        let flag = if s(spec, "flag").is_empty() { "n".to_string() } else { s(spec, "flag") };
        let nonce = if s(spec, "nonce").is_empty() { "rOprNGfwEbeRWgbNEkqO".to_string() } else { s(spec, "nonce") };
        let gs2 = format!("{},{},", flag, if az.is_empty() { String::new() } else { format!("a={}", esc(&az)) });
        let bare = format!("n={},r={}", esc(&user), nonce);
        let first = match s(spec, "firstmut").as_str() {
            "" => format!("{gs2}{bare}"),
            "nouser" => format!("{gs2}r={nonce}"),
            "nononce" => format!("{gs2}n={}", esc(&user)),
            "empty" => String::new(),
            "cbind" => format!("p=tls-unique,,{bare}"),
            "mext" => format!("{gs2}m=x,{bare}"),
            "badesc" => format!("{gs2}n=a=zz,r={nonce}"),
            raw => raw.to_string(),
        };
        (Client { user, pw: s(spec, "pw"), nonce, gs2, first_bare: bare, server_sig: vec![] }, first)
    }

    /// Returns client-final, after mutation `how`; None when server-first does not parse.
    pub fn finale(&mut self, server_first: &str, op: &Value) -> Option<String> {
        let mut r = None;
        let mut salt = None;
        let mut it = None;
        for part in server_first.split(',') {
            if let Some(x) = part.strip_prefix("r=") {
                r = Some(x.to_string());
            } else if let Some(x) = part.strip_prefix("s=") {
                salt = STANDARD.decode(x).ok();
            } else if let Some(x) = part.strip_prefix("i=") {
                it = x.parse::<u32>().ok().and_then(NonZeroU32::new);
            }
        }
        let (r, salt, it) = (r?, salt?, it?);
        if !r.starts_with(&self.nonce) || r.len() <= self.nonce.len() {
            return None;
        }
        let how = s(op, "how");
        let pw = if how == "badpw" { format!("{}x", self.pw) } else { self.pw.clone() };
        let mut salted = [0u8; 32];
        pbkdf2::derive(pbkdf2::PBKDF2_HMAC_SHA256, it, &salt, pw.as_bytes(), &mut salted);
        let gs2 = if how == "badgs2" { "y,,".to_string() } else { self.gs2.clone() };
        let nonce = match how.as_str() {
            "badnonce" => format!("{r}x"),
            "clientnonce" => self.nonce.clone(),
            _ => r.clone(),
        };
        let mut without = format!("c={},r={}", STANDARD.encode(gs2.as_bytes()), nonce);
        if how == "ext" {
            without = format!("{without},x=1");
        }
        let am = format!("{},{},{}", self.first_bare, server_first, without);
        let k = hmac::Key::new(hmac::HMAC_SHA256, &salted);
        let ck = hmac::sign(&k, b"Client Key");
        let sk = hmac::sign(&k, b"Server Key");
        let stored = digest::digest(&digest::SHA256, ck.as_ref());
        let sig = hmac::sign(&hmac::Key::new(hmac::HMAC_SHA256, stored.as_ref()), am.as_bytes());
        let mut proof: Vec<u8> = ck.as_ref().iter().zip(sig.as_ref()).map(|(a, b)| a ^ b).collect();
        self.server_sig = hmac::sign(&hmac::Key::new(hmac::HMAC_SHA256, sk.as_ref()), am.as_bytes()).as_ref().to_vec();
        match how.as_str() {
            "flip" => {
                let at = (i(op, "bit", 0) as usize) % 256;
                proof[at / 8] ^= 1 << (at % 8);
            }
            "zero" => proof.iter_mut().for_each(|b| *b = 0),
            "short" => proof.truncate(16),
            "long" => proof.push(0),
            "none" => proof.clear(),
            _ => {}
        }
        if how == "noproof" {
            return Some(without);
        }
        Some(format!("{without},p={}", STANDARD.encode(&proof)))
    }

    pub fn server_ok(&self, server_final: &str) -> bool {
        server_final.strip_prefix("v=").and_then(|x| STANDARD.decode(x).ok()).is_some_and(|x| x == self.server_sig)
    }
}
