//! A programmable hook: every invocation is logged, and the script decides its result.
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

use akasa_core::mqtt_proto::{v3, v5, QoS, QosPid, TopicFilter, TopicName};
use akasa_core::{
    Hook, HookAction, HookConnectCode, HookError, HookPublishCode, HookResult, HookSubscribeCode,
    HookUnsubscribeCode, PublishAction, SessionV3, SessionV5, SubscribeAction, UnsubscribeAction,
};
use bytes::Bytes;
use serde_json::{json, Value};

use crate::mock::touch;
use crate::wire::{filter, i, levels, payload, s};

#[derive(Clone, Default)]
pub struct SimHook {
    pub cfg: Arc<Mutex<HashMap<String, Value>>>,
    pub log: Arc<Mutex<Vec<Value>>>,
}

pub fn qos(n: i64) -> QoS {
    match n {
        0 => QoS::Level0,
        1 => QoS::Level1,
        _ => QoS::Level2,
    }
}
fn qn(q: QosPid) -> i64 {
    match q {
        QosPid::Level0 => 0,
        QosPid::Level1(_) => 1,
        QosPid::Level2(_) => 2,
    }
}

impl SimHook {
    fn get(&self, name: &str) -> Value {
        let mut c = self.cfg.lock().unwrap();
        let v = c.get(name).cloned().unwrap_or(json!({}));
        if i(&v, "once", 0) == 1 {
            c.remove(name);
        }
        v
    }
    fn note(&self, v: Value) {
        touch();
        self.log.lock().unwrap().push(v);
    }
    async fn delay(&self, c: &Value) {
        for _ in 0..i(c, "yields", 0) {
            tokio::task::yield_now().await;
        }
        let ms = i(c, "ms", 0);
        if ms > 0 {
            tokio::time::sleep(std::time::Duration::from_millis(ms as u64)).await;
        }
        touch();
    }
    fn actions(&self, c: &Value) -> HookResult<Vec<HookAction>> {
        if i(c, "err", 0) == 1 {
            return Err(HookError::Internal);
        }
        let mut out = Vec::new();
        if let Some(a) = c.get("actions").and_then(|x| x.as_array()) {
            for x in a {
                match s(x, "a").as_str() {
                    "pub" => out.push(HookAction::Publish(PublishAction {
                        retain: i(x, "retain", 0) == 1,
                        qos: qos(i(x, "qos", 0)),
                        topic_name: TopicName::try_from(levels(&x["lv"])).unwrap(),
                        payload: Bytes::from(payload(x, "pl", "pad")),
                        payload_is_utf8: None,
                        message_expiry_interval: None,
                        content_type: None,
                    })),
                    "sub" => out.push(HookAction::Subscribe(SubscribeAction(
                        x["fs"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|f| (TopicFilter::try_from(filter(f)).unwrap(), qos(i(f, "q", 0))))
                            .collect(),
                    ))),
                    _ => out.push(HookAction::Unsubscribe(UnsubscribeAction(
                        x["fs"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|f| TopicFilter::try_from(filter(f)).unwrap())
                            .collect(),
                    ))),
                }
            }
        }
        Ok(out)
    }
}

fn ccode(c: &Value) -> HookResult<HookConnectCode> {
    use HookConnectCode::*;
    if i(c, "err", 0) == 1 {
        return Err(HookError::Internal);
    }
    Ok(match s(c, "code").as_str() {
        "" | "Success" => Success,
        "ClientIdentifierNotValid" => ClientIdentifierNotValid,
        "BadUserNameOrPassword" => BadUserNameOrPassword,
        "NotAuthorized" => NotAuthorized,
        "ServerUnavailable" => ServerUnavailable,
        "QuotaExceeded" => QuotaExceeded,
        "ConnectionRateExceeded" => ConnectionRateExceeded,
        _ => UnspecifiedError,
    })
}
fn pcode(c: &Value) -> HookResult<HookPublishCode> {
    use HookPublishCode::*;
    if i(c, "err", 0) == 1 {
        return Err(HookError::Internal);
    }
    Ok(match s(c, "code").as_str() {
        "" | "Success" => Success,
        "NotAuthorized" => NotAuthorized,
        "TopicNameInvalid" => TopicNameInvalid,
        "QuotaExceeded" => QuotaExceeded,
        _ => UnspecifiedError,
    })
}
fn scode(c: &Value) -> HookResult<HookSubscribeCode> {
    use HookSubscribeCode::*;
    if i(c, "err", 0) == 1 {
        return Err(HookError::Internal);
    }
    Ok(match s(c, "code").as_str() {
        "" | "Success" => Success,
        "NotAuthorized" => NotAuthorized,
        "TopicFilterInvalid" => TopicFilterInvalid,
        "QuotaExceeded" => QuotaExceeded,
        _ => UnspecifiedError,
    })
}
fn ucode(c: &Value) -> HookResult<HookUnsubscribeCode> {
    use HookUnsubscribeCode::*;
    if i(c, "err", 0) == 1 {
        return Err(HookError::Internal);
    }
    Ok(match s(c, "code").as_str() {
        "" | "Success" => Success,
        "NotAuthorized" => NotAuthorized,
        "TopicFilterInvalid" => TopicFilterInvalid,
        _ => UnspecifiedError,
    })
}
fn pnum(b: &[u8]) -> i64 {
    if b.is_empty() {
        return 0;
    }
    std::str::from_utf8(b)
        .ok()
        .and_then(|t| t.strip_prefix('m'))
        .map(|t| t.trim_end_matches('.').to_string())
        .and_then(|t| t.parse().ok())
        .unwrap_or(-1)
}
fn split(t: &str) -> Vec<String> {
    t.split('/').map(|x| x.to_string()).collect()
}

macro_rules! hooks {
    ($bc:ident $ac:ident $bp:ident $ap:ident $bs:ident $as_:ident $bu:ident $au:ident $ad:ident $v:ident $sess:ident $n:expr, $code:ty) => {
        async fn $bc(&self, peer: SocketAddr, c: &$v::Connect) -> HookResult<HookConnectCode> {
            let k = self.get("before_connect");
            self.note(json!({"h":"before_connect","v":$n,"cid":c.client_id.to_string(),"peer":peer.to_string()}));
            self.delay(&k).await;
            ccode(&k)
        }
        async fn $ac(&self, x: &$sess, present: bool) -> HookResult<Vec<HookAction>> {
            let k = self.get("after_connect");
            self.note(json!({"h":"after_connect","v":$n,"cid":x.client_identifier.to_string(),"sp":present as i64,"peer":x.peer.to_string()}));
            self.delay(&k).await;
            self.actions(&k)
        }
        async fn $bp(&self, x: &$sess, len: usize, body: &[u8], p: &mut $v::Publish, ch: &mut bool) -> HookResult<HookPublishCode> {
            let k = self.get("before_publish");
            self.note(json!({"h":"before_publish","v":$n,"cid":x.client_identifier.to_string(),
                "lv":split(&p.topic_name),"qos":qn(p.qos_pid),"pl":pnum(&p.payload),"retain":p.retain as i64,"len":len,"blen":body.len()}));
            self.delay(&k).await;
            if let Some(lv) = k.get("setlv") {
                p.topic_name = TopicName::try_from(levels(lv)).unwrap();
                *ch = true;
            }
            if i(&k, "setpl", -1) >= 0 {
                p.payload = Bytes::from(payload(&k, "setpl", "pad"));
                *ch = true;
            }
            pcode(&k)
        }
        async fn $ap(&self, x: &$sess, _len: usize, _body: &[u8], p: &$v::Publish, ch: bool) -> HookResult<Vec<HookAction>> {
            let k = self.get("after_publish");
            self.note(json!({"h":"after_publish","v":$n,"cid":x.client_identifier.to_string(),
                "lv":split(&p.topic_name),"qos":qn(p.qos_pid),"pl":pnum(&p.payload),"changed":ch as i64}));
            self.delay(&k).await;
            self.actions(&k)
        }
        async fn $bs(&self, x: &$sess, _len: usize, _body: &[u8], p: &mut $v::Subscribe, ch: &mut bool) -> HookResult<HookSubscribeCode> {
            let k = self.get("before_subscribe");
            self.note(json!({"h":"before_subscribe","v":$n,"cid":x.client_identifier.to_string(),"n":p.topics.len()}));
            self.delay(&k).await;
            if let Some(lv) = k.get("setlv") {
                for t in p.topics.iter_mut() {
                    t.0 = TopicFilter::try_from(levels(lv)).unwrap();
                }
                *ch = true;
            }
            scode(&k)
        }
        async fn $as_(&self, x: &$sess, _len: usize, _body: &[u8], _p: &$v::Subscribe, ch: bool, codes: Option<Vec<$code>>) -> HookResult<Vec<HookAction>> {
            let k = self.get("after_subscribe");
            self.note(json!({"h":"after_subscribe","v":$n,"cid":x.client_identifier.to_string(),"changed":ch as i64,
                "codes": codes.map(|c| c.into_iter().map(|y| y as u8 as i64).collect::<Vec<_>>()).unwrap_or_default()}));
            self.delay(&k).await;
            self.actions(&k)
        }
        async fn $bu(&self, x: &$sess, _len: usize, _body: &[u8], p: &mut $v::Unsubscribe, ch: &mut bool) -> HookResult<HookUnsubscribeCode> {
            let k = self.get("before_unsubscribe");
            self.note(json!({"h":"before_unsubscribe","v":$n,"cid":x.client_identifier.to_string(),"n":p.topics.len()}));
            self.delay(&k).await;
            if let Some(lv) = k.get("setlv") {
                for t in p.topics.iter_mut() {
                    *t = TopicFilter::try_from(levels(lv)).unwrap();
                }
                *ch = true;
            }
            ucode(&k)
        }
        async fn $au(&self, x: &$sess, _len: usize, _body: &[u8], _p: &$v::Unsubscribe, ch: bool) -> HookResult<Vec<HookAction>> {
            let k = self.get("after_unsubscribe");
            self.note(json!({"h":"after_unsubscribe","v":$n,"cid":x.client_identifier.to_string(),"changed":ch as i64}));
            self.delay(&k).await;
            self.actions(&k)
        }
        async fn $ad(&self, x: &$sess, taken: bool) -> HookResult<()> {
            let k = self.get("after_disconnect");
            self.note(json!({"h":"after_disconnect","v":$n,"cid":x.client_identifier.to_string(),"taken":taken as i64}));
            self.delay(&k).await;
            if i(&k, "err", 0) == 1 { Err(HookError::Internal) } else { Ok(()) }
        }
    };
}

impl Hook for SimHook {
    hooks!(v5_before_connect v5_after_connect v5_before_publish v5_after_publish v5_before_subscribe v5_after_subscribe
        v5_before_unsubscribe v5_after_unsubscribe v5_after_disconnect v5 SessionV5 5, v5::SubscribeReasonCode);
    hooks!(v3_before_connect v3_after_connect v3_before_publish v3_after_publish v3_before_subscribe v3_after_subscribe
        v3_before_unsubscribe v3_after_unsubscribe v3_after_disconnect v3 SessionV3 4, v3::SubscribeReturnCode);
}
