//! MQTT v5.0 packets.
use std::hash::{Hash, Hasher};
use std::io;
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt};

use crate::*;

pub type PollPacketState = GenericPollPacketState<Header>;
pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;

#[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
pub enum ErrorV5 {
    #[error("common error: {0}")]
    Common(#[from] Error),
    #[error("invalid reason code {1} in {0}")]
    InvalidReasonCode(&'static str, u8),
    #[error("invalid subscription option {0}")]
    InvalidSubscriptionOption(u8),
    #[error("duplicated property {0}")]
    DuplicatedProperty(u8),
    #[error("invalid property {1} in {0}")]
    InvalidProperty(&'static str, u8),
    #[error("invalid property length {0}")]
    InvalidPropertyLength(u32),
    #[error("invalid byte property {0} value {1}")]
    InvalidByteProperty(u8, u8),
    #[error("invalid payload format, utf8 expected")]
    InvalidPayloadFormat,
}
impl ErrorV5 {
    pub fn is_eof(&self) -> bool {
        matches!(self, ErrorV5::Common(e) if e.is_eof())
    }
}
impl From<io::Error> for ErrorV5 {
    fn from(err: io::Error) -> ErrorV5 {
        ErrorV5::Common(err.into())
    }
}

type R<T> = Result<T, ErrorV5>;

// ------------------------------------------------------------------ properties

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct VarByteInt(u32);
impl VarByteInt {
    pub fn value(self) -> u32 {
        self.0
    }
}
impl TryFrom<u32> for VarByteInt {
    type Error = Error;
    fn try_from(v: u32) -> Result<Self, Error> {
        if v > 268_435_455 {
            Err(Error::InvalidVarByteInt)
        } else {
            Ok(VarByteInt(v))
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct UserProperty {
    pub name: Arc<str>,
    pub value: Arc<str>,
}

trait Prop: Sized {
    fn get(id: u8, r: &mut &[u8]) -> R<Self>;
    fn put(&self, out: &mut Vec<u8>);
}
impl Prop for bool {
    fn get(id: u8, r: &mut &[u8]) -> R<Self> {
        match get_u8(r)? {
            0 => Ok(false),
            1 => Ok(true),
            n => Err(ErrorV5::InvalidByteProperty(id, n)),
        }
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
}
impl Prop for QoS {
    fn get(id: u8, r: &mut &[u8]) -> R<Self> {
        match get_u8(r)? {
            0 => Ok(QoS::Level0),
            1 => Ok(QoS::Level1),
            n => Err(ErrorV5::InvalidByteProperty(id, n)),
        }
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
}
impl Prop for u16 {
    fn get(_: u8, r: &mut &[u8]) -> R<Self> {
        Ok(get_u16(r)?)
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_u16(out, *self)
    }
}
impl Prop for u32 {
    fn get(_: u8, r: &mut &[u8]) -> R<Self> {
        Ok(get_u32(r)?)
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_u32(out, *self)
    }
}
impl Prop for VarByteInt {
    fn get(_: u8, r: &mut &[u8]) -> R<Self> {
        Ok(VarByteInt(get_var_int(r)?))
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_var_int(out, self.0 as usize)
    }
}
impl Prop for Arc<str> {
    fn get(_: u8, r: &mut &[u8]) -> R<Self> {
        Ok(get_arc_str(r)?)
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(out, self.as_bytes())
    }
}
impl Prop for Bytes {
    fn get(_: u8, r: &mut &[u8]) -> R<Self> {
        Ok(get_bytes(r)?)
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(out, self)
    }
}
impl Prop for TopicName {
    fn get(_: u8, r: &mut &[u8]) -> R<Self> {
        Ok(TopicName::try_from(get_string(r)?)?)
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(out, self.as_bytes())
    }
}
impl Prop for UserProperty {
    fn get(_: u8, r: &mut &[u8]) -> R<Self> {
        Ok(UserProperty { name: get_arc_str(r)?, value: get_arc_str(r)? })
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(out, self.name.as_bytes());
        put_bytes(out, self.value.as_bytes());
    }
}

macro_rules! props {
    ($name:ident { $($f:ident : $t:ty = $id:literal),* ; $($v:ident : $vt:ty = $vid:literal),* }) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
        pub struct $name {
            $(pub $f: Option<$t>,)*
            $(pub $v: Vec<$vt>,)*
        }
        impl $name {
            #[allow(unused_variables)]
            fn get_all(r: &mut &[u8]) -> R<Self> {
                let len = get_var_int(r)?;
                if len as usize > r.len() {
                    return Err(ErrorV5::InvalidPropertyLength(len));
                }
                let mut p = get_n(r, len as usize)?;
                let p = &mut p;
                let mut out = Self::default();
                while !p.is_empty() {
                    let id = get_u8(p)?;
                    match id {
                        $($id => {
                            if out.$f.is_some() {
                                return Err(ErrorV5::DuplicatedProperty(id));
                            }
                            out.$f = Some(<$t as Prop>::get(id, p)?);
                        })*
                        $($vid => out.$v.push(<$vt as Prop>::get(id, p)?),)*
                        _ => return Err(ErrorV5::InvalidProperty(stringify!($name), id)),
                    }
                }
                Ok(out)
            }
            fn raw(&self) -> Vec<u8> {
                let mut b = Vec::new();
                $(if let Some(v) = &self.$f {
                    b.push($id);
                    v.put(&mut b);
                })*
                $(for v in &self.$v {
                    b.push($vid);
                    v.put(&mut b);
                })*
                b
            }
            fn put_all(&self, out: &mut Vec<u8>) {
                let b = self.raw();
                put_var_int(out, b.len());
                out.extend_from_slice(&b);
            }
            #[allow(dead_code)]
            fn is_empty(&self) -> bool {
                $(self.$f.is_none() &&)* $(self.$v.is_empty() &&)* true
            }
        }
    };
}

props!(ConnectProperties {
    session_expiry_interval: u32 = 0x11, receive_max: u16 = 0x21, max_packet_size: u32 = 0x27,
    topic_alias_max: u16 = 0x22, request_response_info: bool = 0x19,
    request_problem_info: bool = 0x17, auth_method: Arc<str> = 0x15, auth_data: Bytes = 0x16;
    user_properties: UserProperty = 0x26 });
props!(WillProperties {
    delay_interval: u32 = 0x18, payload_is_utf8: bool = 0x01, message_expiry_interval: u32 = 0x02,
    content_type: Arc<str> = 0x03, response_topic: TopicName = 0x08, correlation_data: Bytes = 0x09;
    user_properties: UserProperty = 0x26 });
props!(ConnackProperties {
    session_expiry_interval: u32 = 0x11, receive_max: u16 = 0x21, max_qos: QoS = 0x24,
    retain_available: bool = 0x25, max_packet_size: u32 = 0x27, assigned_client_id: Arc<str> = 0x12,
    topic_alias_max: u16 = 0x22, reason_string: Arc<str> = 0x1f,
    wildcard_subscription_available: bool = 0x28, subscription_id_available: bool = 0x29,
    shared_subscription_available: bool = 0x2a, server_keep_alive: u16 = 0x13,
    response_info: Arc<str> = 0x1a, server_reference: Arc<str> = 0x1c,
    auth_method: Arc<str> = 0x15, auth_data: Bytes = 0x16;
    user_properties: UserProperty = 0x26 });
props!(PublishProperties {
    payload_is_utf8: bool = 0x01, message_expiry_interval: u32 = 0x02, topic_alias: u16 = 0x23,
    response_topic: TopicName = 0x08, correlation_data: Bytes = 0x09, content_type: Arc<str> = 0x03;
    user_properties: UserProperty = 0x26, subscription_ids: VarByteInt = 0x0b });
props!(PubackProperties { reason_string: Arc<str> = 0x1f; user_properties: UserProperty = 0x26 });
props!(PubrecProperties { reason_string: Arc<str> = 0x1f; user_properties: UserProperty = 0x26 });
props!(PubrelProperties { reason_string: Arc<str> = 0x1f; user_properties: UserProperty = 0x26 });
props!(PubcompProperties { reason_string: Arc<str> = 0x1f; user_properties: UserProperty = 0x26 });
props!(SubackProperties { reason_string: Arc<str> = 0x1f; user_properties: UserProperty = 0x26 });
props!(UnsubackProperties { reason_string: Arc<str> = 0x1f; user_properties: UserProperty = 0x26 });
props!(SubscribeProperties { subscription_id: VarByteInt = 0x0b; user_properties: UserProperty = 0x26 });
props!(UnsubscribeProperties { ; user_properties: UserProperty = 0x26 });
props!(DisconnectProperties {
    session_expiry_interval: u32 = 0x11, reason_string: Arc<str> = 0x1f, server_reference: Arc<str> = 0x1c;
    user_properties: UserProperty = 0x26 });
props!(AuthProperties {
    auth_method: Arc<str> = 0x15, auth_data: Bytes = 0x16, reason_string: Arc<str> = 0x1f;
    user_properties: UserProperty = 0x26 });

// ------------------------------------------------------------------ reason codes

macro_rules! codes {
    ($name:ident { $($v:ident = $n:literal),* $(,)? }) => {
        #[repr(u8)]
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum $name { $($v = $n),* }
        impl $name {
            pub fn from_u8(b: u8) -> R<Self> {
                match b {
                    $($n => Ok($name::$v),)*
                    n => Err(ErrorV5::InvalidReasonCode(stringify!($name), n)),
                }
            }
        }
    };
}

codes!(ConnectReasonCode {
    Success = 0x00, UnspecifiedError = 0x80, MalformedPacket = 0x81, ProtocolError = 0x82,
    ImplementationSpecificError = 0x83, UnsupportedProtocolVersion = 0x84,
    ClientIdentifierNotValid = 0x85, BadUserNameOrPassword = 0x86, NotAuthorized = 0x87,
    ServerUnavailable = 0x88, ServerBusy = 0x89, Banned = 0x8a, BadAuthMethod = 0x8c,
    TopicNameInvalid = 0x90, PacketTooLarge = 0x95, QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9a, QoSNotSupported = 0x9b,
    UseAnotherServer = 0x9c, ServerMoved = 0x9d, ConnectionRateExceeded = 0x9f,
});
codes!(PubackReasonCode {
    Success = 0x00, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99,
});
codes!(PubrecReasonCode {
    Success = 0x00, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99,
});
codes!(PubrelReasonCode { Success = 0x00, PacketIdentifierNotFound = 0x92 });
codes!(PubcompReasonCode { Success = 0x00, PacketIdentifierNotFound = 0x92 });
codes!(SubscribeReasonCode {
    GrantedQoS0 = 0x00, GrantedQoS1 = 0x01, GrantedQoS2 = 0x02, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8f,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, SharedSubscriptionNotSupported = 0x9e,
    SubscriptionIdentifiersNotSupported = 0xa1, WildcardSubscriptionsNotSupported = 0xa2,
});
codes!(UnsubscribeReasonCode {
    Success = 0x00, NoSubscriptionExisted = 0x11, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8f,
    PacketIdentifierInUse = 0x91,
});
codes!(DisconnectReasonCode {
    NormalDisconnect = 0x00, DisconnectWithWillMessage = 0x04, UnspecifiedError = 0x80,
    MalformedPacket = 0x81, ProtocolError = 0x82, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, ServerBusy = 0x89, ServerShuttingDown = 0x8b, KeepAliveTimeout = 0x8d,
    SessionTakenOver = 0x8e, TopicFilterInvalid = 0x8f, TopicNameInvalid = 0x90,
    ReceiveMaximumExceeded = 0x93, TopicAliasInvalid = 0x94, PacketTooLarge = 0x95,
    MessageRateTooHigh = 0x96, QuotaExceeded = 0x97, AdministrativeAction = 0x98,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9a, QoSNotSupported = 0x9b,
    UserAnotherServer = 0x9c, ServerMoved = 0x9d, SharedSubscriptionNotSupported = 0x9e,
    ConnectionRateExceeded = 0x9f, MaximumConnectTime = 0xa0,
    SubscriptionIdentifiersNotSupported = 0xa1, WildcardSubscriptionsNotSupported = 0xa2,
});
codes!(AuthReasonCode { Success = 0x00, ContinueAuthentication = 0x18, ReAuthentication = 0x19 });

// ------------------------------------------------------------------ header

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PacketType {
    Connect, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe,
    Unsuback, Pingreq, Pingresp, Disconnect, Auth,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}

impl Header {
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> R<Header> {
        use PacketType::*;
        let flags = hd & 0x0f;
        let (typ, want) = match hd >> 4 {
            1 => (Connect, Some(0)),
            2 => (Connack, Some(0)),
            3 => (Publish, None),
            4 => (Puback, Some(0)),
            5 => (Pubrec, Some(0)),
            6 => (Pubrel, Some(2)),
            7 => (Pubcomp, Some(0)),
            8 => (Subscribe, Some(2)),
            9 => (Suback, Some(0)),
            10 => (Unsubscribe, Some(2)),
            11 => (Unsuback, Some(0)),
            12 => (Pingreq, Some(0)),
            13 => (Pingresp, Some(0)),
            14 => (Disconnect, Some(0)),
            15 => (Auth, Some(0)),
            _ => return Err(Error::InvalidHeader.into()),
        };
        let (mut dup, mut qos, mut retain) = (false, QoS::Level0, false);
        match want {
            Some(w) if w != flags => return Err(Error::InvalidHeader.into()),
            Some(_) => {}
            None => {
                dup = flags & 8 != 0;
                qos = QoS::from_u8((flags >> 1) & 3)?;
                retain = flags & 1 != 0;
            }
        }
        Ok(Header { typ, dup, qos, retain, remaining_len, total_len })
    }
}

impl PollHeader for Header {
    type Error = ErrorV5;
    type Packet = Packet;
    fn new_with(typ: u8, remaining_len: u32, total_len: u32) -> R<Self> {
        Header::new_with(typ, remaining_len, total_len)
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
    fn block_decode(self, r: &mut &[u8]) -> R<Packet> {
        decode_body(self, r).map_err(|e| {
            if e.is_eof() {
                Error::InvalidRemainingLength.into()
            } else {
                e
            }
        })
    }
}

fn decode_body(h: Header, r: &mut &[u8]) -> R<Packet> {
    use PacketType as T;
    macro_rules! ack {
        ($t:ident, $p:ident, $c:ident) => {{
            let pid = get_pid(r)?;
            let (mut reason_code, mut properties) = ($c::Success, $p::default());
            if !r.is_empty() {
                reason_code = $c::from_u8(get_u8(r)?)?;
                if !r.is_empty() {
                    properties = $p::get_all(r)?;
                }
            }
            Packet::$t($t { pid, reason_code, properties })
        }};
    }
    Ok(match h.typ {
        T::Connect => {
            let protocol = Protocol::decode(r)?;
            if protocol != Protocol::V500 {
                return Err(Error::UnexpectedProtocol(protocol).into());
            }
            Packet::Connect(Connect::decode_with(r, protocol)?)
        }
        T::Connack => {
            let flags = get_u8(r)?;
            if flags > 1 {
                return Err(Error::InvalidConnackFlags(flags).into());
            }
            Packet::Connack(Connack {
                session_present: flags == 1,
                reason_code: ConnectReasonCode::from_u8(get_u8(r)?)?,
                properties: ConnackProperties::get_all(r)?,
            })
        }
        T::Publish => {
            let topic_name = TopicName::try_from(get_string(r)?)?;
            let qos_pid = match h.qos {
                QoS::Level0 => QosPid::Level0,
                QoS::Level1 => QosPid::Level1(get_pid(r)?),
                QoS::Level2 => QosPid::Level2(get_pid(r)?),
            };
            let properties = PublishProperties::get_all(r)?;
            let payload = Bytes::copy_from_slice(std::mem::take(r));
            if properties.payload_is_utf8 == Some(true) && std::str::from_utf8(&payload).is_err() {
                return Err(ErrorV5::InvalidPayloadFormat);
            }
            Packet::Publish(Publish {
                dup: h.dup,
                retain: h.retain,
                qos_pid,
                topic_name,
                payload,
                properties,
            })
        }
        T::Puback => ack!(Puback, PubackProperties, PubackReasonCode),
        T::Pubrec => ack!(Pubrec, PubrecProperties, PubrecReasonCode),
        T::Pubrel => ack!(Pubrel, PubrelProperties, PubrelReasonCode),
        T::Pubcomp => ack!(Pubcomp, PubcompProperties, PubcompReasonCode),
        T::Subscribe => {
            let pid = get_pid(r)?;
            let properties = SubscribeProperties::get_all(r)?;
            let mut topics = Vec::new();
            while !r.is_empty() {
                let f = TopicFilter::try_from(get_string(r)?)?;
                topics.push((f, SubscriptionOptions::from_u8(get_u8(r)?)?));
            }
            if topics.is_empty() {
                return Err(Error::EmptySubscription.into());
            }
            Packet::Subscribe(Subscribe { pid, properties, topics })
        }
        T::Suback => {
            let pid = get_pid(r)?;
            let properties = SubackProperties::get_all(r)?;
            let mut topics = Vec::new();
            while !r.is_empty() {
                topics.push(SubscribeReasonCode::from_u8(get_u8(r)?)?);
            }
            Packet::Suback(Suback { pid, properties, topics })
        }
        T::Unsubscribe => {
            let pid = get_pid(r)?;
            let properties = UnsubscribeProperties::get_all(r)?;
            let mut topics = Vec::new();
            while !r.is_empty() {
                topics.push(TopicFilter::try_from(get_string(r)?)?);
            }
            if topics.is_empty() {
                return Err(Error::EmptySubscription.into());
            }
            Packet::Unsubscribe(Unsubscribe { pid, properties, topics })
        }
        T::Unsuback => {
            let pid = get_pid(r)?;
            let properties = UnsubackProperties::get_all(r)?;
            let mut topics = Vec::new();
            while !r.is_empty() {
                topics.push(UnsubscribeReasonCode::from_u8(get_u8(r)?)?);
            }
            Packet::Unsuback(Unsuback { pid, properties, topics })
        }
        T::Pingreq => Packet::Pingreq,
        T::Pingresp => Packet::Pingresp,
        T::Disconnect => {
            let (mut reason_code, mut properties) =
                (DisconnectReasonCode::NormalDisconnect, DisconnectProperties::default());
            if !r.is_empty() {
                reason_code = DisconnectReasonCode::from_u8(get_u8(r)?)?;
                if !r.is_empty() {
                    properties = DisconnectProperties::get_all(r)?;
                }
            }
            Packet::Disconnect(Disconnect { reason_code, properties })
        }
        T::Auth => {
            let (mut reason_code, mut properties) =
                (AuthReasonCode::Success, AuthProperties::default());
            if !r.is_empty() {
                reason_code = AuthReasonCode::from_u8(get_u8(r)?)?;
                if !r.is_empty() {
                    properties = AuthProperties::get_all(r)?;
                }
            }
            Packet::Auth(Auth { reason_code, properties })
        }
    })
}

// ------------------------------------------------------------------ packets

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Puback),
    Pubrec(Pubrec),
    Pubrel(Pubrel),
    Pubcomp(Pubcomp),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Unsuback),
    Pingreq,
    Pingresp,
    Disconnect(Disconnect),
    Auth(Auth),
}

macro_rules! from_packet {
    ($($t:ident),*) => { $( impl From<$t> for Packet { fn from(p: $t) -> Packet { Packet::$t(p) } } )* };
}
from_packet!(
    Connect, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe,
    Unsuback, Disconnect, Auth
);

impl Packet {
    /// Returns Ok(None) when the data is incomplete.
    pub fn decode(data: &[u8]) -> R<Option<Packet>> {
        let mut r = data;
        let (hd, remaining) = match (get_u8(&mut r), get_var_int(&mut r)) {
            (Ok(h), Ok(n)) => (h, n),
            (Err(e), _) | (_, Err(e)) => return if e.is_eof() { Ok(None) } else { Err(e.into()) },
        };
        let total = data.len() - r.len() + remaining as usize;
        let header = Header::new_with(hd, remaining, total as u32)?;
        if data.len() < total {
            return Ok(None);
        }
        let mut body = &data[total - remaining as usize..total];
        let p = header.block_decode(&mut body)?;
        if !body.is_empty() {
            return Err(Error::InvalidRemainingLength.into());
        }
        Ok(Some(p))
    }

    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> R<Packet> {
        let (hd, remaining, total) = decode_raw_header_async(reader).await?;
        let header = Header::new_with(hd, remaining, total as u32)?;
        let body = read_body(reader, remaining as usize).await?;
        let mut r = &body[..];
        let p = header.block_decode(&mut r)?;
        if !r.is_empty() {
            return Err(Error::InvalidRemainingLength.into());
        }
        Ok(p)
    }

    pub fn encode(&self) -> Result<VarBytes, Error> {
        let mut b = Vec::new();
        macro_rules! ack {
            ($p:expr, $c:ident, $typ:expr) => {{
                put_u16(&mut b, $p.pid.value());
                if $p.reason_code != $c::Success || !$p.properties.is_empty() {
                    b.push($p.reason_code as u8);
                    if !$p.properties.is_empty() {
                        $p.properties.put_all(&mut b);
                    }
                }
                $typ
            }};
        }
        let typ = match self {
            Packet::Connect(p) => {
                p.put(&mut b);
                0x10
            }
            Packet::Connack(p) => {
                b.push(p.session_present as u8);
                b.push(p.reason_code as u8);
                p.properties.put_all(&mut b);
                0x20
            }
            Packet::Publish(p) => {
                p.put(&mut b);
                0x30 | (p.dup as u8) << 3 | (p.qos_pid.qos() as u8) << 1 | p.retain as u8
            }
            Packet::Puback(p) => ack!(p, PubackReasonCode, 0x40),
            Packet::Pubrec(p) => ack!(p, PubrecReasonCode, 0x50),
            Packet::Pubrel(p) => ack!(p, PubrelReasonCode, 0x62),
            Packet::Pubcomp(p) => ack!(p, PubcompReasonCode, 0x70),
            Packet::Subscribe(p) => {
                put_u16(&mut b, p.pid.value());
                p.properties.put_all(&mut b);
                for (f, o) in &p.topics {
                    put_bytes(&mut b, f.as_bytes());
                    b.push(o.to_u8());
                }
                0x82
            }
            Packet::Suback(p) => {
                put_u16(&mut b, p.pid.value());
                p.properties.put_all(&mut b);
                b.extend(p.topics.iter().map(|c| *c as u8));
                0x90
            }
            Packet::Unsubscribe(p) => {
                put_u16(&mut b, p.pid.value());
                p.properties.put_all(&mut b);
                for f in &p.topics {
                    put_bytes(&mut b, f.as_bytes());
                }
                0xa2
            }
            Packet::Unsuback(p) => {
                put_u16(&mut b, p.pid.value());
                p.properties.put_all(&mut b);
                b.extend(p.topics.iter().map(|c| *c as u8));
                0xb0
            }
            Packet::Pingreq => 0xc0,
            Packet::Pingresp => 0xd0,
            Packet::Disconnect(p) => {
                let normal = p.reason_code == DisconnectReasonCode::NormalDisconnect;
                if !normal || !p.properties.is_empty() {
                    b.push(p.reason_code as u8);
                    if !p.properties.is_empty() {
                        p.properties.put_all(&mut b);
                    }
                }
                0xe0
            }
            Packet::Auth(p) => {
                if p.reason_code != AuthReasonCode::Success || !p.properties.is_empty() {
                    b.push(p.reason_code as u8);
                    p.properties.put_all(&mut b);
                }
                0xf0
            }
        };
        frame(typ, &b)
    }

    pub fn encode_len(&self) -> Result<usize, Error> {
        Ok(self.encode()?.as_ref().len())
    }

    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, writer: &mut T) -> R<()> {
        let data = self.encode()?;
        writer.write_all(data.as_ref()).await?;
        Ok(())
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: WillProperties,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, payload: Bytes) -> LastWill {
        LastWill { qos, retain: false, topic_name, payload, properties: Default::default() }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_start: bool,
    pub keep_alive: u16,
    pub properties: ConnectProperties,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}

impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Connect {
        Connect {
            protocol: Protocol::V500,
            clean_start: true,
            keep_alive,
            properties: Default::default(),
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }

    fn decode_with(r: &mut &[u8], protocol: Protocol) -> R<Connect> {
        let flags = get_u8(r)?;
        crate::v3::check_flags(flags)?;
        let keep_alive = get_u16(r)?;
        let properties = ConnectProperties::get_all(r)?;
        let client_id = get_arc_str(r)?;
        let last_will = if flags & 0x04 != 0 {
            let properties = WillProperties::get_all(r)?;
            let topic_name = TopicName::try_from(get_string(r)?)?;
            let payload = get_bytes(r)?;
            if properties.payload_is_utf8 == Some(true) && std::str::from_utf8(&payload).is_err() {
                return Err(ErrorV5::InvalidPayloadFormat);
            }
            Some(LastWill {
                qos: QoS::from_u8((flags >> 3) & 3)?,
                retain: flags & 0x20 != 0,
                topic_name,
                payload,
                properties,
            })
        } else {
            None
        };
        let username = if flags & 0x80 != 0 { Some(get_arc_str(r)?) } else { None };
        let password = if flags & 0x40 != 0 { Some(get_bytes(r)?) } else { None };
        Ok(Connect {
            protocol,
            clean_start: flags & 2 != 0,
            keep_alive,
            properties,
            client_id,
            last_will,
            username,
            password,
        })
    }

    /// Decode the rest of the packet after the protocol name and level.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        reader: &mut T,
        header: Header,
        protocol: Protocol,
    ) -> R<Connect> {
        let (name, _) = protocol.name_level();
        let used = 2 + name.len() + 1;
        let rest = (header.remaining_len as usize)
            .checked_sub(used)
            .ok_or(Error::InvalidRemainingLength)?;
        let body = read_body(reader, rest).await?;
        let mut r = &body[..];
        let connect = Connect::decode_with(&mut r, protocol).map_err(|e| {
            if e.is_eof() {
                Error::InvalidRemainingLength.into()
            } else {
                e
            }
        })?;
        if !r.is_empty() {
            return Err(Error::InvalidRemainingLength.into());
        }
        Ok(connect)
    }

    fn put(&self, b: &mut Vec<u8>) {
        self.protocol.put(b);
        let mut flags = (self.clean_start as u8) << 1;
        if let Some(w) = &self.last_will {
            flags |= 4 | (w.qos as u8) << 3 | (w.retain as u8) << 5;
        }
        flags |= (self.username.is_some() as u8) << 7 | (self.password.is_some() as u8) << 6;
        b.push(flags);
        put_u16(b, self.keep_alive);
        self.properties.put_all(b);
        put_bytes(b, self.client_id.as_bytes());
        if let Some(w) = &self.last_will {
            w.properties.put_all(b);
            put_bytes(b, w.topic_name.as_bytes());
            put_bytes(b, &w.payload);
        }
        if let Some(u) = &self.username {
            put_bytes(b, u.as_bytes());
        }
        if let Some(p) = &self.password {
            put_bytes(b, p);
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Connack {
    pub session_present: bool,
    pub reason_code: ConnectReasonCode,
    pub properties: ConnackProperties,
}
impl Connack {
    pub fn new(session_present: bool, reason_code: ConnectReasonCode) -> Connack {
        Connack { session_present, reason_code, properties: Default::default() }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Publish {
    pub dup: bool,
    pub retain: bool,
    pub qos_pid: QosPid,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: PublishProperties,
}
// The DUP flag is not part of the message, so a re-delivery hashes like the original.
impl Hash for Publish {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.retain.hash(s);
        self.qos_pid.hash(s);
        self.topic_name.hash(s);
        self.payload.hash(s);
        self.properties.hash(s);
    }
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Publish {
        Publish {
            dup: false,
            retain: false,
            qos_pid,
            topic_name,
            payload,
            properties: Default::default(),
        }
    }
    fn put(&self, b: &mut Vec<u8>) {
        put_bytes(b, self.topic_name.as_bytes());
        if let Some(pid) = self.qos_pid.pid() {
            put_u16(b, pid.value());
        }
        self.properties.put_all(b);
        b.extend_from_slice(&self.payload);
    }
}
impl Encodable for Publish {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        let mut b = Vec::new();
        self.put(&mut b);
        w.write_all(&b)
    }
    fn encode_len(&self) -> usize {
        let mut b = Vec::new();
        self.put(&mut b);
        b.len()
    }
}

macro_rules! ack_packet {
    ($t:ident, $p:ident, $c:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $t {
            pub pid: Pid,
            pub reason_code: $c,
            pub properties: $p,
        }
        impl $t {
            pub fn new(pid: Pid, reason_code: $c) -> $t {
                $t { pid, reason_code, properties: Default::default() }
            }
            pub fn new_success(pid: Pid) -> $t {
                $t::new(pid, $c::Success)
            }
        }
    };
}
ack_packet!(Puback, PubackProperties, PubackReasonCode);
ack_packet!(Pubrec, PubrecProperties, PubrecReasonCode);
ack_packet!(Pubrel, PubrelProperties, PubrelReasonCode);
ack_packet!(Pubcomp, PubcompProperties, PubcompReasonCode);

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum RetainHandling {
    SendAtSubscribe = 0,
    SendAtSubscribeIfNotExist = 1,
    DoNotSend = 2,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct SubscriptionOptions {
    pub max_qos: QoS,
    pub no_local: bool,
    pub retain_as_published: bool,
    pub retain_handling: RetainHandling,
}
impl SubscriptionOptions {
    pub fn new(max_qos: QoS) -> SubscriptionOptions {
        SubscriptionOptions {
            max_qos,
            no_local: false,
            retain_as_published: true,
            retain_handling: RetainHandling::SendAtSubscribe,
        }
    }
    pub fn to_u8(self) -> u8 {
        self.max_qos as u8
            | (self.no_local as u8) << 2
            | (self.retain_as_published as u8) << 3
            | (self.retain_handling as u8) << 4
    }
    pub fn from_u8(b: u8) -> R<Self> {
        let bad = || ErrorV5::InvalidSubscriptionOption(b);
        if b & 0xc0 != 0 {
            return Err(bad());
        }
        Ok(SubscriptionOptions {
            max_qos: QoS::from_u8(b & 3).map_err(|_| bad())?,
            no_local: b & 4 != 0,
            retain_as_published: b & 8 != 0,
            retain_handling: match (b >> 4) & 3 {
                0 => RetainHandling::SendAtSubscribe,
                1 => RetainHandling::SendAtSubscribeIfNotExist,
                2 => RetainHandling::DoNotSend,
                _ => return Err(bad()),
            },
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Subscribe {
    pub pid: Pid,
    pub properties: SubscribeProperties,
    pub topics: Vec<(TopicFilter, SubscriptionOptions)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, SubscriptionOptions)>) -> Subscribe {
        Subscribe { pid, properties: Default::default(), topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Suback {
    pub pid: Pid,
    pub properties: SubackProperties,
    pub topics: Vec<SubscribeReasonCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReasonCode>) -> Suback {
        Suback { pid, properties: Default::default(), topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub properties: UnsubscribeProperties,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Unsubscribe {
        Unsubscribe { pid, properties: Default::default(), topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Unsuback {
    pub pid: Pid,
    pub properties: UnsubackProperties,
    pub topics: Vec<UnsubscribeReasonCode>,
}
impl Unsuback {
    pub fn new(pid: Pid, topics: Vec<UnsubscribeReasonCode>) -> Unsuback {
        Unsuback { pid, properties: Default::default(), topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Disconnect {
    pub reason_code: DisconnectReasonCode,
    pub properties: DisconnectProperties,
}
impl Disconnect {
    pub fn new(reason_code: DisconnectReasonCode) -> Disconnect {
        Disconnect { reason_code, properties: Default::default() }
    }
    pub fn new_normal() -> Disconnect {
        Disconnect::new(DisconnectReasonCode::NormalDisconnect)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Auth {
    pub reason_code: AuthReasonCode,
    pub properties: AuthProperties,
}
impl Auth {
    pub fn new(reason_code: AuthReasonCode) -> Auth {
        Auth { reason_code, properties: Default::default() }
    }
}
