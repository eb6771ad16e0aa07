//! MQTT v3.1 / v3.1.1 packets.
use std::hash::{Hash, Hasher};
use std::io;
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt};

use crate::*;

pub type PollPacketState = GenericPollPacketState<Header>;
pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}

impl Header {
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Header, Error> {
        use PacketType::*;
        let flags = hd & 0x0f;
        let (typ, want) = match hd >> 4 {
            1 => (Connect, Some(0)),
            2 => (Connack, Some(0)),
            3 => (Publish, None),
            4 => (Puback, Some(0)),
            5 => (Pubrec, Some(0)),
            6 => (Pubrel, Some(2)),
            7 => (Pubcomp, Some(0)),
            8 => (Subscribe, Some(2)),
            9 => (Suback, Some(0)),
            10 => (Unsubscribe, Some(2)),
            11 => (Unsuback, Some(0)),
            12 => (Pingreq, Some(0)),
            13 => (Pingresp, Some(0)),
            14 => (Disconnect, Some(0)),
            _ => return Err(Error::InvalidHeader),
        };
        let (mut dup, mut qos, mut retain) = (false, QoS::Level0, false);
        match want {
            Some(w) if w != flags => return Err(Error::InvalidHeader),
            Some(_) => {}
            None => {
                dup = flags & 8 != 0;
                qos = QoS::from_u8((flags >> 1) & 3)?;
                retain = flags & 1 != 0;
            }
        }
        Ok(Header { typ, dup, qos, retain, remaining_len, total_len })
    }
}

impl PollHeader for Header {
    type Error = Error;
    type Packet = Packet;
    fn new_with(typ: u8, remaining_len: u32, total_len: u32) -> Result<Self, Error> {
        Header::new_with(typ, remaining_len, total_len)
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
    fn block_decode(self, r: &mut &[u8]) -> Result<Packet, Error> {
        decode_body(self, r).map_err(|e| if e.is_eof() { Error::InvalidRemainingLength } else { e })
    }
}

fn decode_body(h: Header, r: &mut &[u8]) -> Result<Packet, Error> {
    use PacketType::*;
    Ok(match h.typ {
        Connect => {
            let protocol = Protocol::decode(r)?;
            if protocol == Protocol::V500 {
                return Err(Error::UnexpectedProtocol(protocol));
            }
            Packet::Connect(self::Connect::decode_with(r, protocol)?)
        }
        Connack => {
            let flags = get_u8(r)?;
            if flags > 1 {
                return Err(Error::InvalidConnackFlags(flags));
            }
            let code = ConnectReturnCode::from_u8(get_u8(r)?)?;
            Packet::Connack(self::Connack { session_present: flags == 1, code })
        }
        Publish => {
            let topic_name = TopicName::try_from(get_string(r)?)?;
            let qos_pid = match h.qos {
                QoS::Level0 => QosPid::Level0,
                QoS::Level1 => QosPid::Level1(get_pid(r)?),
                QoS::Level2 => QosPid::Level2(get_pid(r)?),
            };
            let payload = Bytes::copy_from_slice(std::mem::take(r));
            Packet::Publish(self::Publish { dup: h.dup, retain: h.retain, qos_pid, topic_name, payload })
        }
        Puback => Packet::Puback(get_pid(r)?),
        Pubrec => Packet::Pubrec(get_pid(r)?),
        Pubrel => Packet::Pubrel(get_pid(r)?),
        Pubcomp => Packet::Pubcomp(get_pid(r)?),
        Subscribe => {
            let pid = get_pid(r)?;
            let mut topics = Vec::new();
            while !r.is_empty() {
                let f = TopicFilter::try_from(get_string(r)?)?;
                topics.push((f, QoS::from_u8(get_u8(r)?)?));
            }
            if topics.is_empty() {
                return Err(Error::EmptySubscription);
            }
            Packet::Subscribe(self::Subscribe { pid, topics })
        }
        Suback => {
            let pid = get_pid(r)?;
            let mut topics = Vec::new();
            while !r.is_empty() {
                topics.push(SubscribeReturnCode::from_u8(get_u8(r)?)?);
            }
            Packet::Suback(self::Suback { pid, topics })
        }
        Unsubscribe => {
            let pid = get_pid(r)?;
            let mut topics = Vec::new();
            while !r.is_empty() {
                topics.push(TopicFilter::try_from(get_string(r)?)?);
            }
            if topics.is_empty() {
                return Err(Error::EmptySubscription);
            }
            Packet::Unsubscribe(self::Unsubscribe { pid, topics })
        }
        Unsuback => Packet::Unsuback(get_pid(r)?),
        Pingreq => Packet::Pingreq,
        Pingresp => Packet::Pingresp,
        Disconnect => Packet::Disconnect,
    })
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Pid),
    Pubrec(Pid),
    Pubrel(Pid),
    Pubcomp(Pid),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Pid),
    Pingreq,
    Pingresp,
    Disconnect,
}

macro_rules! from_packet {
    ($($t:ident),*) => { $( impl From<$t> for Packet { fn from(p: $t) -> Packet { Packet::$t(p) } } )* };
}
from_packet!(Connect, Connack, Publish, Subscribe, Suback, Unsubscribe);

impl Packet {
    /// Returns Ok(None) when the data is incomplete.
    pub fn decode(data: &[u8]) -> Result<Option<Packet>, Error> {
        let mut r = data;
        let (hd, remaining) = match (get_u8(&mut r), get_var_int(&mut r)) {
            (Ok(h), Ok(n)) => (h, n),
            (Err(e), _) | (_, Err(e)) => return if e.is_eof() { Ok(None) } else { Err(e) },
        };
        let total = data.len() - r.len() + remaining as usize;
        let header = Header::new_with(hd, remaining, total as u32)?;
        if data.len() < total {
            return Ok(None);
        }
        let mut body = &data[total - remaining as usize..total];
        let p = header.block_decode(&mut body)?;
        if !body.is_empty() {
            return Err(Error::InvalidRemainingLength);
        }
        Ok(Some(p))
    }

    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Packet, Error> {
        let (hd, remaining, total) = decode_raw_header_async(reader).await?;
        let header = Header::new_with(hd, remaining, total as u32)?;
        let body = read_body(reader, remaining as usize).await?;
        let mut r = &body[..];
        let p = header.block_decode(&mut r)?;
        if !r.is_empty() {
            return Err(Error::InvalidRemainingLength);
        }
        Ok(p)
    }

    pub fn encode(&self) -> Result<VarBytes, Error> {
        let mut b = Vec::new();
        let typ = match self {
            Packet::Connect(p) => {
                p.put(&mut b);
                0x10
            }
            Packet::Connack(p) => {
                b.push(p.session_present as u8);
                b.push(p.code as u8);
                0x20
            }
            Packet::Publish(p) => {
                p.put(&mut b);
                0x30 | (p.dup as u8) << 3 | (p.qos_pid.qos() as u8) << 1 | p.retain as u8
            }
            Packet::Puback(pid) => {
                put_u16(&mut b, pid.value());
                0x40
            }
            Packet::Pubrec(pid) => {
                put_u16(&mut b, pid.value());
                0x50
            }
            Packet::Pubrel(pid) => {
                put_u16(&mut b, pid.value());
                0x62
            }
            Packet::Pubcomp(pid) => {
                put_u16(&mut b, pid.value());
                0x70
            }
            Packet::Subscribe(p) => {
                put_u16(&mut b, p.pid.value());
                for (f, q) in &p.topics {
                    put_bytes(&mut b, f.as_bytes());
                    b.push(*q as u8);
                }
                0x82
            }
            Packet::Suback(p) => {
                put_u16(&mut b, p.pid.value());
                b.extend(p.topics.iter().map(|c| *c as u8));
                0x90
            }
            Packet::Unsubscribe(p) => {
                put_u16(&mut b, p.pid.value());
                for f in &p.topics {
                    put_bytes(&mut b, f.as_bytes());
                }
                0xa2
            }
            Packet::Unsuback(pid) => {
                put_u16(&mut b, pid.value());
                0xb0
            }
            Packet::Pingreq => 0xc0,
            Packet::Pingresp => 0xd0,
            Packet::Disconnect => 0xe0,
        };
        frame(typ, &b)
    }

    pub fn encode_len(&self) -> Result<usize, Error> {
        Ok(self.encode()?.as_ref().len())
    }

    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, writer: &mut T) -> Result<(), Error> {
        let data = self.encode()?;
        writer.write_all(data.as_ref()).await?;
        Ok(())
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub message: Bytes,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_session: bool,
    pub keep_alive: u16,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}

impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Connect {
        Connect {
            protocol: Protocol::V311,
            clean_session: true,
            keep_alive,
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }

    fn decode_with(r: &mut &[u8], protocol: Protocol) -> Result<Connect, Error> {
        let flags = get_u8(r)?;
        check_flags(flags)?;
        let keep_alive = get_u16(r)?;
        let client_id = get_arc_str(r)?;
        let last_will = if flags & 0x04 != 0 {
            let topic_name = TopicName::try_from(get_string(r)?)?;
            let message = get_bytes(r)?;
            Some(LastWill {
                qos: QoS::from_u8((flags >> 3) & 3)?,
                retain: flags & 0x20 != 0,
                topic_name,
                message,
            })
        } else {
            None
        };
        let username = if flags & 0x80 != 0 { Some(get_arc_str(r)?) } else { None };
        let password = if flags & 0x40 != 0 { Some(get_bytes(r)?) } else { None };
        Ok(Connect {
            protocol,
            clean_session: flags & 2 != 0,
            keep_alive,
            client_id,
            last_will,
            username,
            password,
        })
    }

    /// Decode the rest of the packet after the protocol name and level.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        reader: &mut T,
        protocol: Protocol,
    ) -> Result<Connect, Error> {
        use tokio::io::AsyncReadExt;
        // flags(1) + keep alive(2)
        let mut head = [0u8; 3];
        reader.read_exact(&mut head).await?;
        let flags = head[0];
        check_flags(flags)?;
        let mut buf = head.to_vec();
        let fields = 1
            + if flags & 0x04 != 0 { 2 } else { 0 }
            + (flags & 0x80 != 0) as usize
            + (flags & 0x40 != 0) as usize;
        for _ in 0..fields {
            let n = reader.read_u16().await?;
            buf.extend_from_slice(&n.to_be_bytes());
            let body = read_body(reader, n as usize).await?;
            buf.extend_from_slice(&body);
        }
        let mut r = &buf[..];
        Connect::decode_with(&mut r, protocol)
    }

    fn put(&self, b: &mut Vec<u8>) {
        self.protocol.put(b);
        let mut flags = (self.clean_session as u8) << 1;
        if let Some(w) = &self.last_will {
            flags |= 4 | (w.qos as u8) << 3 | (w.retain as u8) << 5;
        }
        flags |= (self.username.is_some() as u8) << 7 | (self.password.is_some() as u8) << 6;
        b.push(flags);
        put_u16(b, self.keep_alive);
        put_bytes(b, self.client_id.as_bytes());
        if let Some(w) = &self.last_will {
            put_bytes(b, w.topic_name.as_bytes());
            put_bytes(b, &w.message);
        }
        if let Some(u) = &self.username {
            put_bytes(b, u.as_bytes());
        }
        if let Some(p) = &self.password {
            put_bytes(b, p);
        }
    }
}

pub(crate) fn check_flags(flags: u8) -> Result<(), Error> {
    let will = flags & 0x04 != 0;
    if flags & 1 != 0 || (!will && flags & 0x38 != 0) {
        return Err(Error::InvalidConnectFlags(flags));
    }
    QoS::from_u8((flags >> 3) & 3).map_err(|_| Error::InvalidConnectFlags(flags))?;
    Ok(())
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ConnectReturnCode {
    Accepted = 0,
    UnacceptableProtocolVersion = 1,
    IdentifierRejected = 2,
    ServerUnavailable = 3,
    BadUserNameOrPassword = 4,
    NotAuthorized = 5,
}
impl ConnectReturnCode {
    pub fn from_u8(b: u8) -> Result<Self, Error> {
        use ConnectReturnCode::*;
        Ok(match b {
            0 => Accepted,
            1 => UnacceptableProtocolVersion,
            2 => IdentifierRejected,
            3 => ServerUnavailable,
            4 => BadUserNameOrPassword,
            5 => NotAuthorized,
            n => return Err(Error::InvalidConnectReturnCode(n)),
        })
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Connack {
    pub session_present: bool,
    pub code: ConnectReturnCode,
}
impl Connack {
    pub fn new(session_present: bool, code: ConnectReturnCode) -> Connack {
        Connack { session_present, code }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Publish {
    pub dup: bool,
    pub retain: bool,
    pub qos_pid: QosPid,
    pub topic_name: TopicName,
    pub payload: Bytes,
}
// The DUP flag is not part of the message, so a re-delivery hashes like the original.
impl Hash for Publish {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.retain.hash(s);
        self.qos_pid.hash(s);
        self.topic_name.hash(s);
        self.payload.hash(s);
    }
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Publish {
        Publish { dup: false, retain: false, qos_pid, topic_name, payload }
    }
    fn put(&self, b: &mut Vec<u8>) {
        put_bytes(b, self.topic_name.as_bytes());
        if let Some(pid) = self.qos_pid.pid() {
            put_u16(b, pid.value());
        }
        b.extend_from_slice(&self.payload);
    }
}
impl Encodable for Publish {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        let mut b = Vec::new();
        self.put(&mut b);
        w.write_all(&b)
    }
    fn encode_len(&self) -> usize {
        2 + self.topic_name.len()
            + if self.qos_pid.pid().is_some() { 2 } else { 0 }
            + self.payload.len()
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Subscribe {
    pub pid: Pid,
    pub topics: Vec<(TopicFilter, QoS)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, QoS)>) -> Subscribe {
        Subscribe { pid, topics }
    }
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SubscribeReturnCode {
    MaxLevel0 = 0,
    MaxLevel1 = 1,
    MaxLevel2 = 2,
    Failure = 0x80,
}
impl SubscribeReturnCode {
    pub fn from_u8(b: u8) -> Result<Self, Error> {
        use SubscribeReturnCode::*;
        Ok(match b {
            0 => MaxLevel0,
            1 => MaxLevel1,
            2 => MaxLevel2,
            0x80 => Failure,
            n => return Err(Error::InvalidQos(n)),
        })
    }
}
impl From<QoS> for SubscribeReturnCode {
    fn from(q: QoS) -> Self {
        match q {
            QoS::Level0 => Self::MaxLevel0,
            QoS::Level1 => Self::MaxLevel1,
            QoS::Level2 => Self::MaxLevel2,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Suback {
    pub pid: Pid,
    pub topics: Vec<SubscribeReturnCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReturnCode>) -> Suback {
        Suback { pid, topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Unsubscribe {
        Unsubscribe { pid, topics }
    }
}
