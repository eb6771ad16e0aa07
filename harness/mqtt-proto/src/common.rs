use std::fmt;
use std::hash::{Hash, Hasher};
use std::io;
use std::ops::{Add, AddAssign, Deref};
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncReadExt};

pub const LEVEL_SEP: char = '/';
pub const MATCH_ALL_CHAR: char = '#';
pub const MATCH_ALL_STR: &str = "#";
pub const MATCH_ONE_CHAR: char = '+';
pub const MATCH_ONE_STR: &str = "+";
pub const SHARED_PREFIX: &str = "$share/";

pub type IoErrorKind = io::ErrorKind;

#[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
pub enum Error {
    #[error("invalid remaining length")]
    InvalidRemainingLength,
    #[error("empty subscription")]
    EmptySubscription,
    #[error("packet identifier is 0")]
    ZeroPid,
    #[error("invalid qos: `{0}`")]
    InvalidQos(u8),
    #[error("invalid connect flags: `{0}`")]
    InvalidConnectFlags(u8),
    #[error("invalid connack flags: `{0}`")]
    InvalidConnackFlags(u8),
    #[error("invalid connect return code: `{0}`")]
    InvalidConnectReturnCode(u8),
    #[error("invalid protocol: `{0}`, `{1}`")]
    InvalidProtocol(String, u8),
    #[error("unexpected protocol: `{0}`")]
    UnexpectedProtocol(Protocol),
    #[error("invalid header")]
    InvalidHeader,
    #[error("invalid variable byte int")]
    InvalidVarByteInt,
    #[error("invalid topic name: `{0}`")]
    InvalidTopicName(String),
    #[error("invalid topic filter: `{0}`")]
    InvalidTopicFilter(String),
    #[error("invalid string")]
    InvalidString,
    #[error("io error: `{0}`")]
    IoError(IoErrorKind),
}

impl Error {
    pub fn is_eof(&self) -> bool {
        matches!(self, Error::IoError(IoErrorKind::UnexpectedEof))
    }
}

impl From<io::Error> for Error {
    fn from(err: io::Error) -> Error {
        Error::IoError(err.kind())
    }
}

impl From<Error> for io::Error {
    fn from(err: Error) -> io::Error {
        match err {
            Error::IoError(kind) => kind.into(),
            _ => io::ErrorKind::InvalidData.into(),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Protocol {
    V310,
    V311,
    V500,
}

impl Protocol {
    pub fn name_level(self) -> (&'static str, u8) {
        match self {
            Protocol::V310 => ("MQIsdp", 3),
            Protocol::V311 => ("MQTT", 4),
            Protocol::V500 => ("MQTT", 5),
        }
    }
    pub fn new(name: &str, level: u8) -> Result<Protocol, Error> {
        match (name, level) {
            ("MQIsdp", 3) => Ok(Protocol::V310),
            ("MQTT", 4) => Ok(Protocol::V311),
            ("MQTT", 5) => Ok(Protocol::V500),
            _ => Err(Error::InvalidProtocol(name.into(), level)),
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let name = read_string_async(reader).await?;
        let level = reader.read_u8().await?;
        Protocol::new(&name, level)
    }
    pub(crate) fn decode(r: &mut &[u8]) -> Result<Self, Error> {
        let name = get_string(r)?;
        let level = get_u8(r)?;
        Protocol::new(&name, level)
    }
    pub(crate) fn put(self, out: &mut Vec<u8>) {
        let (name, level) = self.name_level();
        put_bytes(out, name.as_bytes());
        out.push(level);
    }
}

impl fmt::Display for Protocol {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Protocol::V310 => "v3.1",
            Protocol::V311 => "v3.1.1",
            Protocol::V500 => "v5.0",
        })
    }
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum QoS {
    Level0 = 0,
    Level1 = 1,
    Level2 = 2,
}

impl QoS {
    pub fn from_u8(b: u8) -> Result<QoS, Error> {
        match b {
            0 => Ok(QoS::Level0),
            1 => Ok(QoS::Level1),
            2 => Ok(QoS::Level2),
            n => Err(Error::InvalidQos(n)),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum QosPid {
    Level0,
    Level1(Pid),
    Level2(Pid),
}

impl QosPid {
    pub fn new(qos: QoS, pid: Pid) -> QosPid {
        match qos {
            QoS::Level0 => QosPid::Level0,
            QoS::Level1 => QosPid::Level1(pid),
            QoS::Level2 => QosPid::Level2(pid),
        }
    }
    pub fn pid(self) -> Option<Pid> {
        match self {
            QosPid::Level0 => None,
            QosPid::Level1(p) | QosPid::Level2(p) => Some(p),
        }
    }
    pub fn qos(self) -> QoS {
        match self {
            QosPid::Level0 => QoS::Level0,
            QosPid::Level1(_) => QoS::Level1,
            QosPid::Level2(_) => QoS::Level2,
        }
    }
}

/// Packet identifier: 1..=65535, addition wraps around and skips 0.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pid(u16);

impl Default for Pid {
    fn default() -> Pid {
        Pid(1)
    }
}
impl Pid {
    pub fn value(self) -> u16 {
        self.0
    }
}
impl TryFrom<u16> for Pid {
    type Error = Error;
    fn try_from(v: u16) -> Result<Pid, Error> {
        if v == 0 {
            Err(Error::ZeroPid)
        } else {
            Ok(Pid(v))
        }
    }
}
impl Add<u16> for Pid {
    type Output = Pid;
    fn add(self, n: u16) -> Pid {
        Pid(((self.0 as u32 - 1 + n as u32) % 65535 + 1) as u16)
    }
}
impl AddAssign<u16> for Pid {
    fn add_assign(&mut self, n: u16) {
        *self = *self + n;
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TopicName(Arc<str>);

impl TopicName {
    pub fn is_invalid(v: &str) -> bool {
        v.len() > u16::MAX as usize || v.contains([MATCH_ONE_CHAR, MATCH_ALL_CHAR, '\0'])
    }
    pub fn is_shared(&self) -> bool {
        self.0.starts_with(SHARED_PREFIX)
    }
}
impl TryFrom<String> for TopicName {
    type Error = Error;
    fn try_from(v: String) -> Result<Self, Error> {
        if TopicName::is_invalid(&v) {
            Err(Error::InvalidTopicName(v))
        } else {
            Ok(TopicName(v.into()))
        }
    }
}
impl TryFrom<&str> for TopicName {
    type Error = Error;
    fn try_from(v: &str) -> Result<Self, Error> {
        TopicName::try_from(v.to_owned())
    }
}
impl Deref for TopicName {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for TopicName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Debug, Clone)]
pub struct TopicFilter {
    inner: Arc<str>,
    // position of the '/' after the share name, 0 when not shared
    sep: u32,
}
impl PartialEq for TopicFilter {
    fn eq(&self, o: &Self) -> bool {
        self.inner == o.inner
    }
}
impl Eq for TopicFilter {}
impl PartialOrd for TopicFilter {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TopicFilter {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.inner.cmp(&o.inner)
    }
}
impl Hash for TopicFilter {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.inner.hash(state)
    }
}

fn plain_filter_ok(v: &str) -> bool {
    if v.is_empty() {
        return false;
    }
    let n = v.split(LEVEL_SEP).count();
    v.split(LEVEL_SEP).enumerate().all(|(i, level)| match level {
        MATCH_ONE_STR => true,
        MATCH_ALL_STR => i + 1 == n,
        l => !l.contains([MATCH_ONE_CHAR, MATCH_ALL_CHAR]),
    })
}

impl TopicFilter {
    pub fn is_shared(&self) -> bool {
        self.sep > 0
    }
    pub fn shared_group_name(&self) -> Option<&str> {
        self.shared_info().map(|v| v.0)
    }
    pub fn shared_filter(&self) -> Option<&str> {
        self.shared_info().map(|v| v.1)
    }
    /// (share name, filter)
    pub fn shared_info(&self) -> Option<(&str, &str)> {
        if self.sep == 0 {
            return None;
        }
        let sep = self.sep as usize;
        Some((&self.inner[SHARED_PREFIX.len()..sep], &self.inner[sep + 1..]))
    }
}
impl TryFrom<String> for TopicFilter {
    type Error = Error;
    fn try_from(v: String) -> Result<Self, Error> {
        if v.is_empty() || v.len() > u16::MAX as usize || v.contains('\0') {
            return Err(Error::InvalidTopicFilter(v));
        }
        let mut sep = 0;
        if let Some(rest) = v.strip_prefix(SHARED_PREFIX) {
            let Some(pos) = rest.find(LEVEL_SEP) else {
                return Err(Error::InvalidTopicFilter(v));
            };
            let (group, filter) = (&rest[..pos], &rest[pos + 1..]);
            if group.is_empty()
                || group.contains([MATCH_ONE_CHAR, MATCH_ALL_CHAR])
                || !plain_filter_ok(filter)
            {
                return Err(Error::InvalidTopicFilter(v));
            }
            sep = SHARED_PREFIX.len() + pos;
        } else if !plain_filter_ok(&v) {
            return Err(Error::InvalidTopicFilter(v));
        }
        Ok(TopicFilter { inner: v.into(), sep: sep as u32 })
    }
}
impl TryFrom<&str> for TopicFilter {
    type Error = Error;
    fn try_from(v: &str) -> Result<Self, Error> {
        TopicFilter::try_from(v.to_owned())
    }
}
impl Deref for TopicFilter {
    type Target = str;
    fn deref(&self) -> &str {
        &self.inner
    }
}
impl fmt::Display for TopicFilter {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.inner)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum VarBytes {
    Dynamic(Vec<u8>),
    Fixed2([u8; 2]),
    Fixed4([u8; 4]),
}
impl AsRef<[u8]> for VarBytes {
    fn as_ref(&self) -> &[u8] {
        match self {
            VarBytes::Dynamic(v) => v,
            VarBytes::Fixed2(v) => v,
            VarBytes::Fixed4(v) => v,
        }
    }
}

pub trait Encodable {
    fn encode<W: io::Write>(&self, writer: &mut W) -> io::Result<()>;
    fn encode_len(&self) -> usize;
}

/// Total packet length for a given remaining length.
pub fn total_len(remaining_len: usize) -> Result<usize, Error> {
    Ok(1 + var_int_len(remaining_len)? + remaining_len)
}

pub fn var_int_len(v: usize) -> Result<usize, Error> {
    match v {
        0..=127 => Ok(1),
        128..=16_383 => Ok(2),
        16_384..=2_097_151 => Ok(3),
        2_097_152..=268_435_455 => Ok(4),
        _ => Err(Error::InvalidVarByteInt),
    }
}

pub fn put_var_int(out: &mut Vec<u8>, mut v: usize) {
    loop {
        let mut b = (v % 128) as u8;
        v /= 128;
        if v > 0 {
            b |= 0x80;
        }
        out.push(b);
        if v == 0 {
            break;
        }
    }
}

/// Returns (packet type byte, remaining length, total length).
pub async fn decode_raw_header_async<T: AsyncRead + Unpin>(
    reader: &mut T,
) -> Result<(u8, u32, usize), Error> {
    let typ = reader.read_u8().await?;
    let mut v: u32 = 0;
    for i in 0..4 {
        let b = reader.read_u8().await?;
        v |= ((b & 0x7f) as u32) << (7 * i);
        if b & 0x80 == 0 {
            return Ok((typ, v, 2 + i + v as usize));
        }
    }
    Err(Error::InvalidVarByteInt)
}

// ---- primitive readers / writers ----

pub(crate) fn eof() -> Error {
    Error::IoError(IoErrorKind::UnexpectedEof)
}
pub(crate) fn get_u8(r: &mut &[u8]) -> Result<u8, Error> {
    let (&b, rest) = r.split_first().ok_or_else(eof)?;
    *r = rest;
    Ok(b)
}
pub(crate) fn get_n<'a>(r: &mut &'a [u8], n: usize) -> Result<&'a [u8], Error> {
    if r.len() < n {
        return Err(eof());
    }
    let (a, b) = r.split_at(n);
    *r = b;
    Ok(a)
}
pub(crate) fn get_u16(r: &mut &[u8]) -> Result<u16, Error> {
    Ok(u16::from_be_bytes(get_n(r, 2)?.try_into().unwrap()))
}
pub(crate) fn get_u32(r: &mut &[u8]) -> Result<u32, Error> {
    Ok(u32::from_be_bytes(get_n(r, 4)?.try_into().unwrap()))
}
pub(crate) fn get_pid(r: &mut &[u8]) -> Result<Pid, Error> {
    Pid::try_from(get_u16(r)?)
}
pub(crate) fn get_bytes(r: &mut &[u8]) -> Result<Bytes, Error> {
    let n = get_u16(r)? as usize;
    Ok(Bytes::copy_from_slice(get_n(r, n)?))
}
fn check_str(v: &[u8]) -> Result<String, Error> {
    let s = std::str::from_utf8(v).map_err(|_| Error::InvalidString)?;
    if s.contains('\0') {
        return Err(Error::InvalidString);
    }
    Ok(s.to_owned())
}
pub(crate) fn get_string(r: &mut &[u8]) -> Result<String, Error> {
    let n = get_u16(r)? as usize;
    check_str(get_n(r, n)?)
}
pub(crate) fn get_arc_str(r: &mut &[u8]) -> Result<Arc<str>, Error> {
    Ok(get_string(r)?.into())
}
pub(crate) fn get_var_int(r: &mut &[u8]) -> Result<u32, Error> {
    let mut v: u32 = 0;
    for i in 0..4 {
        let b = get_u8(r)?;
        v |= ((b & 0x7f) as u32) << (7 * i);
        if b & 0x80 == 0 {
            return Ok(v);
        }
    }
    Err(Error::InvalidVarByteInt)
}
pub(crate) fn put_u16(out: &mut Vec<u8>, v: u16) {
    out.extend_from_slice(&v.to_be_bytes());
}
pub(crate) fn put_u32(out: &mut Vec<u8>, v: u32) {
    out.extend_from_slice(&v.to_be_bytes());
}
pub(crate) fn put_bytes(out: &mut Vec<u8>, v: &[u8]) {
    put_u16(out, v.len() as u16);
    out.extend_from_slice(v);
}
pub(crate) async fn read_string_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<String, Error> {
    let n = r.read_u16().await? as usize;
    let mut buf = vec![0u8; n];
    r.read_exact(&mut buf).await?;
    check_str(&buf)
}
/// Reads exactly `n` bytes of a packet body.
pub(crate) async fn read_body<T: AsyncRead + Unpin>(r: &mut T, n: usize) -> Result<Vec<u8>, Error> {
    let mut buf = vec![0u8; n];
    r.read_exact(&mut buf).await?;
    Ok(buf)
}
pub(crate) fn frame(typ: u8, body: &[u8]) -> Result<VarBytes, Error> {
    let mut out = Vec::with_capacity(body.len() + 5);
    out.push(typ);
    var_int_len(body.len())?;
    put_var_int(&mut out, body.len());
    out.extend_from_slice(body);
    Ok(match out.len() {
        2 => VarBytes::Fixed2([out[0], out[1]]),
        4 => VarBytes::Fixed4([out[0], out[1], out[2], out[3]]),
        _ => VarBytes::Dynamic(out),
    })
}
