use std::future::Future;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context, Poll};

use tokio::io::{AsyncRead, ReadBuf};

use crate::{Error, IoErrorKind};

/// A decoded fixed header that can decode its packet body.
pub trait PollHeader: Sized {
    type Error: From<Error>;
    type Packet;
    fn new_with(typ: u8, remaining_len: u32, total_len: u32) -> Result<Self, Self::Error>;
    fn remaining_len(&self) -> usize;
    fn block_decode(self, body: &mut &[u8]) -> Result<Self::Packet, Self::Error>;
}

#[derive(Debug)]
pub enum GenericPollPacketState<H> {
    Header { typ: Option<u8>, idx: u32, value: u32 },
    Body { header: H, total: usize, idx: usize, buf: Vec<u8> },
}
impl<H> Default for GenericPollPacketState<H> {
    fn default() -> Self {
        GenericPollPacketState::Header { typ: None, idx: 0, value: 0 }
    }
}

pub struct GenericPollPacket<'a, T, H> {
    state: &'a mut GenericPollPacketState<H>,
    reader: &'a mut T,
}

impl<'a, T, H> GenericPollPacket<'a, T, H> {
    pub fn new(state: &'a mut GenericPollPacketState<H>, reader: &'a mut T) -> Self {
        GenericPollPacket { state, reader }
    }
}

impl<'a, T, H> Future for GenericPollPacket<'a, T, H>
where
    T: AsyncRead + Unpin,
    H: PollHeader + Copy + Unpin,
{
    /// (total packet length, raw packet body, packet)
    type Output = Result<(usize, Vec<MaybeUninit<u8>>, H::Packet), H::Error>;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        loop {
            match this.state {
                GenericPollPacketState::Header { typ, idx, value } => {
                    let mut b = [0u8; 1];
                    let mut rb = ReadBuf::new(&mut b);
                    match Pin::new(&mut *this.reader).poll_read(cx, &mut rb) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(Error::from(e).into())),
                        Poll::Ready(Ok(())) => {}
                    }
                    if rb.filled().is_empty() {
                        return Poll::Ready(Err(Error::IoError(IoErrorKind::UnexpectedEof).into()));
                    }
                    let byte = b[0];
                    let Some(t) = *typ else {
                        *typ = Some(byte);
                        continue;
                    };
                    *value |= ((byte & 0x7f) as u32) << (7 * *idx);
                    *idx += 1;
                    if byte & 0x80 != 0 {
                        if *idx == 4 {
                            return Poll::Ready(Err(Error::InvalidVarByteInt.into()));
                        }
                        continue;
                    }
                    let total = 1 + *idx as usize + *value as usize;
                    let header = match H::new_with(t, *value, total as u32) {
                        Ok(h) => h,
                        Err(e) => return Poll::Ready(Err(e)),
                    };
                    let n = header.remaining_len();
                    *this.state =
                        GenericPollPacketState::Body { header, total, idx: 0, buf: vec![0; n] };
                }
                GenericPollPacketState::Body { header, total, idx, buf } => {
                    while *idx < buf.len() {
                        let mut rb = ReadBuf::new(&mut buf[*idx..]);
                        match Pin::new(&mut *this.reader).poll_read(cx, &mut rb) {
                            Poll::Pending => return Poll::Pending,
                            Poll::Ready(Err(e)) => return Poll::Ready(Err(Error::from(e).into())),
                            Poll::Ready(Ok(())) => {}
                        }
                        let n = rb.filled().len();
                        if n == 0 {
                            return Poll::Ready(Err(
                                Error::IoError(IoErrorKind::UnexpectedEof).into()
                            ));
                        }
                        *idx += n;
                    }
                    let mut body = &buf[..];
                    let packet = match header.block_decode(&mut body) {
                        Ok(p) => p,
                        // a body that ends early is a malformed packet, not a closed connection
                        Err(e) => return Poll::Ready(Err(e)),
                    };
                    if !body.is_empty() {
                        return Poll::Ready(Err(Error::InvalidRemainingLength.into()));
                    }
                    let total = *total;
                    let raw = buf.iter().map(|b| MaybeUninit::new(*b)).collect();
                    return Poll::Ready(Ok((total, raw, packet)));
                }
            }
        }
    }
}
