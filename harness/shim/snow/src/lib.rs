//! Stand-in for the Noise implementation: the same calls and message flow (pattern XK: three
//! handshake messages, then transport messages in order), with a checkable mark in place of
//! encryption. A message is the payload followed by 16 tag bytes [kind, counter, 0xee..].
use std::fmt;
pub const TAG: usize = 16;
#[derive(Debug, PartialEq)]
pub enum Error {
    Decrypt,
    Input,
    State,
    Pattern,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}
pub mod params {
    #[derive(Debug, Clone)]
    pub struct NoiseParams;
    impl std::str::FromStr for NoiseParams {
        type Err = super::Error;
        fn from_str(s: &str) -> Result<Self, super::Error> {
            if s.starts_with("Noise_") {
                Ok(NoiseParams)
            } else {
                Err(super::Error::Pattern)
            }
        }
    }
}
pub struct Builder<'a> {
    key: Option<&'a [u8]>,
}
impl<'a> Builder<'a> {
    pub fn new(_: params::NoiseParams) -> Self {
        Builder { key: None }
    }
    pub fn local_private_key(mut self, k: &'a [u8]) -> Self {
        self.key = Some(k);
        self
    }
    pub fn build_responder(self) -> Result<HandshakeState, Error> {
        match self.key {
            Some(k) if k.len() == 32 => Ok(HandshakeState { step: 0 }),
            _ => Err(Error::State),
        }
    }
}
#[derive(Debug)]
pub struct HandshakeState {
    step: u8,
}
/// what the other side sends and receives
pub fn message(kind: u8, n: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = payload.to_vec();
    v.extend_from_slice(&[kind, n]);
    v.extend_from_slice(&[0xee; TAG - 2]);
    v
}
pub fn open(kind: u8, n: u8, m: &[u8]) -> Option<&[u8]> {
    if m.len() < TAG {
        return None;
    }
    let (p, t) = m.split_at(m.len() - TAG);
    if t[0] != kind || t[1] != n {
        return None;
    }
    for b in &t[2..] {
        if *b != 0xee {
            return None;
        }
    }
    Some(p)
}
fn put(v: &[u8], out: &mut [u8]) -> Result<usize, Error> {
    if v.len() > out.len() || v.len() > 65535 {
        return Err(Error::Input);
    }
    out[..v.len()].copy_from_slice(v);
    Ok(v.len())
}
impl HandshakeState {
    pub fn read_message(&mut self, m: &[u8], payload: &mut [u8]) -> Result<usize, Error> {
        if self.step != 0 && self.step != 2 {
            return Err(Error::State);
        }
        let p = open(1, self.step, m).ok_or(Error::Decrypt)?;
        let n = put(p, payload)?;
        self.step += 1;
        Ok(n)
    }
    pub fn write_message(&mut self, p: &[u8], out: &mut [u8]) -> Result<usize, Error> {
        if self.step != 1 {
            return Err(Error::State);
        }
        self.step += 1;
        put(&message(1, 1, p), out)
    }
    pub fn is_handshake_finished(&self) -> bool {
        self.step == 3
    }
    pub fn into_transport_mode(self) -> Result<TransportState, Error> {
        if self.step == 3 {
            Ok(TransportState { recv: 0, send: 0 })
        } else {
            Err(Error::State)
        }
    }
}
#[derive(Debug)]
pub struct TransportState {
    recv: u8,
    send: u8,
}
impl TransportState {
    pub fn read_message(&mut self, m: &[u8], payload: &mut [u8]) -> Result<usize, Error> {
        let p = open(2, self.recv, m).ok_or(Error::Decrypt)?;
        let n = put(p, payload)?;
        self.recv = self.recv.wrapping_add(1);
        Ok(n)
    }
    pub fn write_message(&mut self, p: &[u8], out: &mut [u8]) -> Result<usize, Error> {
        let n = put(&message(2, self.send, p), out)?;
        self.send = self.send.wrapping_add(1);
        Ok(n)
    }
}
