//! The broker under simulated network, time and scheduling, seen from its clients.
use crate::model::*;
#[cfg(feature = "noise")]
pub use apiformes_server_lib::Permeability;
use apiformes_server_lib::{MqttServer, MqttServerConfig};
use std::net::SocketAddr;
use tokio::net::{dial, Peer};
use tokio::sim;

/// is the library built with encrypted connections?
pub const ENCRYPTION: bool = cfg!(feature = "noise");
pub const POLLS: u64 = 3000; // more task polls than this without rest count as a busy loop

pub fn plain_addr() -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], 1883))
}
pub fn noise_addr() -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], 1884))
}
pub fn cfg() -> MqttServerConfig {
    MqttServerConfig {
        mqtt_socketaddr: Some(plain_addr()),
        keep_alive: 10,
        dispatcher_queue_size: 4096,
        max_packet_size: 256,
        #[cfg(feature = "noise")]
        noise_socketaddr: None,
        #[cfg(feature = "noise")]
        channel_permeability: Permeability::Permissive,
        #[cfg(feature = "noise")]
        private_key: [7; 32],
    }
}
pub fn both(p: Permeability) -> MqttServerConfig {
    let mut c = cfg();
    set_noise(&mut c, Some(noise_addr()));
    set_permeability(&mut c, p);
    c
}
#[cfg(feature = "noise")]
mod feature {
    use super::*;
    pub fn set_noise(c: &mut MqttServerConfig, a: Option<SocketAddr>) {
        c.noise_socketaddr = a;
    }
    pub fn get_noise(c: &MqttServerConfig) -> Option<SocketAddr> {
        c.noise_socketaddr
    }
    pub fn set_permeability(c: &mut MqttServerConfig, p: Permeability) {
        c.channel_permeability = p;
    }
}
/// the library built without encryption has no such settings
#[cfg(not(feature = "noise"))]
mod feature {
    use super::*;
    pub enum Permeability {
        Permissive,
        Strict,
    }
    pub fn set_noise(_: &mut MqttServerConfig, _: Option<SocketAddr>) {}
    pub fn get_noise(_: &MqttServerConfig) -> Option<SocketAddr> {
        None
    }
    pub fn set_permeability(_: &mut MqttServerConfig, _: Permeability) {}
}
pub use feature::*;
pub struct World {
    pub s: MqttServer,
}
pub fn start(c: MqttServerConfig) -> World {
    let s = match sim::block_on(MqttServer::new(c), POLLS) {
        Some(Ok(s)) => s,
        _ => rt::fail("the server does not start"),
    };
    settle();
    World { s }
}
/// let every task run until all of them wait
pub fn settle() {
    rt::check(sim::run(POLLS), "a task keeps running without anything to do (busy loop)");
}
impl World {
    pub fn clients(&self) -> Vec<Vec<u8>> {
        match sim::block_on(self.s.clients(), POLLS) {
            Some(v) => v.iter().map(|x| x.as_bytes().to_vec()).collect(),
            None => rt::fail("clients() does not return"),
        }
    }
    pub fn registered(&self, id: &[u8]) -> bool {
        let mut r = false;
        for c in self.clients() {
            r |= same(&c, id);
        }
        r
    }
}
/// A client's end of a connection.
pub struct Conn {
    pub p: Peer,
    pub noise: Option<(u8, u8)>, // messages sent and received
    buf: Vec<u8>,
}
static mut PORT: u16 = 5000;
fn from() -> SocketAddr {
    unsafe {
        PORT += 1;
        SocketAddr::from(([10, 0, 0, 1], PORT))
    }
}
pub fn frame_of(m: &[u8]) -> Vec<u8> {
    let mut v = (m.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(m);
    v
}
impl Conn {
    pub fn plain() -> Conn {
        match dial(plain_addr(), from()) {
            Some(p) => Conn { p, noise: None, buf: vec![] },
            None => rt::fail("the server does not listen any more"),
        }
    }
    /// an encrypted connection before its handshake
    pub fn noise_raw() -> Conn {
        match dial(noise_addr(), from()) {
            Some(p) => Conn { p, noise: Some((0, 0)), buf: vec![] },
            None => rt::fail("the server does not listen any more"),
        }
    }
    pub fn noise() -> Conn {
        let mut c = Conn::noise_raw();
        c.shake();
        c
    }
    /// a connection made otherwise, after the handshake
    pub fn over(p: Peer, encrypted: bool) -> Conn {
        let mut c = Conn { p, noise: if encrypted { Some((0, 0)) } else { None }, buf: vec![] };
        if encrypted {
            c.shake();
        }
        c
    }
    fn shake(&mut self) {
        self.push(&frame_of(&snow::message(1, 0, &[])));
        settle();
        self.buf.extend_from_slice(&self.p.take());
        match self.next_frame() {
            Some(m) => rt::check(snow::open(1, 1, &m).is_some(), "wrong handshake answer"),
            None => rt::fail("the server does not answer the handshake"),
        }
        self.push(&frame_of(&snow::message(1, 2, &[])));
        settle();
    }
    pub fn make(encrypted: bool) -> Conn {
        if encrypted {
            Conn::noise()
        } else {
            Conn::plain()
        }
    }
    pub fn push(&self, b: &[u8]) {
        self.p.push(b)
    }
    /// one packet (of an encrypted connection: in one message)
    pub fn send(&mut self, b: &[u8]) {
        match &mut self.noise {
            None => self.p.push(b),
            Some((n, _)) => {
                let m = frame_of(&snow::message(2, *n, b));
                *n += 1;
                self.p.push(&m);
            }
        }
    }
    fn next_frame(&mut self) -> Option<Vec<u8>> {
        if self.buf.len() < 4 {
            return None;
        }
        let n = u32::from_be_bytes([self.buf[0], self.buf[1], self.buf[2], self.buf[3]]) as usize;
        let n = rt::conc(n as u64) as usize;
        if self.buf.len() < 4 + n {
            return None;
        }
        let m = self.buf[4..4 + n].to_vec();
        self.buf.drain(..4 + n);
        Some(m)
    }
    /// the packets the server has sent since the last call
    pub fn packets(&mut self) -> Vec<M> {
        let b = self.p.take();
        self.buf.extend_from_slice(&b);
        let mut out = vec![];
        loop {
            let raw = match self.noise {
                Some((_, k)) => match self.next_frame() {
                    None => break,
                    Some(m) => {
                        self.noise.as_mut().unwrap().1 = k.wrapping_add(1);
                        match snow::open(2, k, &m) {
                            Some(p) => p.to_vec(),
                            None => rt::fail("the server sent something that is not an encrypted message"),
                        }
                    }
                },
                None => {
                    if self.buf.is_empty() {
                        break;
                    }
                    self.buf.clone()
                }
            };
            match decode(&raw) {
                R::Ok(m, k) => {
                    out.push(m);
                    if self.noise.is_none() {
                        self.buf.drain(..k);
                    } else {
                        rt::check(k == raw.len(), "an encrypted message holds more than a packet");
                    }
                }
                R::More => {
                    rt::check(self.noise.is_none(), "an encrypted message holds an incomplete packet");
                    break;
                }
                _ => rt::fail("the server sent a malformed packet"),
            }
        }
        out
    }
    /// has the server sent nothing (complete or not) since the last call?
    pub fn quiet(&mut self) -> bool {
        self.packets().is_empty() && self.buf.is_empty()
    }
    pub fn connect(&mut self, id: &[u8]) {
        self.send(&encode(&connect_m(id)));
        settle();
        let p = self.packets();
        rt::check(p.len() == 1 && p[0].ty == CONNACK, "CONNECT is not answered by a CONNACK");
        rt::check(p[0].reason == 0, "a plain CONNECT is refused");
    }
    pub fn subscribe(&mut self, filter: &[u8], opts: u8) {
        self.send(&encode(&subscribe_m(7, &[(filter.to_vec(), 0x20 | opts)])));
        settle();
        let p = self.packets();
        rt::check(p.len() == 1 && p[0].ty == SUBACK, "SUBSCRIBE is not answered by a SUBACK");
        rt::check(p[0].codes.len() == 1 && p[0].codes[0] == 0, "a plain SUBSCRIBE is refused");
    }
    pub fn publish(&mut self, topic: &[u8], payload: &[u8]) {
        self.send(&encode(&publish_m(topic, payload)));
        settle();
    }
}
pub fn client(id: &[u8]) -> Conn {
    let mut c = Conn::plain();
    c.connect(id);
    c
}
pub fn client_of(encrypted: bool, id: &[u8]) -> Conn {
    let mut c = Conn::make(encrypted);
    c.connect(id);
    c
}
pub fn connect_m(id: &[u8]) -> M {
    let mut m = empty(CONNECT);
    m.aflags = 2;
    m.s = id.to_vec();
    m
}
pub fn subscribe_m(id: u16, topics: &[(Vec<u8>, u8)]) -> M {
    let mut m = empty(SUBSCRIBE);
    m.id = Some(id);
    m.topics = topics.to_vec();
    m
}
pub fn publish_m(topic: &[u8], payload: &[u8]) -> M {
    let mut m = empty(PUBLISH);
    m.s = topic.to_vec();
    m.payload = payload.to_vec();
    m
}
/// exactly this packet and nothing else
pub fn only(p: &[M], want: &M, none: &'static str, other: &'static str) {
    rt::check(p.len() >= 1, none);
    rt::check(p.len() == 1, "more than one packet arrived where one was due");
    rt::check(same(&snap_m(&p[0]), &snap_m(want)), other);
}
/// MQTT 4.7: does the filter match the topic name?
pub fn matches(f: &[u8], t: &[u8]) -> bool {
    if t.len() > 0 && t[0] == b'$' && (f[0] == b'#' || f[0] == b'+') {
        return false;
    }
    let (mut i, mut j) = (0, 0);
    loop {
        // at the start of a level in both
        if i < f.len() && f[i] == b'#' {
            return true;
        }
        if i < f.len() && f[i] == b'+' {
            i += 1;
            while j < t.len() && t[j] != b'/' {
                j += 1;
            }
        } else {
            loop {
                let fe = i == f.len() || f[i] == b'/';
                let te = j == t.len() || t[j] == b'/';
                if fe != te {
                    return false;
                }
                if fe {
                    break;
                }
                if f[i] != t[j] {
                    return false;
                }
                i += 1;
                j += 1;
            }
        }
        // at the end of a level in both
        if j == t.len() {
            // "sport/#" also matches "sport"
            return i == f.len() || (f.len() == i + 2 && f[i] == b'/' && f[i + 1] == b'#');
        }
        if i == f.len() {
            return false;
        }
        i += 1;
        j += 1;
    }
}
/// n printable characters that may be anything a topic filter may hold
pub fn printable(n: usize) -> Vec<u8> {
    let b = rt::bytes(n);
    for c in &b {
        rt::assume((*c >= 0x20) & (*c < 0x7f));
    }
    b
}
/// n characters of a topic level
pub fn level(n: usize) -> Vec<u8> {
    let b = rt::bytes(n);
    for c in &b {
        rt::assume((*c >= b'a') & (*c <= b'z'));
    }
    b
}
