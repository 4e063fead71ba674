//! Harnesses over the packet codec. Every `h_*` function is one harness; `rt::param()` selects a
//! slice of its input space (see /verif/check.py for the slices each check runs).
mod model;
use apiformes_packet::prelude::*;
use bytes::{Buf, Bytes, BytesMut};
use model::*;
use std::sync::Arc;

fn enc(p: &Packet) -> Vec<u8> {
    let mut b: Vec<u8> = Vec::new();
    p.to_bytes(&mut b);
    b
}
fn dec(b: &[u8]) -> (Result<Packet, DataParseError>, usize) {
    let mut x = b;
    let r = Packet::from_bytes(&mut x);
    (r, b.len() - x.len())
}

/// Input frames. param < 64: that many arbitrary bytes. Otherwise 1000*k + 10*owner + focus: a
/// generated well-formed frame of that shape, changed as k says.
fn input(param: u64) -> Vec<u8> {
    if param < 64 {
        return rt::bytes(param as usize);
    }
    if param < 100 {
        // CONNECT up to the protocol version, then arbitrary bytes
        let n = param as usize - 64;
        let mut b = vec![0x10, (7 + n) as u8, 0, 4, b'M', b'Q', b'T', b'T', 5];
        b.extend_from_slice(&rt::bytes(n));
        return b;
    }
    let k = param / 1000;
    let owner = (param / 10 % 100) as u8;
    let f = focus_of(param % 10);
    let mut b = encode(&gen(owner, f));
    match k {
        5 => {}
        1 => {
            // one byte replaced by an arbitrary one
            let i = rt::pick(b.len());
            b[i] = rt::u8();
        }
        2 => {
            // cut short
            let n = rt::pick(b.len());
            b.truncate(n);
        }
        3 => {
            // cut short, and the remaining length says so
            let n = rt::pick(b.len() - 1);
            b.truncate(n + 2);
            b[1] = n as u8;
        }
        6 => {
            // two bytes replaced
            let i = rt::pick(b.len() - 1);
            b[i] = rt::u8();
            let j = i + 1 + rt::pick(b.len() - 1 - i);
            b[j] = rt::u8();
        }
        4 => {
            // longer by one arbitrary byte at an arbitrary place, and the remaining length says so
            let i = 2 + rt::pick(b.len() - 1);
            let x = rt::u8();
            b.insert(i, x);
            b[1] += 1;
        }
        _ => panic!("harness"),
    }
    b
}

/// D01: whatever the bytes, decoding returns, and what it returns can be used.
fn total() {
    let b = input(rt::param());
    let (r, n) = dec(&b);
    rt::obs(n as u64);
    match r {
        Ok(p) => {
            rt::cover("decoded");
            let s = snap(&p.clone());
            rt::obs(s.len() as u64);
            let e = enc(&p);
            rt::obs(e.len() as u64);
            rt::obs(p.frame_len() as u64);
        }
        Err(DataParseError::InsufficientBuffer { needed, available }) => {
            rt::cover("more");
            rt::obs(needed as u64);
            rt::obs(available as u64);
        }
        Err(_) => rt::cover("rejected"),
    }
}

/// D02: a decoded packet is exactly the declared frame.
fn framing() {
    let mut b = input(rt::param());
    let extra = rt::bytes(2);
    b.extend_from_slice(&extra);
    let (r, n) = dec(&b);
    if let Ok(p) = r {
        rt::cover("decoded");
        match frame(&b) {
            F::Ok(h, len) => {
                rt::check(n == h + len, "decoder consumed something else than the declared frame");
                rt::check(n <= b.len(), "decoder consumed more than it was given");
                rt::check(p.frame_len() == h + len, "frame_len of a decoded packet differs from its frame");
                // what follows the frame does not influence the packet
                let n = rt::conc(n as u64) as usize;
                if n < b.len() {
                    rt::cover("followed");
                }
                match dec(&b[..n]) {
                    (Ok(q), k) => {
                        rt::check(k == n, "frame alone consumed differently");
                        rt::check(same(&snap(&p), &snap(&q)), "bytes after the frame changed the packet");
                    }
                    _ => rt::fail("frame alone does not decode"),
                }
            }
            _ => rt::fail("decoded although no complete frame with a minimal length was present"),
        }
    }
}

/// D03: "need more data" is said exactly of incomplete frames.
fn more() {
    let b = input(rt::param());
    let (r, n) = dec(&b);
    match r {
        Ok(_) => {
            rt::cover("decoded");
            let n = rt::conc(n as u64) as usize;
            let k = rt::pick(n);
            match dec(&b[..k]).0 {
                Err(DataParseError::InsufficientBuffer { .. }) => {}
                Ok(_) => rt::fail("a strict prefix of a frame decoded"),
                Err(_) => rt::fail("a strict prefix of a valid frame was rejected as malformed"),
            }
        }
        Err(DataParseError::InsufficientBuffer { .. }) => {
            rt::cover("more");
            match frame(&b) {
                F::More => {}
                F::Bad => rt::fail("asked for more data after a malformed remaining length"),
                F::Ok(h, len) => {
                    rt::check(len > b.len() - h, "asked for more data although the whole frame is present")
                }
            }
        }
        Err(_) => rt::cover("rejected"),
    }
}

/// D04: build -> encode -> decode gives back the packet; the bytes are the specified ones.
fn roundtrip() {
    let m = gen((rt::param() / 10 % 100) as u8, focus_of(rt::param() % 10));
    let p = match build(&m) {
        Ok(p) => p,
        Err(_) => rt::fail("a valid packet could not be built"),
    };
    let want = snap_m(&m);
    rt::check(same(&snap(&p), &want), "built packet does not read back what was set");
    let b = enc(&p);
    let (r, n) = dec(&b);
    match r {
        Ok(q) => {
            rt::check(n == b.len(), "decoding the encoding left bytes over");
            rt::check(same(&snap(&q), &want), "decoded packet differs from the built one");
        }
        Err(_) => rt::fail("the encoding of a built packet does not decode"),
    }
    let np = m.props.len().max(m.will.as_ref().map(|w| w.props.len()).unwrap_or(0));
    if np < 2 || m.props.len() == 2 && m.props[0].0 == m.props[1].0 {
        rt::cover("bytes");
        rt::check(same(&b, &encode(&m)), "encoding differs from the specified bytes");
    } else {
        rt::cover("props2");
        rt::check(b.len() == encode(&m).len(), "encoding has another length than specified");
    }
    rt::obs(b.len() as u64);
}

/// D05: announced sizes are the real ones.
fn sizes() {
    let m = gen((rt::param() / 10 % 100) as u8, focus_of(rt::param() % 10));
    let p = match build(&m) {
        Ok(p) => p,
        Err(_) => rt::fail("a valid packet could not be built"),
    };
    let b = enc(&p);
    rt::check(p.frame_len() == b.len(), "frame_len differs from the bytes written");
    rt::check(p.frame_len() == encode(&m).len(), "frame_len differs from the specified frame");
    match frame(&b) {
        F::Ok(h, len) => {
            rt::check(h + len == b.len(), "remaining length field differs from the bytes that follow it")
        }
        _ => rt::fail("the written fixed header is not a minimal valid one"),
    }
    // the size does not depend on what the buffer already holds, and a fixed buffer of frame_len suffices
    let mut pre = BytesMut::new();
    pre.extend_from_slice(&[9, 9, 9]);
    p.to_bytes(&mut pre);
    rt::check(pre.len() == 3 + b.len() && pre[0] == 9 && pre[2] == 9, "encoding disturbed what was in the buffer");
    rt::check(same(&pre[3..], &b), "encoding depends on the buffer");
    let mut fixed = vec![0u8; p.frame_len()];
    let mut w = &mut fixed[..];
    p.to_bytes(&mut w);
    rt::check(w.is_empty(), "frame_len bytes not filled");
    rt::cover("sized");
    rt::obs(b.len() as u64);
}

/// D06: decode -> encode -> decode is stable, and identical bytes where the order is determined.
fn reencode() {
    let b = input(rt::param());
    let (r, n) = dec(&b);
    if let Ok(p) = r {
        rt::cover("decoded");
        let n = rt::conc(n as u64) as usize;
        let e = enc(&p);
        rt::check(e.len() == n, "re-encoding has another length");
        rt::check(p.frame_len() == n, "frame_len differs from the frame it was decoded from");
        let s = snap(&p);
        match dec(&e) {
            (Ok(q), k) => {
                rt::check(k == e.len(), "re-encoding leaves bytes over");
                rt::check(same(&snap(&q), &s), "re-encoded packet differs");
            }
            _ => rt::fail("re-encoding does not decode"),
        }
        if prop_counts(&p) < 2 {
            rt::cover("identical");
            rt::check(same(&e, &b[..n]), "re-encoding changed the bytes");
        }
        rt::check(same(&enc(&p.clone()), &e), "a clone encodes differently");
    }
}
fn prop_counts(p: &Packet) -> usize {
    match p {
        Packet::Connect(c) => c.props_iter().count().max(c.will().map(|w| w.props_iter().count()).unwrap_or(0)),
        Packet::ConnAck(c) => c.props_iter().count(),
        Packet::Publish(c) => c.props_iter().count(),
        Packet::PubAck(c) => c.props_iter().count(),
        Packet::PubRec(c) => c.props_iter().count(),
        Packet::PubRel(c) => c.props_iter().count(),
        Packet::PubComp(c) => c.props_iter().count(),
        Packet::Subscribe(c) => c.props_iter().count(),
        Packet::SubAck(c) => c.props_iter().count(),
        Packet::Unsubscribe(c) => c.props_iter().count(),
        Packet::UnsubAck(c) => c.props_iter().count(),
        Packet::Disconnect(c) => c.props_iter().count(),
        Packet::Auth(c) => c.props_iter().count(),
        _ => 0,
    }
}

/// A buffer whose bytes lie in several chunks.
struct Seg<'a> {
    b: &'a [u8],
    cuts: Vec<usize>,
    pos: usize,
}
impl<'a> Buf for Seg<'a> {
    fn remaining(&self) -> usize {
        self.b.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        let mut end = self.b.len();
        for c in &self.cuts {
            if *c > self.pos && *c < end {
                end = *c;
            }
        }
        &self.b[self.pos..end]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.b.len() - self.pos);
        self.pos += n;
    }
}

/// D07: how the input is cut into chunks makes no difference.
fn segments() {
    let b = input(rt::param());
    let (r, n) = dec(&b);
    let k = rt::pick(b.len() + 2);
    let cuts = if k == 0 {
        (0..b.len()).collect() // every byte its own chunk
    } else {
        vec![k - 1]
    };
    let mut s = Seg { b: &b, cuts, pos: 0 };
    let r2 = Packet::from_bytes(&mut s);
    match (r, r2) {
        (Ok(p), Ok(q)) => {
            rt::cover("decoded");
            rt::check(same(&snap(&p), &snap(&q)), "chunking changed the decoded packet");
            rt::check(n == s.pos, "chunking changed how much was consumed");
        }
        (Err(a), Err(b)) => {
            rt::cover("rejected");
            rt::check(a == b, "chunking changed the error");
        }
        (Ok(_), Err(_)) => rt::fail("decodes in one chunk but not in several"),
        (Err(_), Ok(_)) => rt::fail("decodes in several chunks but not in one"),
    }
}

/// D08: variable byte integers over their whole range.
fn varint_value() {
    let x = rt::u32();
    match MqttPropValue::new_varint(x) {
        Ok(v) => {
            rt::check(x <= 268_435_455, "accepted a variable byte integer above 268435455");
            rt::check(v.into_u32() == Some(x), "variable byte integer value changed");
            let mut s = Subscribe::new(1);
            if s.add_topic(Arc::from("t"), SubscriptionOptions::empty()).is_err() {
                rt::fail("add_topic");
            }
            if s.add_prop(Property::SubscriptionIdentifier, v).is_err() {
                rt::fail("add_prop");
            }
            let p = s.build();
            let b = enc(&p);
            let mut m = empty(SUBSCRIBE);
            m.id = Some(1);
            m.topics.push((b"t".to_vec(), 0));
            m.props.push((0x0b, V::Var(x)));
            rt::check(same(&b, &encode(&m)), "variable byte integer encoding is not the specified one");
            match dec(&b).0 {
                Ok(q) => rt::check(same(&snap(&q), &snap_m(&m)), "variable byte integer does not round trip"),
                Err(_) => rt::fail("encoded variable byte integer does not decode"),
            }
            rt::cover("encoded");
        }
        Err(_) => {
            rt::cover("too big");
            rt::check(x > 268_435_455, "rejected a representable variable byte integer");
        }
    }
}
/// arbitrary bytes where a variable byte integer stands (property value)
fn varint_bytes() {
    let v = rt::bytes(5);
    let mut b = vec![0x82u8, 0, 0, 1, 0, 0x0b];
    b.extend_from_slice(&v);
    b.extend_from_slice(&[0, 1, b't', 0]);
    // the integer ends at the first byte without the continuation bit
    let mut k = 0;
    while k < 5 && v[k] & 128 != 0 {
        k += 1;
    }
    // the property section ends right after the integer
    if k < 5 {
        let rest = b.split_off(6 + k + 1);
        let skip = 4 - k;
        b.extend_from_slice(&rest[skip..]);
        b[4] = (2 + k) as u8;
    } else {
        b[4] = 6;
    }
    b[1] = (b.len() - 2) as u8;
    let ok = k < 4 && !(k > 0 && v[k] == 0);
    match dec(&b).0 {
        Ok(Packet::Subscribe(s)) => {
            rt::cover("valid");
            rt::check(ok, "accepted a malformed variable byte integer");
            let mut want = 0u32;
            for i in 0..(k + 1).min(4) {
                want |= ((v[i] & 127) as u32) << (7 * i);
            }
            match s.get_prop(Property::SubscriptionIdentifier) {
                Some([x]) => rt::check(x.into_u32() == Some(want), "variable byte integer decoded to another value"),
                _ => rt::fail("property lost"),
            }
        }
        Ok(_) => rt::fail("another packet type"),
        Err(_) => {
            rt::cover("invalid");
            rt::check(!ok, "rejected a well-formed variable byte integer");
        }
    }
}
/// arbitrary bytes where the remaining length stands: five bytes, no body
fn varint_header() {
    let types = [0x10u8, 0x20, 0x30, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xa2, 0xb0, 0xe0, 0xf0];
    let t = types[rt::param() as usize];
    let mut b = vec![t];
    let n = 1 + rt::pick(5);
    b.extend_from_slice(&rt::bytes(n));
    let mut x = &b[..];
    let r = Packet::from_bytes(&mut x);
    match frame(&b) {
        F::Bad => {
            rt::cover("malformed");
            rt::check(r.is_err(), "decoded with a malformed remaining length");
            rt::check(
                !matches!(r, Err(DataParseError::InsufficientBuffer { .. })),
                "asked for more data after a malformed remaining length",
            );
        }
        F::More => {
            rt::cover("incomplete");
            rt::check(
                matches!(r, Err(DataParseError::InsufficientBuffer { .. })),
                "did not ask for the rest of the remaining length",
            );
        }
        F::Ok(h, len) => {
            // 65536 and more: no field of any packet rules the length out early
            if len > b.len() - h && len >= 16 {
                rt::cover("declared");
                rt::check(
                    matches!(r, Err(DataParseError::InsufficientBuffer { .. })),
                    "did not ask for the rest of a long frame",
                );
            }
        }
    }
}
/// frames whose remaining length sits at an encoding boundary
fn varint_frame() {
    let n = [126usize, 127, 128, 129, 16382, 16383, 16384, 16385, 2097150, 2097151, 2097152, 2097153][rt::param() as usize];
    // topic "t" (3) + empty property section (1) + payload
    let mut payload = vec![7u8; n - 4];
    payload[0] = rt::u8();
    let p = match Publish::new(Arc::from("t"), Bytes::from(payload)) {
        Ok(p) => p.build(),
        Err(_) => rt::fail("publish"),
    };
    let b = enc(&p);
    let h = varint(n);
    rt::check(b.len() == 1 + h.len() + n, "frame has another length than declared");
    rt::check(same(&b[1..1 + h.len()], &h), "remaining length is not minimally encoded");
    rt::check(p.frame_len() == b.len(), "frame_len at an encoding boundary");
    match dec(&b) {
        (Ok(Packet::Publish(q)), k) => {
            rt::check(k == b.len(), "consumed another length at an encoding boundary");
            let a = q.payload();
            rt::check(a.len() == n - 4 && a[0] == b[1 + h.len() + 4] && a[n - 5] == 7, "payload at an encoding boundary");
        }
        _ => rt::fail("frame at an encoding boundary does not decode"),
    }
    rt::cover("boundary");
}

// ---- text ---------------------------------------------------------------------------------------
fn is_ok<T, E>(r: Result<T, E>) -> bool {
    r.is_ok()
}
/// D09: text fields accept exactly well-formed UTF-8 without control characters.
fn text() {
    let n = (rt::param() % 100) as usize;
    let site = rt::param() / 100;
    let s = rt::bytes(n);
    let ok = text_ok(&s);
    rt::cover(if ok { "good text" } else { "bad text" });
    let mut m;
    match site {
        0 => {
            m = empty(CONNECT);
            m.s = s.clone();
        }
        1 => {
            m = empty(CONNECT);
            m.user = Some(s.clone());
            m.aflags = 0x80;
        }
        2 => {
            m = empty(CONNECT);
            m.will = Some(MWill { props: vec![], topic: s.clone(), payload: vec![] });
            m.aflags = 4;
        }
        3 => {
            m = empty(CONNACK);
            m.props.push((0x1f, V::Str(s.clone())));
        }
        4 => {
            m = empty(DISCONNECT);
            m.props.push((0x26, V::Str(s.clone())));
        }
        _ => {
            m = empty(PUBLISH);
            m.s = s.clone();
            rt::assume(!has_wildcard(&s));
        }
    }
    let b = encode(&m);
    match dec(&b).0 {
        Ok(p) => {
            rt::check(ok, "ill-formed text accepted from the wire");
            rt::check(same(&snap(&p), &snap_m(&m)), "text changed by decoding");
        }
        Err(e) => {
            rt::check(!ok, "well-formed text rejected from the wire");
            rt::check(e == DataParseError::BadMqttUtf8String, "ill-formed text reported as something else");
        }
    }
    // through the API only text that Rust itself considers UTF-8 can arrive
    if let Ok(t) = std::str::from_utf8(&s) {
        rt::cover("api");
        let a: Arc<str> = Arc::from(t);
        let r = match site {
            0 => is_ok(Connect::new(a)),
            1 => match Connect::new(Arc::from("c")) {
                Ok(mut c) => is_ok(c.set_username(a)),
                Err(_) => rt::fail("connect"),
            },
            2 => is_ok(Will::new(a, &b""[..])),
            3 => is_ok(MqttPropValue::new_string(a)),
            4 => is_ok(MqttPropValue::new_string_pair(a, Arc::from("v"))),
            _ => is_ok(Publish::new(a, Bytes::new())),
        };
        rt::check(r == ok, "API accepts other text than the wire");
    }
}
/// strings and binary data at the 65535-byte limit
fn text_limit() {
    let n = [65534usize, 65535, 65536, 65537, 131071, 131072][rt::param() as usize / 10 % 10];
    let ok = n <= 65535;
    let site = rt::param() % 10;
    let mut raw = vec![b'a'; n];
    match rt::param() / 100 {
        0 => {}
        // characters of two, three and four bytes: the limit is on bytes
        1 => {
            for i in 0..(n - 1) / 2 {
                raw[2 * i..2 * i + 2].copy_from_slice("\u{e9}".as_bytes());
            }
        }
        2 => {
            for i in 0..(n - 1) / 3 {
                raw[3 * i..3 * i + 3].copy_from_slice("\u{20ac}".as_bytes());
            }
        }
        _ => {
            for i in 0..(n - 1) / 4 {
                raw[4 * i..4 * i + 4].copy_from_slice("\u{1f600}".as_bytes());
            }
        }
    }
    raw[n - 1] = word(1)[0];
    let a: Arc<str> = arc(&raw);
    let mut c = match Connect::new(Arc::from("c")) {
        Ok(c) => c,
        Err(_) => rt::fail("connect"),
    };
    let good = match site {
        0 => match Connect::new(a) {
            Ok(x) => {
                c = x;
                true
            }
            Err(_) => false,
        },
        1 => is_ok(c.set_username(a)),
        2 => is_ok(c.set_password(&raw[..])),
        3 => match Will::new(a, &b""[..]) {
            Ok(w) => {
                c.set_will(w);
                true
            }
            Err(_) => false,
        },
        4 => match Will::new(Arc::from("t"), &raw[..]) {
            Ok(w) => {
                c.set_will(w);
                true
            }
            Err(_) => false,
        },
        5 => match MqttPropValue::new_string(a) {
            Ok(v) => is_ok(c.add_prop(Property::AuthenticationMethod, v)),
            Err(_) => false,
        },
        6 => match MqttPropValue::new_data(&raw[..]) {
            Ok(v) => is_ok(c.add_prop(Property::AuthenticationData, v)),
            Err(_) => false,
        },
        7 => is_ok(MqttPropValue::new_string_pair(Arc::from("k"), a)),
        8 => is_ok(MqttTopic::new(a)),
        _ => is_ok(MqttPropValue::new_string_pair(a, Arc::from("v"))),
    };
    rt::check(good == ok, "length limit of strings and binary data not enforced exactly");
    rt::cover(if ok { "fits" } else { "too long" });
    if good && site < 7 {
        let p = c.build();
        let b = enc(&p);
        rt::check(p.frame_len() == b.len(), "frame_len of a packet with a long field");
        match dec(&b) {
            (Ok(q), k) => {
                rt::check(k == b.len(), "long field: bytes left over");
                rt::check(same(&snap(&p), &snap(&q)), "long field changed in a round trip");
            }
            _ => rt::fail("packet with a long field does not decode"),
        }
    }
}

// ---- topics -------------------------------------------------------------------------------------
/// D10: topic filters follow the wildcard placement rules; topic names have no wildcard.
fn topic() {
    let n = (rt::param() % 100) as usize; // the empty topic is a known finding
    let site = rt::param() / 100;
    let s = rt::bytes(n);
    if site < 10 {
        for c in &s {
            rt::assume((*c >= 0x20) & (*c < 0x7f));
        }
    } else {
        rt::assume(text_ok(&s));
    }
    let ok = filter_ok(&s);
    let wild = has_wildcard(&s);
    if ok && wild {
        rt::cover("good wildcard");
    }
    if !ok {
        rt::cover("bad");
    }
    let a = arc(&s);
    match site % 10 {
        0 => match MqttTopic::new(a) {
            Ok(t) => {
                rt::check(ok, "malformed topic filter accepted");
                rt::check(t.is_wildcard() == wild, "is_wildcard wrong");
                rt::check(t.is_system() == (n > 0 && s[0] == b'$'), "is_system wrong");
                rt::check(same(t.inner().as_bytes(), &s), "topic changed");
            }
            Err(_) => rt::check(!ok, "well-formed topic filter rejected"),
        },
        1 => {
            let mut p = Subscribe::new(1);
            rt::check(p.add_topic(a, SubscriptionOptions::empty()).is_ok() == ok, "SUBSCRIBE builder: filter rule");
        }
        2 => {
            let mut p = Unsubscribe::new(1);
            rt::check(p.add_topic(a).is_ok() == ok, "UNSUBSCRIBE builder: filter rule");
        }
        3 => {
            rt::check(Publish::new(a, Bytes::new()).is_ok() == !wild, "PUBLISH builder: topic name rule");
        }
        4 => {
            let mut m = empty(SUBSCRIBE);
            m.id = Some(1);
            m.topics.push((s, 0));
            rt::check(dec(&encode(&m)).0.is_ok() == ok, "SUBSCRIBE decoder: filter rule");
        }
        5 => {
            let mut m = empty(UNSUBSCRIBE);
            m.id = Some(1);
            m.topics.push((s, 0));
            rt::check(dec(&encode(&m)).0.is_ok() == ok, "UNSUBSCRIBE decoder: filter rule");
        }
        6 => {
            let mut m = empty(PUBLISH);
            m.s = s;
            rt::check(dec(&encode(&m)).0.is_ok() == !wild, "PUBLISH decoder: topic name rule");
        }
        _ => {
            // second topic of a list
            let mut m = empty(SUBSCRIBE);
            m.id = Some(1);
            m.topics.push((b"a/#".to_vec(), 0));
            m.topics.push((s, 0));
            rt::check(dec(&encode(&m)).0.is_ok() == ok, "SUBSCRIBE decoder: filter rule for a later topic");
        }
    }
}

// ---- properties ---------------------------------------------------------------------------------
fn blank(owner: u8) -> M {
    let mut m = empty(if owner == WILL { CONNECT } else { owner });
    match m.ty {
        CONNECT => {
            m.s = b"c".to_vec();
            if owner == WILL {
                m.aflags = 4;
                m.will = Some(MWill { props: vec![], topic: b"t".to_vec(), payload: vec![] });
            }
        }
        PUBLISH => m.s = b"t".to_vec(),
        PUBACK | PUBREC | PUBREL | PUBCOMP => m.id = Some(7),
        SUBSCRIBE | UNSUBSCRIBE => {
            m.id = Some(7);
            m.topics.push((b"t".to_vec(), 0));
        }
        SUBACK | UNSUBACK => {
            m.id = Some(7);
            m.codes.push(0);
        }
        _ => {}
    }
    m
}
fn set_props(m: &mut M, owner: u8, p: Props) {
    if owner == WILL {
        m.will.as_mut().unwrap().props = p;
    } else {
        m.props = p;
    }
}
/// add one property to a packet under construction, whatever its type
fn add_prop(p: Packet, owner: u8, key: Property, v: MqttPropValue) -> (Packet, Result<(), DataParseError>) {
    macro_rules! go {
        ($x:expr) => {{
            let mut c = $x;
            let r = c.add_prop(key, v);
            (c.build(), r)
        }};
    }
    match p {
        Packet::Connect(c) if owner == WILL => {
            let mut w = c.will().unwrap().clone();
            let r = w.add_prop(key, v);
            let mut c = c;
            c.set_will(w);
            (c.build(), r)
        }
        Packet::Connect(c) => go!(c),
        Packet::ConnAck(c) => go!(c),
        Packet::Publish(c) => go!(c),
        Packet::PubAck(c) => go!(c),
        Packet::PubRec(c) => go!(c),
        Packet::PubRel(c) => go!(c),
        Packet::PubComp(c) => go!(c),
        Packet::Subscribe(c) => go!(c),
        Packet::SubAck(c) => go!(c),
        Packet::Unsubscribe(c) => go!(c),
        Packet::UnsubAck(c) => go!(c),
        Packet::Disconnect(c) => go!(c),
        Packet::Auth(c) => go!(c),
        p => (p, Ok(())),
    }
}
const TYPES: [T; 7] = [T::Bool, T::Byte, T::U16, T::U32, T::Var, T::Str, T::Data];
/// D11a: the builder accepts exactly the properties of the table, with their value type.
fn prop_api() {
    let owner = rt::param() as u8;
    let info = &TABLE[rt::pick(27)];
    let m = blank(owner);
    let p = match build(&m) {
        Ok(p) => p,
        Err(_) => rt::fail("blank packet"),
    };
    let before = enc(&p);
    let t = rt::pick(8);
    let (val, rv) = if t < 7 {
        let v = gen_val(TYPES[t], 1);
        let r = match real_val(&v) {
            Ok(r) => r,
            Err(_) => rt::fail("value"),
        };
        (Some(v), r)
    } else {
        match MqttPropValue::new_string_pair(Arc::from("k"), Arc::from("v")) {
            Ok(r) => (None, r),
            Err(_) => rt::fail("value"),
        }
    };
    let mine = info.owners >> owner & 1 == 1;
    let fits = t < 7 && TYPES[t] == info.t;
    let (p, r) = add_prop(p, owner, info.key, rv);
    if mine && fits {
        rt::cover("accepted");
        rt::check(r.is_ok(), "property of the table rejected by the builder");
        let mut m = m;
        set_props(&mut m, owner, vec![(info.id, val.unwrap())]);
        rt::check(same(&enc(&p), &encode(&m)), "property encoded differently than specified");
    } else {
        rt::cover("refused");
        rt::check(r.is_err(), "property outside the table accepted by the builder");
        rt::check(same(&enc(&p), &before), "refused property changed the packet");
    }
}
/// D11b: the decoder accepts exactly the properties of the table.
fn prop_wire() {
    let owner = rt::param() as u8;
    let info = &TABLE[rt::pick(27)];
    let mut m = blank(owner);
    let twice = rt::pick(2) == 1;
    let mut ps = vec![(info.id, gen_val(info.t, 1))];
    let mut bool_ok = true;
    if info.t == T::Bool {
        let b = rt::u8();
        bool_ok = b < 2;
        ps[0].1 = V::Byte(b);
    }
    if twice {
        ps.push((info.id, gen_val(info.t, 1)));
    }
    let ps0 = ps[0].1.clone();
    set_props(&mut m, owner, ps);
    let b = encode(&m);
    let mine = info.owners >> owner & 1 == 1;
    let ok = mine && (!twice || info.multi) && bool_ok;
    match dec(&b).0 {
        Ok(p) => {
            rt::check(mine, "property of another packet accepted from the wire");
            rt::check(bool_ok, "boolean property with another value than 0 and 1 accepted");
            rt::check(ok, "property that may appear once accepted twice");
            rt::cover("accepted");
            if info.t == T::Bool {
                let b = match ps0 {
                    V::Byte(b) => b,
                    _ => 0,
                };
                set_props(&mut m, owner, vec![(info.id, V::Bool(b))]);
            }
            rt::check(same(&snap(&p), &snap_m(&m)), "property decoded to something else");
        }
        Err(_) => {
            rt::cover("refused");
            rt::check(!ok, "property of the table rejected from the wire");
        }
    }
}
/// D11c: unknown identifiers are refused whatever follows
fn prop_unknown() {
    let owner = rt::param() as u8;
    let id = rt::u8();
    let mut known = false;
    for t in TABLE.iter() {
        known |= t.id == id;
    }
    rt::assume(!known);
    let mut m = blank(owner);
    let v = rt::bytes(2);
    set_props(&mut m, owner, vec![(id, V::U16((v[0] as u16) << 8 | v[1] as u16))]);
    rt::cover("unknown");
    rt::check(dec(&encode(&m)).0.is_err(), "unknown property identifier accepted");
}
// ---- known findings (known_findings.json): each fails on the current tree ----------------------
fn kf_accepts(b: &[u8], what: &'static str) {
    rt::check(dec(b).0.is_ok(), what);
}
/// MQTT 5 2.2.2.2: User Property is a UTF-8 string pair
fn kf_user_property() {
    let v = word(2);
    kf_accepts(
        &[0x40, 11, 0, 1, 0, 7, 0x26, 0, 1, v[0], 0, 1, v[1]],
        "a user property written as a string pair is refused",
    );
}
/// 3.4.2.1: reason code and properties may be left out
fn kf_short_puback() {
    kf_accepts(&[0x40, 2, rt::u8(), 1], "PUBACK without reason code refused");
}
fn kf_short_disconnect() {
    kf_accepts(&[0xe0, 0], "DISCONNECT without reason code refused");
}
/// 3.3.2.3.8: a PUBLISH carries one Subscription Identifier per matching subscription
fn kf_subscription_ids() {
    kf_accepts(&[0x30, 8, 0, 1, b't', 4, 0x0b, 1, 0x0b, 2], "PUBLISH with two subscription identifiers refused");
}
/// [MQTT-4.7.3-1] a topic filter has at least one character
fn kf_empty_filter() {
    rt::check(dec(&[0x82, 6, 0, 1, 0, 0, 0, 0]).0.is_err(), "SUBSCRIBE with an empty topic filter accepted");
}

/// D14: any history of property insertions leaves the same as a map with appending for the
/// repeatable one, sizes included.
fn prop_history() {
    let owner = (rt::param() / 10) as u8;
    let steps = (rt::param() % 10) as usize;
    let mut m = blank(owner);
    let mut p = match build(&m) {
        Ok(p) => p,
        Err(_) => rt::fail("blank packet"),
    };
    // the repeatable property, and up to three others of different value types
    let mut a = allowed(owner);
    let mut kinds: Vec<T> = vec![];
    a.retain(|p| {
        let n = p.multi || !kinds.contains(&p.t);
        if !p.multi {
            kinds.push(p.t);
        }
        n
    });
    let mut props: Props = vec![];
    for _ in 0..steps {
        let i = a[rt::pick(a.len())];
        // strings of different lengths, so that replacing changes the size
        let n = if i.t == T::Str || i.t == T::Data { rt::pick(2) * 2 } else { 1 };
        let v = gen_val(i.t, n);
        let rv = match real_val(&v) {
            Ok(r) => r,
            Err(_) => rt::fail("value"),
        };
        let (q, r) = add_prop(p, owner, i.key, rv);
        p = q;
        rt::check(r.is_ok(), "allowed property rejected");
        if i.multi {
            props.push((i.id, v));
        } else {
            match props.iter_mut().find(|x| x.0 == i.id) {
                Some(x) => {
                    rt::cover("replaced");
                    x.1 = v
                }
                None => props.push((i.id, v)),
            }
        }
    }
    set_props(&mut m, owner, props);
    let want = snap_m(&m);
    rt::check(same(&snap(&p), &want), "property history reads back differently");
    let b = enc(&p);
    rt::check(b.len() == encode(&m).len(), "size accounting wrong after a property history");
    rt::check(p.frame_len() == b.len(), "frame_len wrong after a property history");
    match dec(&b) {
        (Ok(q), n) => {
            rt::check(n == b.len(), "bytes left over after a property history");
            rt::check(same(&snap(&q), &want), "property history does not round trip");
        }
        _ => rt::fail("packet with a property history does not decode"),
    }
    rt::cover("history");
}

/// D12: the decoder accepts exactly what the reference decoder accepts, with the same meaning.
fn reference() {
    let b = input(rt::param());
    let (r, n) = dec(&b);
    match decode(&b) {
        R::Ok(m, k) => {
            rt::cover("accepted");
            match r {
                Ok(p) => {
                    rt::check(n == k, "consumed another length than the reference");
                    rt::check(same(&snap(&p), &snap_m(&m)), "decoded to another packet than the reference");
                }
                Err(_) => rt::fail("rejected a well-formed packet"),
            }
        }
        R::Either => {}
        R::Bad => {
            rt::cover("rejected");
            rt::check(r.is_err(), "accepted a malformed packet");
        }
        R::More => {
            rt::cover("more");
            rt::check(r.is_err(), "decoded an incomplete packet");
        }
    }
}

// ---- builders -----------------------------------------------------------------------------------
fn bad_text() -> Arc<str> {
    // one control character in front of an arbitrary printable one
    let mut v = rt::bytes(1);
    rt::assume(v[0] < 0x20);
    v.extend_from_slice(&word(1));
    arc(&v)
}
/// D13: a setter that fails changes nothing, one that succeeds changes only what it names.
fn setters() {
    let ty = (rt::param() / 10 % 100) as u8;
    let steps = (rt::param() % 10) as usize;
    match ty {
        CONNECT => setters_connect(steps),
        PUBLISH => setters_publish(steps),
        SUBSCRIBE => setters_subscribe(steps),
        WILL => setters_will(steps),
        _ => panic!("harness"),
    }
}
fn verify(p: &Packet, m: &M, what: &'static str) {
    rt::check(same(&snap(p), &snap_m(m)), what);
    if m.ty == PUBLISH && m.flags & 6 != 0 && m.id.is_none() {
        return; // documented precondition: QoS 1 and 2 need a packet identifier before encoding
    }
    if m.ty == SUBSCRIBE && m.topics.is_empty() {
        return;
    }
    let b = enc(p);
    rt::check(same(&b, &encode(m)), "after setters the packet encodes to something else");
    match dec(&b).0 {
        Ok(q) => rt::check(same(&snap(&q), &snap_m(m)), "after setters the packet does not round trip"),
        Err(_) => rt::fail("after setters the packet does not decode"),
    }
}
fn setters_connect(steps: usize) {
    let mut m = blank(CONNECT);
    let mut c = match Connect::new(Arc::from("c")) {
        Ok(c) => c,
        Err(_) => rt::fail("connect"),
    };
    if rt::param() >= 1000 {
        // start from a CONNECT with everything set
        match Will::new(Arc::from("w"), &b"d"[..]) {
            Ok(w) => c.set_will(w),
            Err(_) => rt::fail("will"),
        }
        m.will = Some(MWill { props: vec![], topic: b"w".to_vec(), payload: b"d".to_vec() });
        let q = rt::pick(3) as u8;
        rt::check(c.set_will_qos(qos_of(q)).is_ok(), "set_will_qos");
        m.aflags = 4 | q << 3;
        if rt::pick(2) == 1 {
            rt::check(c.set_will_retain().is_ok(), "set_will_retain");
            rt::check(c.set_username(Arc::from("u")).is_ok(), "set_username");
            rt::check(c.set_password(&b"p"[..]).is_ok(), "set_password");
            m.aflags |= 0xe0;
            m.user = Some(b"u".to_vec());
            m.pass = Some(b"p".to_vec());
        }
    }
    for _ in 0..steps {
        match rt::pick(11) {
            0 => {
                c.set_clean_start();
                m.aflags |= 2;
            }
            1 => {
                let k = rt::u16();
                c.set_keep_alive(k);
                m.keep_alive = k;
            }
            2 => {
                let w = word(1);
                rt::check(c.set_username(arc(&w)).is_ok(), "set_username");
                m.user = Some(w);
                m.aflags |= 0x80;
            }
            3 => {
                rt::cover("failed setter");
                rt::check(c.set_username(bad_text()).is_err(), "bad user name accepted");
            }
            4 => {
                let w = rt::bytes(1);
                rt::check(c.set_password(&w[..]).is_ok(), "set_password");
                m.pass = Some(w);
                m.aflags |= 0x40;
            }
            5 => {
                rt::cover("failed setter");
                rt::check(c.set_password(&[1u8; 65536][..]).is_err(), "too long password accepted");
            }
            6 => {
                let (t, d) = (word(1), rt::bytes(1));
                match Will::new(arc(&t), &d[..]) {
                    Ok(w) => c.set_will(w),
                    Err(_) => rt::fail("will"),
                }
                m.will = Some(MWill { props: vec![], topic: t, payload: d });
                m.aflags |= 4;
            }
            7 => {
                let q = rt::pick(3) as u8;
                let r = c.set_will_qos(qos_of(q));
                rt::check(r.is_ok() == m.will.is_some(), "set_will_qos needs a will");
                if m.will.is_some() {
                    m.aflags = m.aflags & !0x18 | q << 3;
                } else {
                    rt::cover("failed setter");
                }
            }
            8 => {
                let r = c.set_will_retain();
                rt::check(r.is_ok() == m.will.is_some(), "set_will_retain needs a will");
                if m.will.is_some() {
                    m.aflags |= 0x20;
                } else {
                    rt::cover("failed setter");
                }
            }
            9 => {
                let v = rt::u32();
                rt::check(c.add_prop(Property::SessionExpiryInterval, MqttPropValue::new_u32(v)).is_ok(), "add_prop");
                m.props.retain(|p| p.0 != 0x11);
                m.props.push((0x11, V::U32(v)));
            }
            _ => {
                rt::cover("failed setter");
                rt::check(c.add_prop(Property::SessionExpiryInterval, MqttPropValue::new_u16(1)).is_err(), "wrong value type accepted");
                rt::check(c.add_prop(Property::TopicAlias, MqttPropValue::new_u16(1)).is_err(), "foreign property accepted");
            }
        }
        verify(&c.clone().build(), &m, "CONNECT setter changed something else");
    }
}
fn setters_publish(steps: usize) {
    let mut m = blank(PUBLISH);
    let mut c = match Publish::new(Arc::from("t"), Bytes::new()) {
        Ok(c) => c,
        Err(_) => rt::fail("publish"),
    };
    for _ in 0..steps {
        match rt::pick(8) {
            0 => {
                c.set_retain();
                m.flags |= 1;
            }
            1 => {
                c.set_dup();
                m.flags |= 8;
            }
            2 => {
                let q = rt::pick(3) as u8;
                c.set_qos(qos_of(q));
                m.flags = m.flags & !6 | q << 1;
                if q == 0 {
                    m.id = None; // a QoS 0 publish has no packet identifier
                }
            }
            3 => {
                let i = rt::u16();
                let r = c.set_packet_identifier(i);
                rt::check(r.is_ok() == (m.flags & 6 != 0), "packet identifier goes with QoS 1 and 2");
                if m.flags & 6 != 0 {
                    m.id = Some(i);
                } else {
                    rt::cover("failed setter");
                }
            }
            4 => {
                let n = rt::pick(3);
                m.payload = rt::bytes(n);
                c.set_payload(&m.payload[..]);
            }
            5 => {
                m.payload = rt::bytes(2);
                c.set_payload_bytes(Bytes::copy_from_slice(&m.payload));
            }
            6 => {
                let v = rt::u16();
                rt::check(c.add_prop(Property::TopicAlias, MqttPropValue::new_u16(v)).is_ok(), "add_prop");
                m.props = vec![(0x23, V::U16(v))];
            }
            _ => {
                rt::cover("failed setter");
                rt::check(c.add_prop(Property::TopicAlias, MqttPropValue::new_u32(1)).is_err(), "wrong value type accepted");
                rt::check(c.add_prop(Property::ReasonString, MqttPropValue::new_u16(1)).is_err(), "foreign property accepted");
            }
        }
        verify(&c.clone().build(), &m, "PUBLISH setter changed something else");
    }
}
fn setters_subscribe(steps: usize) {
    let mut m = empty(SUBSCRIBE);
    let id = rt::u16();
    m.id = Some(id);
    let mut c = Subscribe::new(id);
    let mut u = Unsubscribe::new(id);
    let mut mu = empty(UNSUBSCRIBE);
    mu.id = Some(id);
    for _ in 0..steps {
        match rt::pick(3) {
            0 => {
                let t = word(1);
                // options put together the way the API offers it
                let (q, r) = (rt::pick(3) as u8, rt::pick(3) as u8);
                let mut o: SubscriptionOptions = qos_of(q).into();
                o |= match r {
                    0 => RetainHandling::Send.into(),
                    1 => RetainHandling::SendIfNotExisting.into(),
                    _ => RetainHandling::DoNotSend.into(),
                };
                let mut f = q | r << 4;
                match rt::pick(3) {
                    0 => {}
                    1 => {
                        o |= SubscriptionOptions::NO_LOCAL;
                        f |= 4;
                    }
                    _ => {
                        o |= SubscriptionOptions::RETAIN_AS_PUBLISHED;
                        f |= 8;
                    }
                }
                rt::check(c.add_topic(arc(&t), o).is_ok(), "add_topic");
                rt::check(u.add_topic(arc(&t)).is_ok(), "add_topic");
                m.topics.push((t.clone(), f));
                mu.topics.push((t, 0));
            }
            1 => {
                rt::cover("failed setter");
                let bad = [&b"a/#/b"[..], b"a#", b"+a", b"a+/b", b"\x01"][rt::pick(5)];
                rt::check(c.add_topic(arc(bad), SubscriptionOptions::empty()).is_err(), "malformed filter accepted");
                rt::check(u.add_topic(arc(bad)).is_err(), "malformed filter accepted");
            }
            _ => {
                rt::cover("failed setter");
                let o = if rt::pick(2) == 0 {
                    SubscriptionOptions::QOS1 | SubscriptionOptions::QOS2
                } else {
                    SubscriptionOptions::RETAIN_HANDLING1 | SubscriptionOptions::RETAIN_HANDLING2
                };
                rt::check(c.add_topic(Arc::from("t"), o).is_err(), "impossible options accepted");
            }
        }
        verify(&c.clone().build(), &m, "SUBSCRIBE setter changed something else");
        if !mu.topics.is_empty() {
            verify(&u.clone().build(), &mu, "UNSUBSCRIBE setter changed something else");
        }
    }
}
fn setters_will(steps: usize) {
    let mut m = blank(WILL);
    let mut w = match Will::new(Arc::from("t"), &b""[..]) {
        Ok(w) => w,
        Err(_) => rt::fail("will"),
    };
    for _ in 0..steps {
        let mw = m.will.as_mut().unwrap();
        match rt::pick(6) {
            0 => {
                let t = word(2);
                rt::check(w.set_topic(arc(&t)).is_ok(), "set_topic");
                mw.topic = t;
            }
            1 => {
                rt::cover("failed setter");
                rt::check(w.set_topic(bad_text()).is_err(), "bad will topic accepted");
            }
            2 => {
                let d = rt::bytes(2);
                rt::check(w.set_payload(&d[..]).is_ok(), "set_payload");
                mw.payload = d;
            }
            3 => {
                rt::cover("failed setter");
                rt::check(w.set_payload(&[1u8; 65536][..]).is_err(), "too long will payload accepted");
            }
            4 => {
                let v = rt::u32();
                rt::check(w.add_prop(Property::WillDelayInterval, MqttPropValue::new_u32(v)).is_ok(), "add_prop");
                mw.props = vec![(0x18, V::U32(v))];
            }
            _ => {
                rt::cover("failed setter");
                rt::check(w.add_prop(Property::TopicAlias, MqttPropValue::new_u16(1)).is_err(), "foreign property accepted");
            }
        }
        let mut c = match Connect::new(Arc::from("c")) {
            Ok(c) => c,
            Err(_) => rt::fail("connect"),
        };
        c.set_will(w.clone());
        verify(&c.build(), &m, "will setter changed something else");
    }
}

macro_rules! harnesses {
    ($($name:ident => $f:ident),* $(,)?) => {
        $(#[no_mangle] #[inline(never)] pub extern "C" fn $name() { $f() })*
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            match a.as_str() {
                $(stringify!($name) => $name(),)*
                _ => panic!("no such harness"),
            }
            rt::end()
        }
    };
}
harnesses! {
    h_total => total,
    h_framing => framing,
    h_more => more,
    h_roundtrip => roundtrip,
    h_sizes => sizes,
    h_reencode => reencode,
    h_segments => segments,
    h_varint_value => varint_value,
    h_varint_bytes => varint_bytes,
    h_varint_header => varint_header,
    h_varint_frame => varint_frame,
    h_text => text,
    h_text_limit => text_limit,
    h_topic => topic,
    h_prop_api => prop_api,
    h_prop_wire => prop_wire,
    h_prop_unknown => prop_unknown,
    h_prop_history => prop_history,
    h_reference => reference,
    h_setters => setters,
    h_kf_user_property => kf_user_property,
    h_kf_short_puback => kf_short_puback,
    h_kf_short_disconnect => kf_short_disconnect,
    h_kf_subscription_ids => kf_subscription_ids,
    h_kf_empty_filter => kf_empty_filter,
}
