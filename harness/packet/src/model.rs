//! Independent reference model of the MQTT packets this library implements: layout, validity and
//! encoding are written down here from the MQTT 5 documents (restricted to the layouts the
//! library implements: reason code and property section always present), not from /repo.
use apiformes_packet::prelude::*;
use bytes::Bytes;
use std::sync::Arc;

#[derive(Clone)]
pub enum V {
    Bool(u8),
    Byte(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Str(Vec<u8>),
    Data(Vec<u8>),
}
pub type Props = Vec<(u8, V)>;

#[derive(Clone)]
pub struct MWill {
    pub props: Props,
    pub topic: Vec<u8>,
    pub payload: Vec<u8>,
}
/// One model packet. `ty` is the MQTT control packet type 1..=15.
#[derive(Clone)]
pub struct M {
    pub ty: u8,
    pub flags: u8,          // low nibble of the first byte
    pub id: Option<u16>,    // packet identifier
    pub reason: u8,         // reason code (where there is exactly one)
    pub aflags: u8,         // connack flags / connect flags
    pub keep_alive: u16,    // connect
    pub props: Props,
    pub s: Vec<u8>,         // topic name / client id
    pub payload: Vec<u8>,   // publish payload
    pub will: Option<MWill>,
    pub user: Option<Vec<u8>>,
    pub pass: Option<Vec<u8>>,
    pub topics: Vec<(Vec<u8>, u8)>, // subscribe / unsubscribe
    pub codes: Vec<u8>,             // suback / unsuback
}
pub const CONNECT: u8 = 1;
pub const CONNACK: u8 = 2;
pub const PUBLISH: u8 = 3;
pub const PUBACK: u8 = 4;
pub const PUBREC: u8 = 5;
pub const PUBREL: u8 = 6;
pub const PUBCOMP: u8 = 7;
pub const SUBSCRIBE: u8 = 8;
pub const SUBACK: u8 = 9;
pub const UNSUBSCRIBE: u8 = 10;
pub const UNSUBACK: u8 = 11;
pub const PINGREQ: u8 = 12;
pub const PINGRES: u8 = 13;
pub const DISCONNECT: u8 = 14;
pub const AUTH: u8 = 15;
pub const WILL: u8 = 16; // property owner only

pub fn empty(ty: u8) -> M {
    M {
        ty,
        flags: fixed_flags(ty),
        id: None,
        reason: 0,
        aflags: 0,
        keep_alive: 0,
        props: vec![],
        s: vec![],
        payload: vec![],
        will: None,
        user: None,
        pass: None,
        topics: vec![],
        codes: vec![],
    }
}
pub fn fixed_flags(ty: u8) -> u8 {
    match ty {
        PUBREL | SUBSCRIBE | UNSUBSCRIBE => 2,
        _ => 0,
    }
}

// ---- MQTT 5 table 2-4: property identifiers, value type, packets, repeatable -------------------
#[derive(Clone, Copy, PartialEq)]
pub enum T {
    Bool,
    Byte,
    U16,
    U32,
    Var,
    Str,
    Data,
}
const fn m(l: &[u8]) -> u32 {
    let mut r = 0u32;
    let mut i = 0;
    while i < l.len() {
        r |= 1 << l[i];
        i += 1;
    }
    r
}
pub struct PropInfo {
    pub id: u8,
    pub key: Property,
    pub t: T,
    pub owners: u32,
    pub multi: bool,
}
const ALL_UP: u32 = m(&[
    CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK,
    UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH,
]);
const RS: u32 = m(&[
    CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH,
]);
macro_rules! p {
    ($id:expr,$k:ident,$t:ident,$o:expr,$m:expr) => {
        PropInfo { id: $id, key: Property::$k, t: T::$t, owners: $o, multi: $m }
    };
}
pub static TABLE: [PropInfo; 27] = [
    p!(0x01, PayloadFormatIndicator, Byte, m(&[PUBLISH, WILL]), false),
    p!(0x02, MessageExpiryInterval, U32, m(&[PUBLISH, WILL]), false),
    p!(0x03, ContentType, Str, m(&[PUBLISH, WILL]), false),
    p!(0x08, ResponseTopic, Str, m(&[PUBLISH, WILL]), false),
    p!(0x09, CorrelationData, Data, m(&[PUBLISH, WILL]), false),
    p!(0x0b, SubscriptionIdentifier, Var, m(&[PUBLISH, SUBSCRIBE]), false),
    p!(0x11, SessionExpiryInterval, U32, m(&[CONNECT, CONNACK, DISCONNECT]), false),
    p!(0x12, AssignedClientIdentifier, Str, m(&[CONNACK]), false),
    p!(0x13, ServerKeepAlive, U16, m(&[CONNACK]), false),
    p!(0x15, AuthenticationMethod, Str, m(&[CONNECT, CONNACK, AUTH]), false),
    p!(0x16, AuthenticationData, Data, m(&[CONNECT, CONNACK, AUTH]), false),
    p!(0x17, RequestProblemInformation, Bool, m(&[CONNECT]), false),
    p!(0x18, WillDelayInterval, U32, m(&[WILL]), false),
    p!(0x19, RequestResponseInformation, Bool, m(&[CONNECT]), false),
    p!(0x1a, ResponseInformation, Str, m(&[CONNACK]), false),
    p!(0x1c, ServerReference, Str, m(&[CONNACK, DISCONNECT]), false),
    p!(0x1f, ReasonString, Str, RS, false),
    p!(0x21, ReceiveMaximum, U16, m(&[CONNECT, CONNACK]), false),
    p!(0x22, TopicAliasMaximum, U16, m(&[CONNECT, CONNACK]), false),
    p!(0x23, TopicAlias, U16, m(&[PUBLISH]), false),
    p!(0x24, MaximumQoS, Byte, m(&[CONNACK]), false),
    p!(0x25, RetainAvailable, Byte, m(&[CONNACK]), false),
    // MQTT 5 says a string pair; this library stores one string (recorded as a known finding).
    p!(0x26, UserProperty, Str, ALL_UP, true),
    p!(0x27, MaximumPacketSize, U32, m(&[CONNECT, CONNACK]), false),
    p!(0x28, WildcardSubscriptionAvailable, Bool, m(&[CONNACK]), false),
    p!(0x29, SubscriptionIdentifierAvailable, Bool, m(&[CONNACK]), false),
    p!(0x2a, SharedSubscriptionAvailable, Bool, m(&[CONNACK]), false),
];
pub fn prop_info(id: u8) -> &'static PropInfo {
    let mut i = 0;
    while i < TABLE.len() {
        if TABLE[i].id == id {
            return &TABLE[i];
        }
        i += 1;
    }
    panic!("harness: property id")
}
pub fn allowed(owner: u8) -> Vec<&'static PropInfo> {
    TABLE.iter().filter(|p| p.owners >> owner & 1 == 1).collect()
}

// ---- reason codes (MQTT 5 table 2-6) -----------------------------------------------------------
pub fn reasons(ty: u8) -> &'static [u8] {
    match ty {
        CONNACK => &[
            0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90,
            0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f,
        ],
        PUBACK | PUBREC => &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        PUBREL | PUBCOMP => &[0x00, 0x92],
        SUBACK => &[
            0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2,
        ],
        UNSUBACK => &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91],
        DISCONNECT => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90,
            0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0,
            0xa1, 0xa2,
        ],
        AUTH => &[0x00, 0x18, 0x19],
        _ => &[],
    }
}
pub fn is_reason(ty: u8, c: u8) -> bool {
    let mut ok = false;
    for r in reasons(ty) {
        ok |= *r == c;
    }
    ok
}
fn r_connack(c: u8) -> ConnAckReasonCode {
    use ConnAckReasonCode::*;
    match c {
        0x00 => Success,
        0x80 => UnspecifiedError,
        0x81 => MalformedPacket,
        0x82 => ProtocolError,
        0x83 => ImplementationSpecificError,
        0x84 => UnsupportedProtocolVersion,
        0x85 => ClientIdentifierNotValid,
        0x86 => BadUserNameOrPassword,
        0x87 => NotAuthorized,
        0x88 => ServerUnavailable,
        0x89 => ServerBusy,
        0x8a => Banned,
        0x8c => BadAuthenicationMethod,
        0x90 => TopicNameInvalid,
        0x95 => PacketTooLarge,
        0x97 => QuotaExceeded,
        0x99 => PayloadFormatInvalid,
        0x9a => RetainNotSupported,
        0x9b => QoSNotSupported,
        0x9c => UseAnotherServer,
        0x9d => ServerMoved,
        0x9f => ConnectionRateExceeded,
        _ => panic!("harness"),
    }
}
fn r_puback(c: u8) -> PubAckReasonCode {
    use PubAckReasonCode::*;
    match c {
        0x00 => Success,
        0x10 => NoMatchingSubscribers,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x90 => TopicNameInvalid,
        0x91 => PacketIdentifierInUse,
        0x97 => QuotaExceeded,
        0x99 => PayloadFormatInvalid,
        _ => panic!("harness"),
    }
}
fn r_pubrel(c: u8) -> PubRelReasonCode {
    use PubRelReasonCode::*;
    match c {
        0x00 => Success,
        0x92 => PacketIdentifierNotFound,
        _ => panic!("harness"),
    }
}
fn r_suback(c: u8) -> SubAckReasonCode {
    use SubAckReasonCode::*;
    match c {
        0x00 => GrantedQoS0,
        0x01 => GrantedQoS1,
        0x02 => GrantedQoS2,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x8f => TopicFilterInvalid,
        0x91 => PacketIdentifierInUse,
        0x97 => QuotaExceeded,
        0x9e => SharedSubscriptionsNotSupported,
        0xa1 => SubscriptionIdentifiersNotSupported,
        0xa2 => WildcardSubscriptionsNotSupported,
        _ => panic!("harness"),
    }
}
fn r_unsuback(c: u8) -> UnsubAckReasonCode {
    use UnsubAckReasonCode::*;
    match c {
        0x00 => Success,
        0x11 => NoSubscriptionExisted,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x8f => TopicFilterInvalid,
        0x91 => PacketIdentifierInUse,
        _ => panic!("harness"),
    }
}
fn r_disconnect(c: u8) -> DisconnectReasonCode {
    use DisconnectReasonCode::*;
    match c {
        0x00 => NormalDisconnection,
        0x04 => DisconnectWithWillMessage,
        0x80 => UnspecifiedError,
        0x81 => MalformedPacket,
        0x82 => ProtocolError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x89 => ServerBusy,
        0x8b => ServerShuttingDown,
        0x8c => BadAuthenicationMethod,
        0x8d => KeepAliveTimeout,
        0x8e => SessionTakenOver,
        0x8f => TopicFilterInvalid,
        0x90 => TopicNameInvalid,
        0x93 => ReceiveMaximumExceeded,
        0x94 => TopicAliasInvalid,
        0x95 => PacketTooLarge,
        0x96 => MessageRateTooHigh,
        0x97 => QuotaExceeded,
        0x98 => AdministrativeAction,
        0x99 => PayloadFormatInvalid,
        0x9a => RetainNotSupported,
        0x9b => QoSNotSupported,
        0x9c => UseAnotherServer,
        0x9d => ServerMoved,
        0x9e => SharedSubscriptionsNotSupported,
        0x9f => ConnectionRateExceeded,
        0xa0 => MaximumConnectTime,
        0xa1 => SubscriptionIdentifiersNotSupported,
        0xa2 => WildcardSubscriptionsNotSupported,
        _ => panic!("harness"),
    }
}
fn r_auth(c: u8) -> AuthReasonCode {
    use AuthReasonCode::*;
    match c {
        0x00 => Success,
        0x18 => ContinueAuthentication,
        0x19 => ReAuthenticate,
        _ => panic!("harness"),
    }
}

// ---- reference encoder -------------------------------------------------------------------------
pub fn varint(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            v.push(b | 128);
        } else {
            v.push(b);
            return v;
        }
    }
}
fn lp(o: &mut Vec<u8>, s: &[u8]) {
    o.push((s.len() / 256) as u8);
    o.push((s.len() % 256) as u8);
    o.extend_from_slice(s);
}
/// minimal encoding of a (possibly symbolic) 28-bit value; one path per encoded length
fn var_val(o: &mut Vec<u8>, v: u32) {
    if v < 128 {
        o.push(v as u8);
    } else if v < 16384 {
        o.push(v as u8 | 128);
        o.push((v >> 7) as u8);
    } else if v < 2097152 {
        o.push(v as u8 | 128);
        o.push((v >> 7) as u8 | 128);
        o.push((v >> 14) as u8);
    } else {
        o.push(v as u8 | 128);
        o.push((v >> 7) as u8 | 128);
        o.push((v >> 14) as u8 | 128);
        o.push((v >> 21) as u8);
    }
}
pub fn enc_val(o: &mut Vec<u8>, v: &V) {
    match v {
        V::Bool(b) | V::Byte(b) => o.push(*b),
        V::U16(x) => o.extend_from_slice(&x.to_be_bytes()),
        V::U32(x) => o.extend_from_slice(&x.to_be_bytes()),
        V::Var(x) => var_val(o, *x),
        V::Str(s) | V::Data(s) => lp(o, s),
    }
}
pub fn enc_props(o: &mut Vec<u8>, p: &Props) {
    let mut b = vec![];
    for (id, v) in p {
        b.push(*id);
        enc_val(&mut b, v);
    }
    o.extend_from_slice(&varint(b.len()));
    o.extend_from_slice(&b);
}
pub fn body(m: &M) -> Vec<u8> {
    let mut o = vec![];
    let idb = |o: &mut Vec<u8>| {
        if let Some(i) = m.id {
            o.extend_from_slice(&i.to_be_bytes())
        }
    };
    match m.ty {
        CONNECT => {
            lp(&mut o, b"MQTT");
            o.push(5);
            o.push(m.aflags);
            o.extend_from_slice(&m.keep_alive.to_be_bytes());
            enc_props(&mut o, &m.props);
            lp(&mut o, &m.s);
            if let Some(w) = &m.will {
                enc_props(&mut o, &w.props);
                lp(&mut o, &w.topic);
                lp(&mut o, &w.payload);
            }
            if let Some(u) = &m.user {
                lp(&mut o, u);
            }
            if let Some(u) = &m.pass {
                lp(&mut o, u);
            }
        }
        CONNACK => {
            o.push(m.aflags);
            o.push(m.reason);
            enc_props(&mut o, &m.props);
        }
        PUBLISH => {
            lp(&mut o, &m.s);
            idb(&mut o);
            enc_props(&mut o, &m.props);
            o.extend_from_slice(&m.payload);
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            idb(&mut o);
            o.push(m.reason);
            enc_props(&mut o, &m.props);
        }
        SUBSCRIBE | UNSUBSCRIBE => {
            idb(&mut o);
            enc_props(&mut o, &m.props);
            for (t, f) in &m.topics {
                lp(&mut o, t);
                if m.ty == SUBSCRIBE {
                    o.push(*f);
                }
            }
        }
        SUBACK | UNSUBACK => {
            idb(&mut o);
            enc_props(&mut o, &m.props);
            o.extend_from_slice(&m.codes);
        }
        PINGREQ | PINGRES => {}
        DISCONNECT | AUTH => {
            o.push(m.reason);
            enc_props(&mut o, &m.props);
        }
        _ => panic!("harness"),
    }
    o
}
pub fn encode(m: &M) -> Vec<u8> {
    let b = body(m);
    let mut o = vec![m.ty << 4 | m.flags];
    o.extend_from_slice(&varint(b.len()));
    o.extend_from_slice(&b);
    o
}

// ---- building the real packet through the public API -------------------------------------------
pub fn arc(s: &[u8]) -> Arc<str> {
    Arc::from(unsafe { std::str::from_utf8_unchecked(s) })
}
pub fn real_val(v: &V) -> Result<MqttPropValue, DataParseError> {
    Ok(match v {
        V::Bool(b) => MqttPropValue::new_bool(*b == 1),
        V::Byte(b) => MqttPropValue::new_u8(*b),
        V::U16(b) => MqttPropValue::new_u16(*b),
        V::U32(b) => MqttPropValue::new_u32(*b),
        V::Var(b) => MqttPropValue::new_varint(*b)?,
        V::Str(s) => MqttPropValue::new_string(arc(s))?,
        V::Data(s) => MqttPropValue::new_data(&s[..])?,
    })
}
pub fn qos_of(n: u8) -> QoS {
    match n {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        _ => QoS::QoS2,
    }
}
macro_rules! add {
    ($p:expr, $props:expr) => {
        for (id, v) in $props {
            $p.add_prop(prop_info(*id).key, real_val(v)?)?;
        }
    };
}
pub fn build(m: &M) -> Result<Packet, DataParseError> {
    Ok(match m.ty {
        CONNECT => {
            let mut c = Connect::new(arc(&m.s))?;
            if m.aflags & 2 != 0 {
                c.set_clean_start();
            }
            if let Some(w) = &m.will {
                let mut rw = Will::new(arc(&w.topic), &w.payload[..])?;
                add!(rw, &w.props);
                c.set_will(rw);
                c.set_will_qos(qos_of(m.aflags >> 3 & 3))?;
                if m.aflags & 0x20 != 0 {
                    c.set_will_retain()?;
                }
            }
            if let Some(u) = &m.user {
                c.set_username(arc(u))?;
            }
            if let Some(u) = &m.pass {
                c.set_password(&u[..])?;
            }
            c.set_keep_alive(m.keep_alive);
            add!(c, &m.props);
            c.build()
        }
        CONNACK => {
            let mut c = ConnAck::new();
            if m.aflags & 1 != 0 {
                c.set_session_present();
            }
            c.set_reason_code(r_connack(m.reason));
            add!(c, &m.props);
            c.build()
        }
        PUBLISH => {
            let mut c = Publish::new(arc(&m.s), Bytes::copy_from_slice(&m.payload))?;
            if m.flags & 1 != 0 {
                c.set_retain();
            }
            if m.flags & 8 != 0 {
                c.set_dup();
            }
            c.set_qos(qos_of(m.flags >> 1 & 3));
            if let Some(i) = m.id {
                c.set_packet_identifier(i)?;
            }
            add!(c, &m.props);
            c.build()
        }
        PUBACK => {
            let mut c = PubAck::new(m.id.unwrap());
            c.set_reason_code(r_puback(m.reason));
            add!(c, &m.props);
            c.build()
        }
        PUBREC => {
            let mut c = PubRec::new(m.id.unwrap());
            c.set_reason_code(r_puback(m.reason));
            add!(c, &m.props);
            c.build()
        }
        PUBREL => {
            let mut c = PubRel::new(m.id.unwrap());
            c.set_reason_code(r_pubrel(m.reason));
            add!(c, &m.props);
            c.build()
        }
        PUBCOMP => {
            let mut c = PubComp::new(m.id.unwrap());
            c.set_reason_code(r_pubrel(m.reason));
            add!(c, &m.props);
            c.build()
        }
        SUBSCRIBE => {
            let mut c = Subscribe::new(m.id.unwrap());
            for (t, f) in &m.topics {
                c.add_topic(arc(t), SubscriptionOptions::from_bits(*f).ok_or(DataParseError::BadQoS)?)?;
            }
            add!(c, &m.props);
            c.build()
        }
        UNSUBSCRIBE => {
            let mut c = Unsubscribe::new(m.id.unwrap());
            for (t, _) in &m.topics {
                c.add_topic(arc(t))?;
            }
            add!(c, &m.props);
            c.build()
        }
        SUBACK => {
            let mut c = SubAck::new(m.id.unwrap());
            for r in &m.codes {
                c.add_reason_code(r_suback(*r));
            }
            add!(c, &m.props);
            c.build()
        }
        UNSUBACK => {
            let mut c = UnsubAck::new(m.id.unwrap());
            for r in &m.codes {
                c.add_reason_code(r_unsuback(*r));
            }
            add!(c, &m.props);
            c.build()
        }
        PINGREQ => Ping::new().build_req(),
        PINGRES => Ping::new().build_res(),
        DISCONNECT => {
            let mut c = Disconnect::new(r_disconnect(m.reason));
            add!(c, &m.props);
            c.build()
        }
        AUTH => {
            let mut c = Auth::new(r_auth(m.reason));
            add!(c, &m.props);
            c.build()
        }
        _ => panic!("harness"),
    })
}

// ---- canonical observation ---------------------------------------------------------------------
// The observation of a packet lists everything a user can read from it through the public API, in
// a fixed order (properties sorted by identifier, repeated ones in their stored order).
fn os(o: &mut Vec<u8>, s: &[u8]) {
    o.extend_from_slice(&(s.len() as u32).to_be_bytes());
    o.extend_from_slice(s);
}
fn oopt(o: &mut Vec<u8>, s: Option<&[u8]>) {
    match s {
        None => o.push(0),
        Some(s) => {
            o.push(1);
            os(o, s)
        }
    }
}
fn snap_mprops(o: &mut Vec<u8>, p: &Props) {
    o.extend_from_slice(&(p.len() as u16).to_be_bytes());
    let mut idx: Vec<usize> = (0..p.len()).collect();
    idx.sort_by_key(|i| p[*i].0);
    for i in idx {
        let (id, v) = &p[i];
        o.push(*id);
        match v {
            V::Bool(b) => o.extend_from_slice(&[1, (*b == 1) as u8]),
            V::Byte(b) => o.extend_from_slice(&[2, *b]),
            V::U16(x) => {
                o.push(3);
                o.extend_from_slice(&x.to_be_bytes())
            }
            V::U32(x) | V::Var(x) => {
                o.push(4);
                o.extend_from_slice(&x.to_be_bytes())
            }
            V::Str(s) => {
                o.push(6);
                os(o, s)
            }
            V::Data(s) => {
                o.push(7);
                os(o, s)
            }
        }
    }
}
pub fn snap_m(m: &M) -> Vec<u8> {
    let mut o = vec![m.ty];
    match m.ty {
        CONNECT => {
            o.push(m.aflags);
            o.extend_from_slice(&m.keep_alive.to_be_bytes());
            snap_mprops(&mut o, &m.props);
            os(&mut o, &m.s);
            match &m.will {
                None => o.push(0),
                Some(w) => {
                    o.push(1);
                    snap_mprops(&mut o, &w.props);
                    os(&mut o, &w.topic);
                    os(&mut o, &w.payload);
                }
            }
            oopt(&mut o, m.user.as_deref());
            oopt(&mut o, m.pass.as_deref());
        }
        CONNACK => {
            o.push(m.aflags);
            o.push(m.reason);
            snap_mprops(&mut o, &m.props);
        }
        PUBLISH => {
            o.push(m.flags);
            o.push(m.flags >> 1 & 3);
            os(&mut o, &m.s);
            match m.id {
                None => o.push(0),
                Some(i) => {
                    o.push(1);
                    o.extend_from_slice(&i.to_be_bytes())
                }
            }
            snap_mprops(&mut o, &m.props);
            os(&mut o, &m.payload);
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            o.extend_from_slice(&m.id.unwrap().to_be_bytes());
            o.push(m.reason);
            snap_mprops(&mut o, &m.props);
        }
        SUBSCRIBE | UNSUBSCRIBE => {
            if m.ty == SUBSCRIBE {
                o.extend_from_slice(&m.id.unwrap().to_be_bytes());
            }
            snap_mprops(&mut o, &m.props);
            o.extend_from_slice(&(m.topics.len() as u16).to_be_bytes());
            for (t, f) in &m.topics {
                os(&mut o, t);
                if m.ty == SUBSCRIBE {
                    o.push(*f);
                }
            }
        }
        SUBACK | UNSUBACK => {
            o.extend_from_slice(&m.id.unwrap().to_be_bytes());
            snap_mprops(&mut o, &m.props);
            os(&mut o, &m.codes);
        }
        PINGREQ | PINGRES => {}
        DISCONNECT | AUTH => {
            o.push(m.reason);
            snap_mprops(&mut o, &m.props);
        }
        _ => panic!("harness"),
    }
    o
}
pub fn snap_val(o: &mut Vec<u8>, key: Property, v: &MqttPropValue) {
    match prop_info(key as u32 as u8).t {
        T::Bool => match v.into_bool() {
            Some(b) => o.extend_from_slice(&[1, b as u8]),
            None => o.push(0xff),
        },
        T::Byte => match v.into_u8() {
            Some(b) => o.extend_from_slice(&[2, b]),
            None => o.push(0xff),
        },
        T::U16 => match v.into_u16() {
            Some(x) => {
                o.push(3);
                o.extend_from_slice(&x.to_be_bytes())
            }
            None => o.push(0xff),
        },
        T::U32 | T::Var => match v.into_u32() {
            Some(x) => {
                o.push(4);
                o.extend_from_slice(&x.to_be_bytes())
            }
            None => o.push(0xff),
        },
        T::Str => match v.into_str() {
            Some(s) => {
                o.push(6);
                os(o, s.as_bytes())
            }
            None => o.push(0xff),
        },
        T::Data => match v.into_data() {
            Some(s) => {
                o.push(7);
                os(o, s)
            }
            None => o.push(0xff),
        },
    }
}
fn snap_props<'a>(
    o: &mut Vec<u8>,
    it: impl Iterator<Item = (&'a Property, &'a MqttPropValue)>,
    get: impl Fn(Property) -> Option<&'a [MqttPropValue]>,
) {
    let mut v: Vec<(u8, Property, &MqttPropValue)> = it.map(|(k, v)| (*k as u32 as u8, *k, v)).collect();
    v.sort_by_key(|x| x.0);
    o.extend_from_slice(&(v.len() as u16).to_be_bytes());
    for i in 0..v.len() {
        o.push(v[i].0);
        snap_val(o, v[i].1, v[i].2);
        // the keyed accessor and the iterator agree
        if i == 0 || v[i - 1].0 != v[i].0 {
            let n = v.iter().filter(|x| x.0 == v[i].0).count();
            match get(v[i].1) {
                Some(s) => {
                    rt::check(s.len() == n, "get_prop count differs from props_iter");
                    for j in 0..n {
                        rt::check(std::ptr::eq(&s[j], v[i + j].2), "get_prop and props_iter disagree");
                    }
                }
                None => rt::fail("get_prop misses a listed property"),
            }
        }
    }
}
pub fn snap(p: &Packet) -> Vec<u8> {
    let mut o = vec![];
    match p {
        Packet::Connect(c) => {
            o.push(CONNECT);
            o.push(c.flags().bits());
            o.extend_from_slice(&c.keep_alive().to_be_bytes());
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
            os(&mut o, c.clientid().as_bytes());
            match c.will() {
                None => o.push(0),
                Some(w) => {
                    o.push(1);
                    snap_props(&mut o, w.props_iter(), |k| w.get_prop(k));
                    os(&mut o, w.topic().as_bytes());
                    let mut w2 = w.clone();
                    os(&mut o, w2.payload());
                }
            }
            oopt(&mut o, c.username().map(|u| u.as_bytes()));
            oopt(&mut o, c.password().map(|u| &u[..]));
        }
        Packet::ConnAck(c) => {
            o.push(CONNACK);
            o.push(c.flags().bits());
            o.push(c.reason_code() as u8);
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
        }
        Packet::Publish(c) => {
            o.push(PUBLISH);
            o.push(c.flags().bits());
            o.push(c.qos() as u8);
            os(&mut o, c.topic_name().as_bytes());
            match c.packet_identifier() {
                None => o.push(0),
                Some(i) => {
                    o.push(1);
                    o.extend_from_slice(&i.to_be_bytes())
                }
            }
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
            os(&mut o, &c.payload());
        }
        Packet::PubAck(c) => {
            o.push(PUBACK);
            o.extend_from_slice(&c.identifier().to_be_bytes());
            o.push(c.reason_code() as u8);
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
        }
        Packet::PubRec(c) => {
            o.push(PUBREC);
            o.extend_from_slice(&c.identifier().to_be_bytes());
            o.push(c.reason_code() as u8);
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
        }
        Packet::PubRel(c) => {
            o.push(PUBREL);
            o.extend_from_slice(&c.identifier().to_be_bytes());
            o.push(c.reason_code() as u8);
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
        }
        Packet::PubComp(c) => {
            o.push(PUBCOMP);
            o.extend_from_slice(&c.identifier().to_be_bytes());
            o.push(c.reason_code() as u8);
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
        }
        Packet::Subscribe(c) => {
            o.push(SUBSCRIBE);
            o.extend_from_slice(&c.packet_identifier().to_be_bytes());
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
            o.extend_from_slice(&(c.topics_iter().count() as u16).to_be_bytes());
            for (t, f) in c.topics_iter() {
                os(&mut o, t.as_bytes());
                o.push(f.bits());
            }
        }
        Packet::Unsubscribe(c) => {
            o.push(UNSUBSCRIBE);
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
            o.extend_from_slice(&(c.topics_iter().count() as u16).to_be_bytes());
            for t in c.topics_iter() {
                os(&mut o, t.as_bytes());
            }
        }
        Packet::SubAck(c) => {
            o.push(SUBACK);
            o.extend_from_slice(&c.identifier().to_be_bytes());
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
            let v: Vec<u8> = c.reason_codes().iter().map(|r| *r as u8).collect();
            os(&mut o, &v);
        }
        Packet::UnsubAck(c) => {
            o.push(UNSUBACK);
            o.extend_from_slice(&c.identifier().to_be_bytes());
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
            let v: Vec<u8> = c.reason_codes().iter().map(|r| *r as u8).collect();
            os(&mut o, &v);
        }
        Packet::PingReq(_) => o.push(PINGREQ),
        Packet::PingRes(_) => o.push(PINGRES),
        Packet::Disconnect(c) => {
            o.push(DISCONNECT);
            o.push(c.reason_code() as u8);
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
        }
        Packet::Auth(c) => {
            o.push(AUTH);
            o.push(c.reason_code() as u8);
            snap_props(&mut o, c.props_iter(), |k| c.get_prop(k));
        }
    }
    o
}
/// equality without branching on the bytes
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

// ---- reference decoder -------------------------------------------------------------------------
pub enum R {
    More,
    Bad,
    Ok(M, usize), // packet, bytes of the frame
    Either,       // refusing it is a known finding, or accepting it is
}
struct Cur<'a> {
    b: &'a [u8],
    i: usize,
    loose: bool,
}
impl<'a> Cur<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.i
    }
    fn u8(&mut self) -> Option<u8> {
        if self.left() < 1 {
            return None;
        }
        self.i += 1;
        Some(self.b[self.i - 1])
    }
    fn u16(&mut self) -> Option<u16> {
        Some((self.u8()? as u16) << 8 | self.u8()? as u16)
    }
    fn u32(&mut self) -> Option<u32> {
        Some((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    /// minimal variable byte integer of at most four bytes
    fn var(&mut self) -> Option<u32> {
        let mut v = 0u32;
        for k in 0..4 {
            let b = self.u8()?;
            v |= ((b & 127) as u32) << (7 * k);
            if b & 128 == 0 {
                if k > 0 && b == 0 {
                    return None;
                }
                return Some(v);
            }
        }
        None
    }
    fn lp(&mut self) -> Option<Vec<u8>> {
        let n = self.u16()? as usize;
        if n > self.left() {
            return None;
        }
        // one path per length
        let n = rt::conc(n as u64) as usize;
        self.i += n;
        Some(self.b[self.i - n..self.i].to_vec())
    }
    fn text(&mut self) -> Option<Vec<u8>> {
        let s = self.lp()?;
        if text_ok(&s) {
            Some(s)
        } else {
            None
        }
    }
    fn topic(&mut self) -> Option<Vec<u8>> {
        let s = self.text()?;
        if filter_ok(&s) {
            Some(s)
        } else {
            None
        }
    }
    fn props(&mut self, owner: u8) -> Option<Props> {
        let n = self.var()? as usize;
        if n > self.left() {
            return None;
        }
        let n = rt::conc(n as u64) as usize;
        let mut c = Cur { b: &self.b[self.i..self.i + n], i: 0, loose: false };
        self.i += n;
        let mut out: Props = vec![];
        while c.left() > 0 {
            let id = c.u8()?;
            let mut found = None;
            for p in TABLE.iter() {
                if p.id == id {
                    found = Some(p);
                    break;
                }
            }
            let p = found?;
            if p.owners >> owner & 1 == 0 {
                return None;
            }
            if !p.multi && out.iter().any(|x| x.0 == p.id) {
                return None;
            }
            let v = match p.t {
                T::Bool => {
                    let b = c.u8()?;
                    if b > 1 {
                        return None;
                    }
                    V::Bool(b)
                }
                T::Byte => V::Byte(c.u8()?),
                T::U16 => V::U16(c.u16()?),
                T::U32 => V::U32(c.u32()?),
                T::Var => V::Var(c.var()?),
                T::Str => V::Str(c.text()?),
                T::Data => V::Data(c.lp()?),
            };
            out.push((p.id, v));
        }
        Some(out)
    }
}
/// well-formed UTF-8 (RFC 3629) without control characters (U+0000..U+001F, U+007F..U+009F)
pub fn text_ok(s: &[u8]) -> bool {
    let n = s.len();
    let mut i = 0;
    while i < n {
        let a = s[i];
        if a < 0x80 {
            if a < 0x20 || a == 0x7f {
                return false;
            }
            i += 1;
        } else if a < 0xc2 {
            return false;
        } else if a < 0xe0 {
            if i + 1 >= n || s[i + 1] & 0xc0 != 0x80 {
                return false;
            }
            if a == 0xc2 && s[i + 1] < 0xa0 {
                return false;
            }
            i += 2;
        } else if a < 0xf0 {
            if i + 2 >= n || s[i + 1] & 0xc0 != 0x80 || s[i + 2] & 0xc0 != 0x80 {
                return false;
            }
            if a == 0xe0 && s[i + 1] < 0xa0 || a == 0xed && s[i + 1] >= 0xa0 {
                return false;
            }
            i += 3;
        } else if a < 0xf5 {
            if i + 3 >= n || s[i + 1] & 0xc0 != 0x80 || s[i + 2] & 0xc0 != 0x80 || s[i + 3] & 0xc0 != 0x80 {
                return false;
            }
            if a == 0xf0 && s[i + 1] < 0x90 || a == 0xf4 && s[i + 1] >= 0x90 {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}
/// MQTT 4.7.1: '#' only as the whole last level, '+' only as a whole level
pub fn filter_ok(s: &[u8]) -> bool {
    let n = s.len();
    for i in 0..n {
        if s[i] == b'#' && !(i + 1 == n && (i == 0 || s[i - 1] == b'/')) {
            return false;
        }
        if s[i] == b'+' && !((i == 0 || s[i - 1] == b'/') && (i + 1 == n || s[i + 1] == b'/')) {
            return false;
        }
    }
    true
}
pub fn has_wildcard(s: &[u8]) -> bool {
    let mut w = false;
    for c in s {
        w |= *c == b'#' || *c == b'+';
    }
    w
}
/// Framing: Some((header bytes, remaining length)) once the fixed header is complete and valid.
pub enum F {
    More,
    Bad,
    Ok(usize, usize),
}
pub fn frame(b: &[u8]) -> F {
    if b.len() < 2 {
        return F::More;
    }
    let mut v = 0usize;
    for k in 0..4 {
        if b.len() < 2 + k {
            return F::More;
        }
        let x = b[1 + k];
        v |= ((x & 127) as usize) << (7 * k);
        if x & 128 == 0 {
            if k > 0 && x == 0 {
                return F::Bad;
            }
            return F::Ok(2 + k, v);
        }
    }
    F::Bad
}
fn type_flags_ok(b0: u8) -> bool {
    let (t, f) = (b0 >> 4, b0 & 15);
    match t {
        0 => false,
        PUBLISH => f & 6 != 6,
        PUBREL | SUBSCRIBE | UNSUBSCRIBE => f == 2,
        _ => f == 0,
    }
}
pub fn decode(b: &[u8]) -> R {
    let (h, len) = match frame(b) {
        F::More => return R::More,
        F::Bad => return R::Bad,
        F::Ok(h, l) => (h, l),
    };
    if len > b.len() - h {
        return R::More;
    }
    if !type_flags_ok(b[0]) {
        return R::Bad;
    }
    let ty = rt::conc((b[0] >> 4) as u64) as u8;
    let len = rt::conc(len as u64) as usize;
    // the forms that leave out a zero reason code or empty properties are optional here
    // (known finding of D12): the codec may refuse them
    let full = match ty {
        PUBACK | PUBREC | PUBREL | PUBCOMP => 4,
        DISCONNECT | AUTH => 2,
        _ => 0,
    };
    if len < full && len + 2 >= full {
        return R::Either;
    }
    let mut c = Cur { b: &b[h..h + len], i: 0, loose: false };
    match decode_body(ty, b[0] & 15, &mut c) {
        _ if c.loose => R::Either,
        Some(m) if c.left() == 0 => R::Ok(m, h + len),
        _ => R::Bad,
    }
}
fn sub_opts_ok(f: u8) -> bool {
    (f & 0xc0 == 0) & (f & 3 != 3) & (f & 0x30 != 0x30)
}
fn decode_body(ty: u8, flags: u8, c: &mut Cur) -> Option<M> {
    let mut m = empty(ty);
    match ty {
        CONNECT => {
            if !same(&c.lp()?, b"MQTT") || c.u8()? != 5 {
                return None;
            }
            let f = c.u8()?;
            if f & 1 != 0 || f & 0x18 == 0x18 || (f & 4 == 0 && f & 0x38 != 0) {
                return None;
            }
            m.aflags = f;
            m.keep_alive = c.u16()?;
            m.props = c.props(CONNECT)?;
            m.s = c.text()?;
            if f & 4 != 0 {
                let props = c.props(WILL)?;
                let topic = c.text()?;
                let payload = c.lp()?;
                m.will = Some(MWill { props, topic, payload });
            }
            if f & 0x80 != 0 {
                m.user = Some(c.text()?);
            }
            if f & 0x40 != 0 {
                m.pass = Some(c.lp()?);
            }
        }
        CONNACK => {
            m.aflags = c.u8()?;
            m.reason = c.u8()?;
            if m.aflags & 0xfe != 0 || !is_reason(ty, m.reason) {
                return None;
            }
            m.props = c.props(ty)?;
        }
        PUBLISH => {
            m.flags = flags;
            m.s = c.topic()?;
            if has_wildcard(&m.s) {
                return None;
            }
            if flags & 6 != 0 {
                m.id = Some(c.u16()?);
            }
            m.props = c.props(ty)?;
            m.payload = c.b[c.i..].to_vec();
            c.i = c.b.len();
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            m.id = Some(c.u16()?);
            m.reason = c.u8()?;
            if !is_reason(ty, m.reason) {
                return None;
            }
            m.props = c.props(ty)?;
        }
        SUBSCRIBE | UNSUBSCRIBE => {
            m.id = Some(c.u16()?);
            m.props = c.props(ty)?;
            while c.left() > 0 {
                let t = c.topic()?;
                c.loose |= t.is_empty();
                let mut f = 0;
                if ty == SUBSCRIBE {
                    f = c.u8()?;
                    if !sub_opts_ok(f) {
                        return None;
                    }
                }
                m.topics.push((t, f));
            }
            if m.topics.is_empty() {
                return None;
            }
        }
        SUBACK | UNSUBACK => {
            m.id = Some(c.u16()?);
            m.props = c.props(ty)?;
            while c.left() > 0 {
                let r = c.u8()?;
                if !is_reason(ty, r) {
                    return None;
                }
                m.codes.push(r);
            }
            if m.codes.is_empty() {
                return None;
            }
        }
        PINGREQ | PINGRES => {}
        DISCONNECT | AUTH => {
            m.reason = c.u8()?;
            if !is_reason(ty, m.reason) {
                return None;
            }
            m.props = c.props(ty)?;
        }
        _ => return None,
    }
    Some(m)
}

// ---- symbolic generator ------------------------------------------------------------------------
/// n symbolic bytes, each a printable ASCII character other than the topic wildcards
pub fn word(n: usize) -> Vec<u8> {
    let b = rt::bytes(n);
    for c in &b {
        rt::assume((*c >= 0x20) & (*c < 0x7f));
        rt::assume((*c != b'#') & (*c != b'+'));
    }
    b
}
/// `n` characters of which the first and last are symbolic
pub fn long_word(n: usize) -> Vec<u8> {
    if n <= 2 {
        return word(n);
    }
    let mut v: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    let w = word(2);
    v[0] = w[0];
    v[n - 1] = w[1];
    v
}
pub fn long_data(n: usize) -> Vec<u8> {
    if n <= 2 {
        return rt::bytes(n);
    }
    let mut v: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    let w = rt::bytes(2);
    v[0] = w[0];
    v[n - 1] = w[1];
    v
}
pub fn gen_val(t: T, n: usize) -> V {
    match t {
        T::Bool => V::Bool(rt::bool() as u8),
        T::Byte => V::Byte(rt::u8()),
        T::U16 => V::U16(rt::u16()),
        T::U32 => V::U32(rt::u32()),
        T::Var => {
            let x = rt::u32();
            rt::assume(x <= 0x0fff_ffff);
            V::Var(x)
        }
        T::Str => V::Str(long_word(n)),
        T::Data => V::Data(long_data(n)),
    }
}
/// one property of the owner's table; `n` is the length of string values
pub fn gen_prop(owner: u8, n: usize) -> (u8, V) {
    let a = allowed(owner);
    let p = a[rt::pick(a.len())];
    (p.id, gen_val(p.t, n))
}
/// Which part of the packet space to generate.
#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Fields, // all header fields, flags, reason codes, no properties
    Prop1,  // one property of any allowed kind, short and empty strings
    Prop2,  // two properties of any allowed kinds (distinct unless repeatable)
    Sizes,  // strings, payloads, property sections and lists at encoding boundaries
    Many,   // every allowed property at once (or all but one), many topics and reason codes
    Bulk,   // very many properties, topics and reason codes
    Tiny,   // a small representative of each shape (used with mutations and prefixes)
}
pub fn focus_of(n: u64) -> Focus {
    match n {
        0 => Focus::Fields,
        1 => Focus::Prop1,
        2 => Focus::Prop2,
        3 => Focus::Sizes,
        5 => Focus::Many,
        7 => Focus::Bulk,
        _ => Focus::Tiny,
    }
}
pub fn gen_props(owner: u8, f: Focus) -> Props {
    match f {
        Focus::Fields => vec![],
        Focus::Prop1 => {
            let n = rt::pick(3);
            vec![gen_prop(owner, n)]
        }
        Focus::Prop2 => {
            let a = allowed(owner);
            let i = rt::pick(a.len());
            let j = rt::pick(a.len());
            rt::assume(i != j || a[i].multi);
            vec![(a[i].id, gen_val(a[i].t, 1)), (a[j].id, gen_val(a[j].t, 2))]
        }
        Focus::Sizes => {
            // the property section crosses the one/two byte and two/three byte length boundary
            let n = [120, 123, 124, 125, 126, 130, 16378, 16379, 16380, 16381, 16382][rt::pick(11)];
            let p = [0x26u8, 0x1f, 0x15, 0x09, 0x03, 0x12];
            let p: Vec<u8> = p.iter().cloned().filter(|i| prop_info(*i).owners >> owner & 1 == 1).collect();
            let p = prop_info(p[rt::pick(p.len().min(2))]);
            vec![(p.id, gen_val(p.t, n))]
        }
        Focus::Many => {
            let a = allowed(owner);
            let drop = rt::pick(a.len() + 1);
            let mut v = vec![];
            for (i, p) in a.iter().enumerate() {
                if i != drop {
                    v.push((p.id, gen_val(p.t, 1 + i % 2)));
                    if p.multi {
                        v.push((p.id, gen_val(p.t, 0)));
                        v.push((p.id, gen_val(p.t, 2)));
                    }
                }
            }
            v
        }
        Focus::Bulk => {
            if !allowed(owner).iter().any(|p| p.id == 0x26) {
                return vec![];
            }
            let n = [35, 70, 600][rt::pick(3)];
            let mut v: Vec<(u8, V)> = (0..n).map(|i| (0x26, V::Str(vec![b'a' + (i % 26) as u8; i % 4]))).collect();
            // one of them is any
            let k = [0, n / 2, n - 1][rt::pick(3)];
            v[k].1 = V::Str(word(1));
            if let Some(p) = allowed(owner).iter().find(|p| !p.multi && p.id != 0x0b) {
                v.insert(n / 3, (p.id, gen_val(p.t, 1)));
            }
            v
        }
        Focus::Tiny => match rt::pick(3) {
            0 => vec![],
            1 => {
                // one property per value type
                let mut a = allowed(owner);
                let mut seen: Vec<T> = vec![];
                a.retain(|p| {
                    let n = !seen.contains(&p.t);
                    seen.push(p.t);
                    n
                });
                let p = a[rt::pick(a.len())];
                vec![(p.id, gen_val(p.t, 1))]
            }
            _ => vec![(0x26, V::Str(word(1))), (0x26, V::Str(word(0)))],
        },
    }
}
/// length of a string field under the focus
fn len(f: Focus, k: usize) -> usize {
    match f {
        Focus::Fields => k,
        Focus::Sizes => k,
        Focus::Tiny => 1,
        _ => 1,
    }
}
fn pick_reason(ty: u8, f: Focus) -> u8 {
    let r = reasons(ty);
    match f {
        Focus::Fields => r[rt::pick(r.len())],
        _ => r[r.len() - 1],
    }
}
/// `owner` is a packet type, or WILL for a CONNECT whose will carries the properties.
pub fn gen(owner: u8, f: Focus) -> M {
    let ty = if owner == WILL { CONNECT } else { owner };
    let mut m = empty(ty);
    let fields = f == Focus::Fields;
    match ty {
        CONNECT => {
            m.keep_alive = rt::u16();
            let will = owner == WILL;
            let n = if fields { rt::pick(3) } else { 1 };
            m.s = word(len(f, n));
            if will {
                m.aflags |= 4;
                let q = if fields { rt::pick(3) as u8 } else { 1 };
                m.aflags |= q << 3;
                if fields && rt::pick(2) == 1 {
                    m.aflags |= 0x20;
                }
                let n = if fields { rt::pick(2) } else { 1 };
                m.will = Some(MWill { props: gen_props(WILL, f), topic: word(n + 1), payload: rt::bytes(n) });
            } else {
                m.props = gen_props(CONNECT, f);
            }
            if fields && rt::pick(2) == 1 {
                m.aflags |= 2;
            }
            if f == Focus::Many && rt::pick(2) == 1 {
                m.will = None;
                m.aflags = 0;
                if will {
                    m.aflags = 4;
                    m.will = Some(MWill { props: gen_props(WILL, f), topic: word(1), payload: rt::bytes(3) });
                    m.props = vec![(0x26, V::Str(word(1)))];
                }
            }
            let both = if fields || f == Focus::Tiny || f == Focus::Many { rt::pick(4) } else { 0 };
            if both & 1 == 1 {
                m.aflags |= 0x80;
                m.user = Some(word(1));
            }
            if both & 2 == 2 {
                m.aflags |= 0x40;
                m.pass = Some(rt::bytes(2));
            }
            if f == Focus::Sizes {
                let n = [0, 90, 127, 128, 255, 256, 300, 65535][rt::pick(8)];
                match rt::pick(4) {
                    0 => m.s = long_word(n),
                    1 => {
                        m.aflags |= 0x80;
                        m.user = Some(long_word(n));
                    }
                    2 => {
                        m.aflags |= 0x40;
                        m.pass = Some(long_data(n));
                    }
                    _ => {
                        m.aflags |= 4;
                        if m.will.is_none() {
                            m.will = Some(MWill { props: vec![], topic: vec![], payload: vec![] });
                        }
                        let w = m.will.as_mut().unwrap();
                        if n % 2 == 0 {
                            w.topic = long_word(n);
                        } else {
                            w.payload = long_data(n);
                        }
                    }
                }
                if n != 0 && !will {
                    m.props.clear();
                }
            }
        }
        CONNACK => {
            m.aflags = if fields { rt::pick(2) as u8 } else { 1 };
            m.reason = pick_reason(ty, f);
            m.props = gen_props(ty, f);
        }
        PUBLISH => {
            let q = if fields { rt::pick(3) as u8 } else { rt::pick(2) as u8 };
            m.flags = q << 1;
            if fields {
                m.flags |= rt::pick(2) as u8 | (rt::pick(2) as u8) << 3;
            }
            if q > 0 {
                m.id = Some(rt::u16());
            }
            let n = if fields { rt::pick(4) } else { 1 };
            m.s = word(n);
            m.payload = rt::bytes(if fields { rt::pick(3) } else { 1 });
            m.props = gen_props(ty, f);
            if f == Focus::Sizes {
                let n = [0, 120, 121, 122, 123, 124, 125, 126, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 65535][rt::pick(16)];
                match rt::pick(2) {
                    0 => m.s = long_word(n),
                    _ => m.payload = long_data(n),
                }
                if n != 0 {
                    m.props.clear();
                }
            }
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            m.id = Some(rt::u16());
            m.reason = pick_reason(ty, f);
            m.props = gen_props(ty, f);
        }
        SUBSCRIBE | UNSUBSCRIBE => {
            m.id = Some(rt::u16());
            m.props = gen_props(ty, f);
            let k = if fields { 1 + rt::pick(3) } else { 1 };
            for _ in 0..k {
                let t = match rt::pick(if fields { 3 } else { 1 }) {
                    0 => word(1),
                    1 => {
                        let mut t = word(1);
                        t.extend_from_slice(b"/#");
                        t
                    }
                    _ => {
                        let mut t = b"+/".to_vec();
                        t.extend_from_slice(&word(1));
                        t
                    }
                };
                let mut o = 0;
                if ty == SUBSCRIBE {
                    o = rt::u8();
                    rt::assume(sub_opts_ok(o));
                    if !fields {
                        rt::assume(o & 0x33 == 0x21);
                    }
                }
                m.topics.push((t, o));
            }
            if f == Focus::Many {
                // the same topic several times, before and after others
                let t = m.topics[0].clone();
                let long = long_word(40);
                for i in 0..6u8 {
                    let o = if ty == SUBSCRIBE { [0, 1, 0x2e, 0x12, 0x24, 0x29][i as usize] } else { 0 };
                    m.topics.push(match i {
                        0 | 3 => (t.0.clone(), o),
                        1 => (b"#".to_vec(), o),
                        2 => (b"+/+/x/#".to_vec(), o),
                        4 => (long.clone(), o),
                        _ => (b"/".to_vec(), o),
                    });
                }
            }
            if f == Focus::Bulk {
                let n = [17, 140][rt::pick(2)];
                for i in 0..n {
                    let t = vec![b'a' + (i % 26) as u8; 1 + i % 9];
                    m.topics.push((t, if ty == SUBSCRIBE { [0, 1, 0x2e, 0x12][i % 4] } else { 0 }));
                }
                let k = [0, n / 2, n - 1][rt::pick(3)];
                let a = m.topics[0].clone();
                m.topics.insert(k + 1, a);
            }
            if f == Focus::Sizes {
                let n = [0, 115, 119, 120, 121, 122, 123, 16375, 16376, 16377, 16378, 16379, 65535][rt::pick(13)];
                if n != 0 {
                    m.props.clear();
                    m.topics[0].0 = long_word(n);
                }
            }
        }
        SUBACK | UNSUBACK => {
            m.id = Some(rt::u16());
            m.props = gen_props(ty, f);
            let k = if fields { 1 + rt::pick(2) } else { 1 };
            for _ in 0..k {
                m.codes.push(pick_reason(ty, f));
            }
            if f == Focus::Many {
                let r = reasons(ty);
                let k = rt::pick(r.len());
                for i in 0..20 {
                    m.codes.push(r[(k + i * 5) % r.len()]);
                }
            }
            if f == Focus::Bulk {
                let r = reasons(ty);
                let n = [33, 300, 17000][rt::pick(3)];
                if n == 17000 {
                    m.props.clear();
                }
                let k = rt::pick(2);
                for i in 0..n {
                    m.codes.push(r[(k + i * 5) % r.len()]);
                }
            }
            if f == Focus::Sizes {
                let n = [1, 123, 124, 125, 126, 130][rt::pick(6)];
                if n != 1 {
                    m.props.clear();
                    m.codes = vec![0; n];
                    m.codes[n - 1] = pick_reason(ty, Focus::Fields);
                }
            }
        }
        PINGREQ | PINGRES => {}
        DISCONNECT | AUTH => {
            m.reason = pick_reason(ty, f);
            m.props = gen_props(ty, f);
        }
        _ => panic!("harness"),
    }
    m
}
