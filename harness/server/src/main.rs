//! Harnesses over the broker: the real server library with a simulated runtime, network and clock
//! (see ../../shim), driven through its listeners and its public API.
#![allow(dead_code)]
#[path = "../../packet/src/model.rs"]
mod model;
mod volume;
mod world;
use apiformes_server_lib::MqttServer;
use model::*;
use tokio::sim;
use volume::*;
use world::*;

// ---- S01 ----------------------------------------------------------------------------------------
/// A subscriber gets a message iff its filter matches the topic, once and unchanged.
fn matching() {
    let (n, m) = ((rt::param() / 10) as usize, (rt::param() % 10) as usize);
    let _w = start(cfg());
    let mut a = client(b"a");
    let mut b = client(b"b");
    let f = printable(n);
    rt::assume(filter_ok(&f));
    let t = printable(m);
    rt::assume(!has_wildcard(&t));
    // RETAIN_AS_PUBLISHED and, for a message of another client, NO_LOCAL make no difference
    a.subscribe(&f, if n + m <= 4 { 4 * rt::pick(4) as u8 } else { 0 });
    let x = rt::bytes(1);
    b.publish(&t, &x);
    let p = a.packets();
    if matches(&f, &t) {
        rt::cover("match");
        only(&p, &publish_m(&t, &x), "a matching message was not delivered", "the delivered message differs from the published one");
    } else {
        rt::cover("no match");
        rt::check(p.is_empty(), "a message was delivered to a filter that does not match");
    }
    rt::check(b.quiet(), "a publisher that did not subscribe got something");
    rt::obs(p.len() as u64);
}


// ---- S02 ----------------------------------------------------------------------------------------
/// Two subscriptions of one client, with and without NO_LOCAL, against a topic: one copy iff one of
/// them matches and lets it through. param = 100*n1 + 10*n2 + m, lengths of the filters and topic.
fn overlap() {
    let p = rt::param() as usize;
    let _w = start(cfg());
    let mut a = client(b"a");
    let mut b = client(b"b");
    let (f, g) = (filter(p / 100), filter(p / 10 % 10));
    let t = topic(p % 10);
    let nl = [rt::pick(2) as u8, rt::pick(2) as u8];
    let own = rt::pick(2) == 1;
    let rap = if p < 200 { 8 * rt::pick(2) as u8 } else { 8 };
    a.subscribe(&f, nl[0] << 2 | rap);
    a.subscribe(&g, nl[1] << 2);
    let m = publish_m(&t, b"x");
    if own {
        a.send(&encode(&m));
    } else {
        b.send(&encode(&m));
    }
    settle();
    let got = a.packets();
    // subscribing to the same filter again replaces the options
    let again = same(&f, &g);
    let one = matches(&f, &t) && !(own && nl[0] == 1) && !again;
    let two = matches(&g, &t) && !(own && nl[1] == 1);
    if one || two {
        rt::cover("delivered");
        only(&got, &m, "a message was withheld although a subscription asks for it", "the delivered message differs from the published one");
    } else {
        rt::cover("not delivered");
        rt::check(got.is_empty(), "a message was delivered that no subscription asks for");
    }
    rt::check(b.quiet(), "a client without subscriptions got something");
}
fn filter(n: usize) -> Vec<u8> {
    let f = printable(n);
    rt::assume(filter_ok(&f));
    f
}
fn topic(n: usize) -> Vec<u8> {
    let t = printable(n);
    rt::assume(!has_wildcard(&t));
    t
}

// ---- S03 ----------------------------------------------------------------------------------------
/// A history of param operations on the subscriptions of two clients; then a message.
fn history() {
    let k = (rt::param() % 10) as usize;
    let w = start(cfg());
    let mut c = [client(b"a"), client(b"b")];
    let ids: [&[u8]; 2] = [b"a", b"b"];
    let mut p = client(b"p");
    let l = level(3);
    let filters: Vec<Vec<u8>> = if rt::param() / 10 == 0 {
        vec![vec![l[0]], vec![l[0], b'/', l[1]], vec![l[0], b'/', b'#']]
    } else {
        vec![vec![l[0], b'/', l[1]], vec![b'+', b'/', l[1]], vec![b'#'], vec![l[0], b'/', b'+']]
    };
    let mut has: Vec<(usize, usize)> = vec![];
    for _ in 0..k {
        let who = rt::pick(2);
        match rt::pick(3) {
            0 => {
                let f = rt::pick(filters.len());
                c[who].subscribe(&filters[f], 0);
                if !has.contains(&(who, f)) {
                    has.push((who, f));
                }
            }
            1 => {
                let f = rt::pick(filters.len());
                unsubscribe(&w, ids[who], &filters[f]);
                // filters are the same if their letters are
                has.retain(|(a, b)| *a != who || !same(&filters[*b], &filters[f]));
            }
            _ => {
                wait(w.s.get_topics().unsubscribe_all(arc(ids[who])));
                has.retain(|(a, _)| *a != who);
            }
        }
    }
    let mut t = vec![l[2]];
    if rt::pick(2) == 1 {
        t.push(b'/');
        t.extend_from_slice(&level(1));
    }
    let m = publish_m(&t, b"x");
    p.send(&encode(&m));
    settle();
    for who in 0..2 {
        let mut want = false;
        for (a, f) in &has {
            want |= *a == who && matches(&filters[*f], &t);
        }
        let got = c[who].packets();
        if want {
            rt::cover("delivered");
            only(&got, &m, "a subscribed client did not get the message", "the delivered message differs from the published one");
        } else {
            rt::cover("not delivered");
            rt::check(got.is_empty(), "a client got a message it is not subscribed to");
        }
    }
}
fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
    match sim::block_on(f, POLLS) {
        Some(v) => v,
        None => rt::fail("an operation does not finish (deadlock)"),
    }
}
fn unsubscribe(w: &World, id: &[u8], f: &[u8]) {
    wait(w.s.get_topics().unsubscribe(arc(id), std::str::from_utf8(f).unwrap()))
}

// ---- S04 ----------------------------------------------------------------------------------------
/// Operations on the subscription table at the same time, under every schedule within the budget.
/// param = 10*budget + variant
fn concurrent() {
    let w: &'static World = Box::leak(Box::new(start(cfg())));
    let topics = w.s.get_topics();
    let none = {
        // the only way to name the flags from outside
        let mut z = client(b"z");
        z.subscribe(b"z", 0);
        let m = wait(topics.get_all_subscribed("z"));
        let v = m.values().next().map(|i| i.flags);
        match v {
            Some(f) => f,
            None => rt::fail("a subscription is missing"),
        }
    };
    let q0 = apiformes_packet::prelude::QoS::QoS0;
    let v = rt::param() % 10;
    let l = level(2);
    let f1 = vec![b'q', b'/', l[0]];
    let f2: Vec<u8> = match v {
        0 => vec![b'q', b'/', l[1]],
        1 => b"q".to_vec(),
        2 => b"q/#".to_vec(),
        3 => b"q/+/r".to_vec(),
        _ => vec![b'q', b'/', l[1]],
    };
    let probe = |f: &[u8]| -> Vec<u8> {
        match v {
            2 => b"q/other".to_vec(),
            3 => b"q/m/r".to_vec(),
            _ => f.to_vec(),
        }
    };
    if v == 5 {
        // a subscription that is already there stays while others come and go
        wait(topics.subscribe(arc(b"c"), arc(b"q"), q0, none));
    }
    if v >= 6 {
        // the same client in both tasks, and another one whose subscriptions stay and are always found
        let (g1, g2) = (f1.clone(), if v == 7 { b"q/#".to_vec() } else { f2.clone() });
        wait(topics.subscribe(arc(b"c"), arc(b"q/+"), q0, none));
        wait(topics.subscribe(arc(b"c"), arc(&g1), q0, none));
        if v == 7 {
            wait(topics.subscribe(arc(b"a"), arc(&g1), q0, none));
        }
        sim::set_budget((rt::param() / 10) as usize);
        let a = {
            let g = g1.clone();
            tokio::spawn(async move {
                match v {
                    7 => topics.unsubscribe(arc(b"a"), std::str::from_utf8(&g).unwrap()).await,
                    _ => topics.subscribe(arc(b"a"), arc(&g), q0, none).await,
                }
            })
        };
        let b = {
            let g = g2.clone();
            tokio::spawn(async move {
                match v {
                    8 => topics.unsubscribe(arc(b"c"), std::str::from_utf8(&g).unwrap()).await,
                    _ => topics.subscribe(arc(b"a"), arc(&g), q0, none).await,
                }
            })
        };
        let look = {
            let g = g1.clone();
            tokio::spawn(async move { topics.get_all_subscribed(std::str::from_utf8(&g).unwrap()).await.contains_key(&arc(b"c")) })
        };
        rt::check(matches!(wait(look), Ok(true)), "a subscription is not found while others are made");
        rt::check(wait(a).is_ok() & wait(b).is_ok(), "an operation on the subscriptions failed");
        sim::set_budget(0);
        let has = |t: &[u8], id: &[u8]| -> bool {
            let m = wait(topics.get_all_subscribed(std::str::from_utf8(t).unwrap()));
            let r = m.contains_key(&arc(id));
            r
        };
        match v {
            6 => rt::check(has(&g1, b"a") & has(&g2, b"a"), "a subscription was lost"),
            7 => rt::check(has(b"q/other", b"a"), "a subscription was lost"),
            _ => rt::check(has(&g1, b"a") & has(&g1, b"c"), "a subscription was lost"),
        }
        wait(topics.unsubscribe_all(arc(b"a")));
        rt::check(!has(&g1, b"a") & !has(&g2, b"a") & !has(b"q/other", b"a"), "a removed subscription is still there");
        rt::check(has(&g1, b"c"), "a subscription was removed with those of another client");
        wait(topics.unsubscribe_all(arc(b"c")));
        rt::check(!has(&g1, b"c"), "a removed subscription is still there");
        return;
    }
    sim::set_budget((rt::param() / 10) as usize);
    let a = {
        let f = f1.clone();
        tokio::spawn(async move { topics.subscribe(arc(b"a"), arc(&f), q0, none).await })
    };
    let b = {
        let f = f2.clone();
        tokio::spawn(async move {
            match v {
                4 => topics.unsubscribe(arc(b"b"), std::str::from_utf8(&f).unwrap()).await,
                5 => topics.unsubscribe_all(arc(b"c")).await,
                _ => topics.subscribe(arc(b"b"), arc(&f), q0, none).await,
            }
        })
    };
    let seen = wait(topics.get_all_subscribed("z"));
    rt::check(seen.len() == 1, "an unrelated subscription is not found while others are made");
    rt::check(wait(a).is_ok() & wait(b).is_ok(), "an operation on the subscriptions failed");
    sim::set_budget(0);
    let has = |t: &[u8], id: &[u8]| -> bool {
        let m = wait(topics.get_all_subscribed(std::str::from_utf8(t).unwrap()));
        let r = m.contains_key(&arc(id));
        r
    };
    rt::check(has(&f1, b"a"), "a subscription was lost");
    if v < 4 {
        rt::check(has(&probe(&f2), b"b"), "a subscription was lost");
    }
    if v == 5 {
        rt::check(!has(b"q", b"c"), "a removed subscription is still there");
    }
    // and they can all be removed again
    wait(topics.unsubscribe_all(arc(b"a")));
    wait(topics.unsubscribe_all(arc(b"b")));
    rt::check(!has(&f1, b"a") & !has(&probe(&f2), b"b"), "a removed subscription is still there");
}

// ---- S05 ----------------------------------------------------------------------------------------
/// What a subscriber gets is what was published; a publish that asks for something unsupported is
/// refused. param = 10*encrypted + focus
fn content() {
    deliver(rt::param() / 10 == 1, gen(PUBLISH, focus_of(rt::param() % 10)), 256)
}
/// The same at the boundaries of the length encodings. param = encrypted
fn content_large() {
    let m = gen(PUBLISH, Focus::Sizes);
    deliver(rt::param() == 1, m, 20000)
}
fn deliver(e: bool, m: M, max: u32) {
    let mut cf = both(Permeability::Permissive);
    cf.max_packet_size = max;
    let _w = start(cf);
    let mut a = client(b"a");
    let mut b = client_of(e, b"b");
    a.subscribe(b"#", 0);
    rt::assume(m.s.is_empty() || m.s[0] != b'$');
    let raw = encode(&m);
    rt::assume(raw.len() <= max as usize);
    b.send(&raw);
    settle();
    let got = a.packets();
    let back = b.packets();
    let mut refuse = m.flags & 0x0f != 0;
    for (k, _) in &m.props {
        refuse |= *k == 0x02 || *k == 0x23 || *k == 0x0b;
    }
    match decode(&raw) {
        R::Ok(..) if refuse => {
            rt::cover("refused");
            rt::check(got.is_empty(), "a publish asking for something unsupported was delivered");
            rt::check(back.len() == 1 && back[0].ty == DISCONNECT && back[0].reason == 0x83, "an unsupported publish was not refused with DISCONNECT 0x83");
        }
        R::Ok(..) => {
            rt::cover("delivered");
            let mut want = m.clone();
            want.flags = 0;
            want.id = None;
            only(&got, &want, "a publish was not delivered", "topic, payload or properties of a message changed on the way");
            rt::check(back.is_empty(), "the publisher got an answer to a QoS 0 publish");
        }
        _ => {
            rt::cover("malformed");
            rt::check(got.is_empty(), "a malformed publish was delivered");
            rt::check(b.p.closed(), "a malformed publish did not end the connection");
        }
    }
}

// ---- S06 ----------------------------------------------------------------------------------------
/// Several publishers and subscribers at once, every schedule within the budget.
/// param = 100*budget + 10*variant + pipelining
fn fanout() {
    let p = rt::param();
    let _w = start(cfg());
    let mut s1 = client(b"s1");
    let mut s2 = client(b"s2");
    let mut s3 = client(b"s3");
    let mut p1 = client(b"p1");
    let mut p2 = client(b"p2");
    s1.subscribe(b"t/#", 0);
    s2.subscribe(b"t/x", 0);
    s2.subscribe(b"+/x", 0);
    s3.subscribe(b"u", 0);
    let own = p / 10 % 10;
    if own == 1 {
        p1.subscribe(b"t/x", 0);
    }
    if own == 2 {
        p1.subscribe(b"t/x", 4);
    }
    let x = rt::bytes(4);
    let raw: Vec<Vec<u8>> = x.iter().map(|c| encode(&publish_m(b"t/x", &[*c]))).collect();
    sim::set_budget((p / 100) as usize);
    if p % 10 == 0 {
        p1.push(&raw[0]);
        p2.push(&raw[2]);
        p1.push(&raw[1]);
        p2.push(&raw[3]);
    } else {
        p1.push(&[&raw[0][..], &raw[1][..]].concat());
        p2.push(&[&raw[2][..], &raw[3][..]].concat());
    }
    settle();
    sim::set_budget(0);
    let all = |c: &mut Conn| {
        let got = c.packets();
        rt::check(got.len() == 4, "a subscriber did not get every message exactly once");
        // an interleaving of 0,1 and 2,3
        let mut ok = false;
        for o in [[0, 1, 2, 3], [0, 2, 1, 3], [0, 2, 3, 1], [2, 0, 1, 3], [2, 0, 3, 1], [2, 3, 0, 1]].iter() {
            let mut this = true;
            for i in 0..4 {
                this &= same(&snap_m(&got[i]), &snap_m(&publish_m(b"t/x", &[x[o[i]]])));
            }
            ok |= this;
        }
        rt::check(ok, "messages of one publisher arrived changed or out of order");
    };
    all(&mut s1);
    all(&mut s2);
    rt::check(s3.quiet(), "a message was delivered to a client not subscribed to it");
    rt::check(p2.quiet(), "a message was delivered to a client not subscribed to it");
    match own {
        1 => all(&mut p1),
        2 => {
            let got = p1.packets();
            rt::check(got.len() == 2, "NO_LOCAL does not withhold exactly the client's own messages");
            rt::check(
                same(&got[0].payload, &x[2..3]) & same(&got[1].payload, &x[3..4]),
                "NO_LOCAL does not withhold exactly the client's own messages",
            );
        }
        _ => rt::check(p1.quiet(), "a message was delivered to a client not subscribed to it"),
    }
}

// ---- S07 ----------------------------------------------------------------------------------------
/// Under strict permeability nothing that came in encrypted leaves unencrypted.
/// param = 10*budget + variant
fn strict() {
    let st = rt::pick(2) == 1;
    let w = start(both(if st { Permeability::Strict } else { Permeability::Permissive }));
    let v = rt::param() % 10;
    let x = rt::bytes(2);
    let (pe, se) = match v {
        0 => (rt::pick(2) == 1, rt::pick(2) == 1),
        _ => (true, false),
    };
    let mut s = client_of(se, b"s");
    let mut o = client_of(true, b"o");
    s.subscribe(b"t", 0);
    o.subscribe(b"t", 0);
    let mut s2 = client_of(!se, b"s2");
    let mut o2 = client_of(true, b"o2");
    if v == 0 {
        s2.subscribe(b"+", 0);
        o2.subscribe(b"#", 0);
    }
    let mut p = client_of(pe, b"p");
    if v == 0 {
        p.subscribe(b"t", 0);
    }
    let m = publish_m(b"t", &x);
    sim::set_budget((rt::param() / 10) as usize);
    match v {
        0 => {
            p.send(&encode(&m));
            settle();
        }
        1 => {
            // the publisher's name is taken over by an unencrypted client at the same time
            let q = Conn::plain();
            p.send(&encode(&m));
            q.push(&encode(&connect_m(b"p")));
            settle();
        }
        2 => {
            // the publisher goes away
            p.send(&encode(&m));
            p.p.close(true);
            settle();
        }
        _ => {
            // an encrypted subscriber is replaced by an unencrypted one of the same name
            let q = Conn::plain();
            q.push(&encode(&connect_m(b"o")));
            p.send(&encode(&m));
            settle();
            sim::set_budget(0);
            let mut q = q;
            for z in q.packets() {
                rt::check(!st || z.ty == CONNACK, "a message that came in encrypted left unencrypted");
            }
            return;
        }
    }
    sim::set_budget(0);
    let got = s.packets();
    if st && pe && !se {
        rt::cover("withheld");
        rt::check(got.is_empty(), "a message that came in encrypted left unencrypted");
    } else if v == 0 {
        rt::cover("delivered");
        only(&got, &m, "a message was withheld although the channel allows it", "the delivered message differs from the published one");
    }
    if v == 0 {
        for c in [&mut o, &mut o2, &mut p] {
            only(&c.packets(), &m, "a message was withheld although the channel allows it", "the delivered message differs from the published one");
        }
        let got = s2.packets();
        if st && pe && se {
            rt::check(got.is_empty(), "a message that came in encrypted left unencrypted");
        } else {
            only(&got, &m, "a message was withheld although the channel allows it", "the delivered message differs from the published one");
        }
    }
    rt::check(w.registered(b"s"), "a client was lost");
}

// ---- S08 ----------------------------------------------------------------------------------------
/// CONNECT: accepted or refused as documented, and answered with what the server can do.
/// param = 100*encrypted + 10*owner + focus (see gen), CONNECT only
fn handshake() {
    let p = rt::param();
    let m = gen((p / 10 % 100) as u8, focus_of(p % 10));
    answer(m, p / 1000 == 1)
}
/// the same with a CONNECT that asks for nothing unsupported but through its properties. param = focus
fn clean() {
    let mut m = gen(CONNECT, focus_of(rt::param()));
    m.aflags = 2;
    m.will = None;
    m.user = None;
    m.pass = None;
    // without authentication
    if rt::pick(2) == 1 {
        m.props.retain(|(k, _)| *k != 0x15 && *k != 0x16);
    }
    answer(m, false)
}
fn answer(m: M, e: bool) {
    let w = start(both(Permeability::Permissive));
    let raw = encode(&m);
    rt::assume(raw.len() <= 256);
    let ok = match decode(&raw) {
        R::Ok(..) => true,
        _ => false,
    };
    // a client that limits the size of packets is told nothing that is larger
    let mut limit = None;
    for (k, v) in &m.props {
        if let (0x27, V::U32(x)) = (*k, v) {
            limit = Some(*x);
        }
    }
    if let (true, Some(limit)) = (ok, limit) {
        let mut other = m.clone();
        other.props.retain(|(k, _)| *k != 0x27);
        let mut d = Conn::make(e);
        d.send(&encode(&other));
        settle();
        let got = d.packets();
        rt::check(got.len() == 1, "a well-formed CONNECT was not answered by one CONNACK");
        let n = encode(&got[0]).len();
        d.p.close(true);
        settle();
        if n as u32 > limit {
            rt::cover("not told");
            let mut c = Conn::make(e);
            c.send(&raw);
            settle();
            rt::check(c.quiet(), "a packet above the client's maximum packet size was sent");
            rt::check(c.p.released(), "a client that cannot be answered stays connected");
            rt::check(w.clients().is_empty(), "a client that cannot be answered is registered");
            return;
        }
    }
    let mut c = Conn::make(e);
    c.send(&raw);
    settle();
    let got = c.packets();
    if !ok {
        rt::cover("malformed");
        rt::check(got.is_empty(), "a malformed CONNECT was answered");
        rt::check(c.p.released(), "a malformed CONNECT did not end the connection");
        rt::check(w.clients().is_empty(), "a client that was not accepted is registered");
        return;
    }
    let mut refuse = m.will.is_some() || m.user.is_some() || m.pass.is_some() || m.aflags & 2 == 0;
    let mut expiry = 0;
    for (k, v) in &m.props {
        refuse |= *k == 0x15 || *k == 0x16;
        if let (0x11, V::U32(x)) = (*k, v) {
            expiry = *x;
        }
    }
    rt::check(got.len() == 1 && got[0].ty == CONNACK, "a well-formed CONNECT was not answered by one CONNACK");
    let a = &got[0];
    rt::check(a.aflags == 0, "CONNACK claims a session that does not exist");
    if refuse {
        rt::cover("refused");
        rt::check(a.reason == 0x83, "a CONNECT asking for something unsupported was not refused");
        rt::check(c.p.released(), "a refused client stays connected");
        rt::check(w.clients().is_empty(), "a refused client is registered");
        return;
    }
    rt::cover("accepted");
    rt::check(a.reason == 0, "a CONNECT was refused that asks for nothing unsupported");
    rt::check(!c.p.closed(), "an accepted client was disconnected");
    let get = |id: u8| -> Option<&V> { a.props.iter().find(|(k, _)| *k == id).map(|(_, v)| v) };
    let byte = |id: u8| -> u8 {
        match get(id) {
            Some(V::Bool(x)) | Some(V::Byte(x)) => *x,
            _ => 99,
        }
    };
    rt::check(byte(0x24) == 0, "CONNACK does not announce that QoS 0 is the maximum");
    rt::check(matches_or_absent(byte(0x28)), "CONNACK announces that wildcard subscriptions are not available, which they are");
    rt::check(byte(0x29) == 0, "CONNACK does not announce that subscription identifiers are not supported");
    rt::check(byte(0x2a) == 0, "CONNACK does not announce that shared subscriptions are not supported");
    match get(0x22) {
        Some(V::U16(0)) | None => {}
        _ => rt::fail("CONNACK offers topic aliases, which are not supported"),
    }
    match get(0x13) {
        Some(V::U16(k)) => rt::check(*k == 10, "CONNACK announces another keep alive than the configured one"),
        _ => rt::fail("CONNACK does not announce the keep alive"),
    }
    match get(0x27) {
        Some(V::U32(k)) => rt::check(*k == 256, "CONNACK announces another maximum packet size than the configured one"),
        _ => rt::fail("CONNACK does not announce the maximum packet size"),
    }
    match get(0x11) {
        Some(V::U32(k)) => rt::check(*k == expiry, "CONNACK announces another session expiry than the client asked for"),
        None => rt::check(false, "CONNACK does not announce the session expiry"),
        _ => rt::fail("wrong property type"),
    }
    let ids = w.clients();
    rt::check(ids.len() == 1, "an accepted client is not registered once");
    if m.s.is_empty() {
        rt::cover("assigned");
        match get(0x12) {
            Some(V::Str(s)) => {
                rt::check(s.len() > 0, "an empty client identifier was assigned");
                rt::check(same(s, &ids[0]), "a client is registered under another name than the one it was assigned");
            }
            _ => rt::fail("no client identifier was assigned to a client without one"),
        }
        // and the next one gets another
        let mut d = Conn::plain();
        d.connect(b"");
        rt::check(w.clients().len() == 2, "two clients were assigned the same identifier");
    } else {
        rt::check(get(0x12).is_none(), "a client that has an identifier was assigned another one");
        rt::check(same(&m.s, &ids[0]), "a client is registered under another name");
    }
}
fn matches_or_absent(b: u8) -> bool {
    b == 1 || b == 99
}
/// The first packet is not a CONNECT. param = 1000*encrypted + 10*owner + focus
fn first() {
    let p = rt::param();
    let w = start(both(Permeability::Permissive));
    let mut s = client(b"s");
    s.subscribe(b"#", 0);
    let mut c = Conn::make(p / 1000 == 1);
    let m = gen((p / 10 % 100) as u8, focus_of(p % 10));
    rt::assume(m.ty != CONNECT);
    c.send(&encode(&m));
    c.send(&encode(&publish_m(b"t", b"x")));
    settle();
    rt::check(c.quiet(), "a client that did not CONNECT was answered");
    rt::check(c.p.released(), "a client whose first packet is not CONNECT stays connected");
    rt::check(w.clients().len() == 1, "a client that did not CONNECT is registered");
    rt::check(s.quiet(), "a message of a client that did not CONNECT was delivered");
}

// ---- S09 ----------------------------------------------------------------------------------------
/// A hostile client: any bytes at any stage, plain or encrypted, then perhaps gone. Others carry on.
/// param = 100000*stage + input (see `attack`)
fn hostile() {
    let stage = rt::param() / 100000 % 100;
    let budget = (rt::param() / 10_000_000) as usize;
    if stage >= 8 {
        return hostile_frame(stage - 8, (rt::param() % 100) as usize);
    }
    let e = stage >= 4;
    let w = start(both(Permeability::Permissive));
    let mut a = client(b"vic");
    a.subscribe(b"victim/+", 0);
    let mut b = client(b"pub");
    let mut h = if e && stage % 4 >= 2 { Conn::noise_raw() } else { Conn::make(e) };
    if stage % 4 == 1 {
        h.connect(b"bad");
    }
    let raw = attack(rt::param() % 100000);
    sim::set_budget(budget);
    if e && stage % 4 == 3 {
        // a handshake message
        let mut v = (raw.len() as u32 + 16).to_be_bytes().to_vec();
        v.extend_from_slice(&snow::message(1, 0, &raw));
        h.push(&v);
    } else if e && stage % 4 == 2 {
        h.push(&raw);
    } else {
        h.send(&raw);
    }
    // under a schedule the end overtakes what was sent
    if budget == 0 {
        settle();
    }
    match rt::pick(if budget == 0 { 2 } else { 3 }) {
        0 => {}
        1 => h.p.reset(),
        _ => h.p.close(true),
    }
    settle();
    sim::set_budget(0);
    let x = rt::bytes(1);
    b.publish(b"victim/t", &x);
    only(&a.packets(), &publish_m(b"victim/t", &x), "a client was cut off by what another one sent", "the delivered message differs from the published one");
    rt::check(b.quiet(), "a client got something because of what another one sent");
    rt::check(!a.p.closed() & !b.p.closed(), "a client was disconnected because of what another one sent");
    rt::check(w.registered(b"vic") & w.registered(b"pub"), "a client was lost because of what another one sent");
    // and new clients are served
    client(b"new");
    rt::obs(w.clients().len() as u64);
    drop(h);
}
/// A noise frame with any n bytes, at any stage of an encrypted connection.
fn hostile_frame(stage: u64, n: usize) {
    let w = start(both(Permeability::Permissive));
    let mut a = client_of(true, b"vic");
    a.subscribe(b"victim/+", 0);
    let mut b = client(b"pub");
    let mut h = match stage {
        0 => Conn::noise_raw(),
        1 => {
            let mut h = Conn::noise_raw();
            h.push(&frame_of(&snow::message(1, 0, &[])));
            settle();
            h
        }
        _ => Conn::noise(),
    };
    if stage == 3 {
        h.connect(b"bad");
    }
    let m = rt::bytes(n);
    let next = [(1, 0), (1, 2), (2, 0), (2, 1)][stage as usize];
    rt::assume(snow::open(next.0, next.1, &m).is_none());
    h.push(&frame_of(&m));
    settle();
    rt::check(h.p.released(), "a connection goes on after a frame that is not authentic");
    b.publish(b"victim/t", b"x");
    only(&a.packets(), &publish_m(b"victim/t", b"x"), "a client was cut off by what another one sent", "the delivered message differs from the published one");
    rt::check(b.quiet() & !a.p.closed() & !b.p.closed(), "a client was disconnected because of what another one sent");
    rt::check(w.clients().len() == 2, "a client whose connection has ended is still registered");
    client(b"new");
}
fn attack(p: u64) -> Vec<u8> {
    if p < 64 {
        return rt::bytes(p as usize);
    }
    let (k, owner) = (p / 1000, (p / 10 % 100) as u8);
    let mut b = encode(&gen(owner, focus_of(p % 10)));
    match k {
        0 | 5 => {}
        1 => {
            let i = rt::pick(b.len());
            b[i] = rt::u8();
        }
        2 => {
            let n = rt::pick(b.len());
            b.truncate(n);
        }
        3 => {
            let n = rt::pick(b.len() - 1);
            b.truncate(n + 2);
            b[1] = n as u8;
        }
        _ => panic!("harness"),
    }
    b
}

// ---- S10 ----------------------------------------------------------------------------------------
/// Packets larger than the limits. param = 10*variant + encrypted
fn size() {
    let e = rt::param() % 10 == 1;
    let mut c = both(Permeability::Permissive);
    c.max_packet_size = 64;
    let w = start(c);
    let mut s = Conn::plain();
    let mut p = client_of(e, b"p");
    match rt::param() / 10 {
        0 => {
            // incoming: 64 bytes are let in, more is not
            s.connect(b"s");
            s.subscribe(b"t", 0);
            let n = 50 + rt::pick(30);
            let m = publish_m(b"t", &vec![b'x'; n]);
            let raw = encode(&m);
            p.send(&raw);
            settle();
            if raw.len() <= 64 {
                rt::cover("let in");
                only(&s.packets(), &m, "a packet within the size limit was not delivered", "the delivered message differs from the published one");
                rt::check(!p.p.closed(), "a client was disconnected for a packet within the size limit");
            } else {
                rt::cover("kept out");
                rt::check(s.quiet(), "a packet above the size limit was delivered");
                rt::check(p.p.closed(), "a client that sent a packet above the size limit stays connected");
                rt::check(!w.registered(b"p"), "a client that sent a packet above the size limit stays registered");
            }
        }
        _ => {
            // outgoing: the client's own limit
            let mut m = connect_m(b"s");
            let max = rt::u32();
            m.props.push((0x27, V::U32(max)));
            let mut s = Conn::make(e);
            s.send(&encode(&m));
            settle();
            let a = s.packets();
            if a.is_empty() {
                rt::cover("not told");
                rt::check(max < 64, "a CONNECT with a maximum packet size is not answered");
                rt::check(s.p.released(), "a client that cannot be answered stays connected");
                rt::check(!w.registered(b"s"), "a client that cannot be answered is registered");
                return;
            }
            rt::check(a.len() == 1 && a[0].ty == CONNACK && a[0].reason == 0, "a CONNECT with a maximum packet size is refused");
            rt::check(encode(&a[0]).len() as u32 <= max, "a packet above the client's maximum packet size was sent");
            s.subscribe(b"t", 0);
            let n = 30 + rt::pick(29);
            let m = publish_m(b"t", &vec![b'x'; n]);
            let raw = encode(&m);
            let mut o = client(b"o");
            o.subscribe(b"t", 0);
            p.send(&raw);
            settle();
            let got = s.packets();
            if raw.len() as u32 <= max {
                rt::cover("sent");
                only(&got, &m, "a message within the client's maximum packet size was not sent", "the delivered message differs from the published one");
            } else {
                rt::cover("discarded");
                rt::check(got.is_empty(), "a packet above the client's maximum packet size was sent");
                rt::check(!s.p.closed(), "a client was disconnected because a message is too large for it");
            }
            only(&o.packets(), &m, "a message was not sent to another client", "the delivered message differs from the published one");
            // the next one comes through
            p.publish(b"t", b"y");
            only(&s.packets(), &publish_m(b"t", b"y"), "a message was lost after one that is too large", "the delivered message differs from the published one");
        }
    }
}

// ---- S11 ----------------------------------------------------------------------------------------
/// How the bytes arrive does not matter. param = 10*variant + encrypted
fn segments() {
    let e = rt::param() % 10 == 1;
    let mut cf = both(Permeability::Permissive);
    cf.max_packet_size = 48;
    let _w = start(cf);
    let mut s = client(b"s");
    s.subscribe(b"#", 0);
    let x = rt::bytes(4);
    let msgs = [publish_m(b"a", &x[0..1]), publish_m(b"b/c", &x[1..3]), publish_m(b"d", &x[3..4])];
    let mut c = Conn::make(e);
    let mut all: Vec<u8> = vec![];
    let mut k = 0;
    let mut put = |m: &M| {
        let b = encode(m);
        if e {
            let f = snow::message(2, k, &b);
            k += 1;
            all.extend_from_slice(&(f.len() as u32).to_be_bytes());
            all.extend_from_slice(&f);
        } else {
            all.extend_from_slice(&b);
        }
    };
    put(&connect_m(b"c"));
    put(&msgs[0]);
    put(&subscribe_m(3, &[(b"b/c".to_vec(), 0x20)]));
    put(&msgs[1]);
    put(&msgs[2]);
    let n = all.len();
    match rt::param() / 10 {
        0 => {
            // all at once, or one byte at a time
            if rt::pick(2) == 0 {
                c.push(&all);
                settle();
            } else {
                for b in &all {
                    c.push(&[*b]);
                    settle();
                }
            }
        }
        1 => {
            // cut at two places
            let i = 1 + rt::pick(n - 2);
            let j = i + 1 + rt::pick(n - 1 - i);
            c.push(&all[..i]);
            settle();
            c.push(&all[i..j]);
            settle();
            c.push(&all[j..]);
            settle();
        }
        3 => {
            // cut at one place
            let i = 1 + rt::pick(n - 1);
            c.push(&all[..i]);
            settle();
            c.push(&all[i..]);
            settle();
        }
        _ => {
            // cut at three places, the server busy in between
            let i = 1 + rt::pick(n / 4);
            let j = i + 1 + rt::pick(n / 4);
            let k = j + 1 + rt::pick(n / 4);
            c.push(&all[..i]);
            c.push(&all[i..j]);
            settle();
            c.push(&all[j..k]);
            c.push(&all[k..]);
            settle();
        }
    }
    let back = c.packets();
    rt::check(back.len() == 3, "the answers depend on how the bytes arrive");
    rt::check(back[0].ty == CONNACK && back[0].reason == 0, "the answers depend on how the bytes arrive");
    rt::check(back[1].ty == SUBACK && back[1].id == Some(3), "the answers depend on how the bytes arrive");
    rt::check(same(&snap_m(&back[2]), &snap_m(&msgs[1])), "the answers depend on how the bytes arrive");
    let got = s.packets();
    rt::check(got.len() == 3, "the messages delivered depend on how the bytes arrive");
    for i in 0..3 {
        rt::check(same(&snap_m(&got[i]), &snap_m(&msgs[i])), "the messages delivered depend on how the bytes arrive");
    }
}

// ---- S12 ----------------------------------------------------------------------------------------
/// Connections come and go. The registry is the set of clients with a living connection, and a
/// client that connects again replaces its old connection. param = 100*budget + 10*encrypted + length
fn registry() {
    let p = rt::param();
    let kind = p / 10 % 10; // 2: any mixture
    let w = start(both(Permeability::Permissive));
    let mut conns: Vec<(Vec<u8>, Conn, bool)> = vec![]; // identifier, connection, alive
    let alive = |conns: &Vec<(Vec<u8>, Conn, bool)>| -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = vec![];
        for (i, _, a) in conns {
            if *a {
                v.push(i.clone());
            }
        }
        v
    };
    for _ in 0..p % 10 {
        let n = conns.len();
        // one kind of step for connecting, and two for each living connection
        let k = rt::pick(1 + 2 * n);
        if k == 0 {
            let id = level(1);
            let mut c = Conn::make(if kind == 2 { rt::pick(2) == 1 } else { kind == 1 });
            sim::set_budget((p / 100) as usize);
            c.connect(&id);
            sim::set_budget(0);
            for (i, o, a) in conns.iter_mut() {
                if *a && same(i, &id) {
                    rt::cover("taken over");
                    *a = false;
                    rt::check(o.p.released(), "the old connection of a client that connected again is still open");
                }
            }
            conns.push((id, c, true));
        } else {
            let (i, how) = ((k - 1) / 2, (k - 1) % 2);
            rt::assume(conns[i].2);
            sim::set_budget((p / 100) as usize);
            if how == 0 {
                conns[i].1.p.close(false);
            } else {
                conns[i].1.p.reset();
            }
            settle();
            sim::set_budget(0);
            conns[i].2 = false;
            rt::check(conns[i].1.p.released(), "the connection of a client that went away is still open");
        }
        let have = w.clients();
        let want = alive(&conns);
        rt::check(have.len() == want.len(), "the registered clients are not the connected ones");
        for x in &want {
            let mut found = false;
            for y in &have {
                found |= same(x, y);
            }
            rt::check(found, "a connected client is not registered");
        }
    }
    // every living connection is served
    for (_, c, a) in conns.iter_mut() {
        if *a {
            c.subscribe(b"t", 0);
        }
    }
    let mut o = client(b"another");
    o.publish(b"t", b"x");
    for (_, c, a) in conns.iter_mut() {
        if *a {
            only(&c.packets(), &publish_m(b"t", b"x"), "a connected client is not served", "the delivered message differs from the published one");
        }
    }
}
/// Two connections of one client at once, every schedule within the budget: exactly one survives and
/// is the registered and served one. param = 10*budget + variant
fn takeover() {
    let w = start(both(Permeability::Permissive));
    let v = rt::param() % 10;
    // 3-5 as 0-2, but the first over the other transport; 6-8 the second
    let mut c = [Conn::make(v / 3 == 1), Conn::make(v / 3 == 2)];
    let v = v % 3;
    if v == 1 {
        c[0].connect(b"c");
    }
    sim::set_budget((rt::param() / 10) as usize);
    match v {
        0 => {
            c[0].send(&encode(&connect_m(b"c")));
            c[1].send(&encode(&connect_m(b"c")));
        }
        1 => {
            // the old one goes away at the same time
            c[0].p.close(true);
            c[1].send(&encode(&connect_m(b"c")));
        }
        _ => {
            // they also subscribe
            let sub = encode(&subscribe_m(1, &[(b"t".to_vec(), 0x20)]));
            for x in c.iter_mut() {
                x.send(&encode(&connect_m(b"c")));
                x.send(&sub);
            }
        }
    }
    settle();
    sim::set_budget(0);
    let gone = [c[0].p.released(), c[1].p.released()];
    rt::check(gone[0] != gone[1], "not exactly one of two connections of a client survives");
    rt::check(w.clients().len() == 1, "the surviving connection is not registered");
    if v == 1 {
        rt::check(gone[0], "the new connection of a client ended with the old one");
    }
    let k = if gone[0] { 1 } else { 0 };
    let got = c[k].packets();
    rt::check(got.len() >= 1 && got[0].ty == CONNACK && got[0].reason == 0, "the surviving connection was not accepted");
    if v >= 2 {
        rt::check(got.len() == 2 && got[1].ty == SUBACK, "the surviving connection's SUBSCRIBE was not answered");
    } else {
        c[k].subscribe(b"t", 0);
    }
    let mut p = client(b"p");
    p.publish(b"t", b"x");
    only(&c[k].packets(), &publish_m(b"t", b"x"), "the surviving connection is not served", "the delivered message differs from the published one");
}

// ---- S13 ----------------------------------------------------------------------------------------
/// A new connection starts without subscriptions, whatever became of the old one.
/// param = 10*budget + variant
fn fresh() {
    let w = start(both(Permeability::Permissive));
    // 100: the old connection is encrypted, 200: the new one
    let kind = rt::param() / 100;
    let mut c = client_of(kind == 1, b"c");
    c.subscribe(b"t", 0);
    if kind == 0 {
        c.subscribe(b"u/#", 0);
        c.subscribe(b"+/w/+", 0);
        c.subscribe(b"+/#", 0);
        c.subscribe(b"t/+", 0);
    }
    let v = rt::param() % 10;
    let more = encode(&subscribe_m(9, &[(b"v".to_vec(), 0x20)]));
    let mut d = Conn::make(kind == 2);
    // 4: somebody publishes to the old subscriptions meanwhile
    let mut q = if v == 4 { Some(client(b"q")) } else { None };
    sim::set_budget((rt::param() / 10 % 10) as usize);
    match v {
        4 => {
            let m = encode(&publish_m(b"t", b"z"));
            q.as_mut().unwrap().send(&m);
        }
        0 => {
            c.p.close(rt::pick(2) == 1);
            settle();
        }
        1 => {}
        2 => {
            // the old one still subscribes
            c.send(&more);
            c.p.close(true);
        }
        _ => c.send(&more),
    }
    d.send(&encode(&connect_m(b"c")));
    settle();
    sim::set_budget(0);
    if v == 2 {
        // the order in which the server sees the two ends of the old connection is open
        rt::assume(!d.p.released());
    }
    let got = d.packets();
    rt::check(got.len() == 1 && got[0].ty == CONNACK, "a new connection got the answer to a request of an older one");
    let mut p = client(b"p");
    for t in [&b"t"[..], b"u/x", b"v", b"x/w/y", b"t/z", b"u"].iter() {
        p.publish(t, b"x");
    }
    rt::check(d.quiet(), "a new connection gets messages it did not subscribe to");
    rt::check(w.registered(b"c"), "a connected client is not registered");
    d.subscribe(b"t", 0);
    p.publish(b"t", b"y");
    only(&d.packets(), &publish_m(b"t", b"y"), "a subscription does not work on a new connection", "the delivered message differs from the published one");
}

// ---- S14 ----------------------------------------------------------------------------------------
/// A client goes away at any point of what it sends, in any way: nothing of it stays behind.
/// param = 10*variant + encrypted
fn gone() {
    let e = rt::param() % 10 == 1;
    let w = start(both(Permeability::Permissive));
    let mut s = client(b"s");
    s.subscribe(b"t", 0);
    let base = sim::live();
    let mut all: Vec<u8> = vec![];
    let put = |all: &mut Vec<u8>, b: &[u8]| {
        all.extend_from_slice(&(b.len() as u32).to_be_bytes());
        all.extend_from_slice(b);
    };
    let c = if e {
        put(&mut all, &snow::message(1, 0, &[]));
        put(&mut all, &snow::message(1, 2, &[]));
        put(&mut all, &snow::message(2, 0, &encode(&connect_m(b"c"))));
        put(&mut all, &snow::message(2, 1, &encode(&publish_m(b"t", b"x"))));
        Conn::noise_raw()
    } else {
        all.extend_from_slice(&encode(&connect_m(b"c")));
        all.extend_from_slice(&encode(&publish_m(b"t", b"x")));
        Conn::plain()
    };
    let v = rt::param() / 10 % 10;
    if v >= 2 {
        // a SUBSCRIBE, and something that is refused
        let more = [encode(&subscribe_m(5, &[(b"v".to_vec(), 0x20), (b"v/#".to_vec(), 0x24)])), encode(&empty(PINGREQ))];
        for (i, m) in more.iter().enumerate() {
            if e {
                put(&mut all, &snow::message(2, 2 + i as u8, m));
            } else {
                all.extend_from_slice(m);
            }
        }
    }
    let n = if v >= 2 { all.len() - rt::pick(if e { 50 } else { 17 }) } else { rt::pick(all.len() + 1) };
    sim::set_budget((rt::param() / 100) as usize);
    if n > 0 {
        c.push(&all[..n]);
    }
    if v % 2 == 0 {
        settle();
    }
    match rt::pick(3) {
        0 => c.p.close(false),
        1 => c.p.close(true),
        _ => c.p.reset(),
    }
    settle();
    sim::set_budget(0);
    rt::check(c.p.released(), "the connection of a client that went away is still open");
    rt::check(sim::live() == base, "a task of a client that went away is still there");
    rt::check(w.clients().len() == 1, "a client that went away is still registered");
    let got = s.packets();
    rt::check(got.len() <= 1, "a message was delivered twice");
    for t in ["t", "v", "v/x"] {
        let left = wait(w.s.get_topics().get_all_subscribed(t));
        rt::check(left.len() == if t == "t" { 1 } else { 0 }, "a subscription of a client that is gone is still there");
    }
    if v >= 2 {
        rt::check(got.len() == 1 || v == 3, "a message was lost because its sender went away afterwards");
    } else if n < all.len() {
        rt::check(got.is_empty(), "an incomplete message was delivered");
    } else if v == 0 && rt::param() < 100 {
        rt::check(got.len() == 1, "a message was lost because its sender went away afterwards");
    }
}

// ---- S15 ----------------------------------------------------------------------------------------
/// Shutting down finishes, and nothing runs or stays open afterwards.
/// param = 100*budget + 10*connections + stage
fn shutdown() {
    let p = rt::param();
    let w = start(both(Permeability::Permissive));
    let mut conns = vec![];
    for i in 0..p / 10 % 10 {
        // 0 silent, 1 connected, 2 connected and subscribed with a full window, 3/4 the same encrypted, 5 before the handshake
        let stage = if p % 10 == 9 { rt::pick(if ENCRYPTION { 6 } else { 3 }) as u64 } else { p % 10 };
        let mut c = match stage {
            3 | 4 => Conn::noise(),
            5 => Conn::noise_raw(),
            _ => Conn::plain(),
        };
        let id = [b'a' + i as u8];
        if stage == 1 || stage == 2 || stage == 4 {
            c.connect(&id);
        }
        if stage == 2 {
            c.subscribe(b"t", 0);
            c.p.window(Some(1));
            let mut q = client(b"q");
            q.publish(b"t", b"x");
            q.publish(b"t", b"y");
            conns.push(q);
        }
        conns.push(c);
    }
    sim::set_budget((p / 100) as usize);
    if p % 10 == 8 {
        // someone arrives just now
        conns.push(Conn::plain());
        let c = Conn::plain();
        c.push(&encode(&connect_m(b"n")));
        conns.push(c);
    }
    let World { s } = w;
    match sim::block_on(s.shutdown(), POLLS) {
        Some(()) => {}
        None => rt::fail("shutting down does not finish"),
    }
    settle();
    sim::set_budget(0);
    for c in &conns {
        rt::check(c.p.released(), "a connection is still open after the shutdown");
    }
    rt::check(sim::live() == 0, "a task is still running after the shutdown");
    let from = std::net::SocketAddr::from(([10, 0, 0, 9], 9));
    rt::check(tokio::net::dial(plain_addr(), from).is_none() & tokio::net::dial(noise_addr(), from).is_none(), "the server still listens after the shutdown");
}

// ---- S16 ----------------------------------------------------------------------------------------
/// Every filter of a SUBSCRIBE is answered in its place, and granted iff the answer says so.
/// param = number of filters
fn suback() {
    let k = rt::param() as usize;
    let _w = start(cfg());
    let mut c = client(b"c");
    let mut p = client(b"p");
    let mut topics = vec![];
    for i in 0..k {
        topics.push((vec![b'f', b'0' + i as u8], rt::u8()));
    }
    let id = rt::u16();
    let m = subscribe_m(id, &topics);
    let raw = encode(&m);
    c.send(&raw);
    settle();
    let got = c.packets();
    match decode(&raw) {
        R::Ok(..) => {
            rt::check(got.len() == 1 && got[0].ty == SUBACK, "a SUBSCRIBE was not answered by one SUBACK");
            rt::check(got[0].id == Some(id), "SUBACK carries another packet identifier than the SUBSCRIBE");
            rt::check(got[0].codes.len() == k, "SUBACK does not answer every filter");
            for i in 0..k {
                let o = topics[i].1;
                let grant = o & 3 == 0 && o & 0x30 == 0x20;
                rt::check(got[0].codes[i] == if grant { 0 } else { 0x83 }, "a filter got another answer than its options deserve");
                p.publish(&topics[i].0, b"x");
                let d = c.packets();
                if grant {
                    rt::cover("granted");
                    only(&d, &publish_m(&topics[i].0, b"x"), "a granted subscription does not deliver", "the delivered message differs from the published one");
                } else {
                    rt::cover("refused");
                    rt::check(d.is_empty(), "a refused subscription delivers");
                }
            }
        }
        _ => {
            rt::cover("malformed");
            rt::check(got.is_empty(), "a malformed SUBSCRIBE was answered");
            rt::check(c.p.released(), "a malformed SUBSCRIBE did not end the connection");
            for i in 0..k {
                p.publish(&topics[i].0, b"x");
            }
            rt::check(c.quiet(), "a message was sent on an ended connection");
        }
    }
}

// ---- S17 ----------------------------------------------------------------------------------------
/// A connection that does not finish its handshake in time is ended; one that did is not.
/// param = 10*stage + encrypted
fn timeout() {
    use std::time::Duration;
    let e = rt::param() % 10 == 1;
    let mut cf = both(Permeability::Permissive);
    let ka = [1u16, 2, 60, 65535][rt::pick(4)];
    cf.keep_alive = ka;
    let w = start(cf);
    let ms = |n: u64| Duration::from_millis(n);
    let (mut c, limit) = match (rt::param() / 10, e) {
        (0, true) => (Conn::noise_raw(), 3 * ka as u64),
        (0, false) => (Conn::plain(), ka as u64),
        _ => (Conn::make(e), ka as u64),
    };
    settle();
    let raw = encode(&connect_m(b"c"));
    match rt::param() / 10 {
        0 | 1 => {
            sim::advance(ms(limit * 1000 - 1));
            settle();
            rt::check(!c.p.closed(), "a connection was ended before its time was over");
            if rt::pick(2) == 1 {
                // something, but not enough
                c.push(&raw[..3]);
                settle();
                rt::check(!c.p.closed(), "a connection was ended before its time was over");
            }
            sim::advance(ms(1));
            settle();
            rt::check(c.p.released(), "a connection that never finishes its handshake stays open");
            rt::check(w.clients().is_empty(), "a client that did not connect is registered");
        }
        2 => {
            // just in time
            sim::advance(ms(limit * 1000 - 1));
            settle();
            c.connect(b"c");
            rt::check(w.registered(b"c"), "a client is not registered");
            sim::advance(ms(1));
            settle();
            rt::check(!c.p.closed(), "a connected client was ended by the timeout for connecting");
            sim::advance(Duration::from_secs(1_000_000));
            settle();
            rt::check(!c.p.closed() & w.registered(b"c"), "a connected client was ended by the timeout for connecting");
            c.subscribe(b"t", 0);
        }
        _ => {
            // a byte at a time does not extend the time
            let i = rt::pick(raw.len() - 1);
            for b in &raw[..i] {
                if !e {
                    c.push(&[*b]);
                }
                sim::advance(ms(limit * 1000 / raw.len() as u64));
                settle();
            }
            sim::advance(ms(limit * 1000));
            settle();
            rt::check(c.p.released(), "a connection that never finishes its handshake stays open");
        }
    }
    rt::check(sim::live() <= 5, "a task of an ended connection is still there");
}

// ---- S18 ----------------------------------------------------------------------------------------
/// What the server does not support is refused with DISCONNECT 0x83, to the sender only, and has no
/// other effect. param = 1000*encrypted + 10*owner + focus
fn unsupported() {
    let p = rt::param();
    let w = start(both(Permeability::Permissive));
    let mut s = client(b"s");
    s.subscribe(b"t", 0);
    let mut c = client_of(p / 1000 == 1, b"c");
    c.subscribe(b"t", 0);
    let m = gen((p / 10 % 100) as u8, focus_of(p % 10));
    let raw = encode(&m);
    rt::assume(raw.len() <= 256);
    let mut refuse = m.ty != SUBSCRIBE;
    for (k, _) in &m.props {
        refuse |= *k == 0x0b;
    }
    rt::assume(refuse);
    c.send(&raw);
    settle();
    let got = c.packets();
    match decode(&raw) {
        R::Ok(..) => {
            rt::cover("refused");
            rt::check(got.len() == 1 && got[0].ty == DISCONNECT && got[0].reason == 0x83, "something unsupported was not refused with DISCONNECT 0x83");
        }
        _ => {
            rt::cover("malformed");
            rt::check(got.is_empty() & c.p.released(), "a malformed packet did not end the connection");
        }
    }
    rt::check(s.quiet(), "another client got something because of a refused packet");
    rt::check(w.registered(b"s"), "a client was lost because of a packet of another one");
    let mut o = client(b"o");
    o.publish(b"t", b"x");
    only(&s.packets(), &publish_m(b"t", b"x"), "a client was cut off by what another one sent", "the delivered message differs from the published one");
    if m.ty == SUBSCRIBE {
        // it has no effect
        c.packets();
        for (f, _) in &m.topics {
            if !has_wildcard(f) && !same(f, b"t") && f.len() > 0 {
                o.publish(f, b"y");
                rt::check(c.quiet(), "a refused subscription delivers");
            }
        }
    }
}
/// The client is gone, or has been replaced, when its packet is refused; every schedule within the
/// budget. param = 100*budget + 10*end + packet
fn refused_late() {
    let p = rt::param();
    let w = start(both(Permeability::Permissive));
    let mut s = client(b"s");
    s.subscribe(b"t", 0);
    let mut c = client(b"c");
    let raw = match p % 10 {
        0 => encode(&empty(PINGREQ)),
        1 => {
            let mut m = publish_m(b"t", b"x");
            m.flags = 2;
            m.id = Some(5);
            encode(&m)
        }
        _ => {
            let mut m = subscribe_m(5, &[(b"t".to_vec(), 0x20)]);
            m.props.push((0x0b, V::Var(5)));
            encode(&m)
        }
    };
    sim::set_budget((p / 100) as usize);
    let mut d = Conn::plain();
    c.push(&raw);
    match p / 10 % 10 {
        0 => c.p.close(true),
        1 => c.p.reset(),
        _ => d.push(&encode(&connect_m(b"c"))),
    }
    settle();
    sim::set_budget(0);
    if p / 10 % 10 >= 2 {
        let got = d.packets();
        rt::check(got.len() == 1 && got[0].ty == CONNACK, "a packet was refused to another connection than its own");
        rt::check(!d.p.closed() & w.registered(b"c"), "a connection was ended for what another one sent");
    } else {
        rt::check(!w.registered(b"c"), "a client that is gone is still registered");
    }
    let mut o = client(b"o");
    o.publish(b"t", b"x");
    only(&s.packets(), &publish_m(b"t", b"x"), "a client was cut off by what another one sent", "the delivered message differs from the published one");
    rt::check(d.quiet(), "a refused packet had an effect");
}

// ---- S19 ----------------------------------------------------------------------------------------
/// A subscriber that does not read holds up nobody else, and loses and confuses nothing.
/// param = 10*budget + encrypted
fn slow() {
    let e = rt::param() % 10 == 1;
    let _w = start(both(Permeability::Permissive));
    let mut s = client_of(e, b"s");
    let mut o = client(b"o");
    let mut p = client(b"p");
    s.subscribe(b"t", 0);
    o.subscribe(b"t", 0);
    let x = rt::bytes(3);
    let room = rt::pick(if e { 60 } else { 20 });
    s.p.window(Some(room));
    sim::set_budget((rt::param() / 10) as usize);
    for c in &x {
        p.publish(b"t", &[*c]);
    }
    // it does not read, but it publishes
    let k = rt::pick(2);
    if k == 1 {
        s.send(&encode(&publish_m(b"u", b"z")));
        settle();
    }
    let got = o.packets();
    rt::check(got.len() == 3, "a client that does not read holds up others");
    let more = rt::pick(8);
    s.p.window(Some(more));
    settle();
    s.p.window(None);
    settle();
    sim::set_budget(0);
    let got = s.packets();
    rt::check(got.len() == 3, "a client that reads late did not get every message once");
    for i in 0..3 {
        rt::check(same(&snap_m(&got[i]), &snap_m(&publish_m(b"t", &x[i..i + 1]))), "a client that reads late got messages changed or out of order");
    }
}

// ---- S20 ----------------------------------------------------------------------------------------
/// Only what an authenticated peer sent, in the order it sent it, is ever taken for a packet.
/// param = 100*variant + length
fn integrity() {
    let w = start(both(Permeability::Permissive));
    let mut s = client(b"s");
    s.subscribe(b"#", 0);
    let v = rt::param() / 100;
    let pl = rt::bytes(1);
    let m = encode(&publish_m(b"t", &pl));
    let frame = |b: &[u8]| {
        let mut f = (b.len() as u32).to_be_bytes().to_vec();
        f.extend_from_slice(b);
        f
    };
    match v {
        0 => {
            // one bit or byte of a message changed on the way
            let mut c = client_of(true, b"c");
            let mut x = snow::message(2, 1, &m);
            let i = x.len() - 1 - rt::pick(16);
            let y = rt::u8();
            rt::assume(y != x[i]);
            x[i] = y;
            c.push(&frame(&x));
            settle();
            rt::check(s.quiet(), "a message that fails authentication was dispatched");
            rt::check(c.p.released() & c.packets().is_empty(), "a connection goes on after a message that fails authentication");
            rt::check(!w.registered(b"c"), "a client stays registered after a message that fails authentication");
        }
        1 => {
            // a message repeated, or left out
            let mut c = client_of(true, b"c");
            let first = frame(&snow::message(2, 1, &m));
            if rt::pick(2) == 0 {
                c.push(&first);
                c.push(&first);
                settle();
                rt::check(s.packets().len() == 1, "a repeated message was dispatched again");
            } else {
                c.push(&frame(&snow::message(2, 2, &m)));
                c.push(&first);
                settle();
                rt::check(s.quiet(), "a message was dispatched out of order");
            }
            rt::check(c.p.released() & c.packets().is_empty(), "a connection goes on after a message that fails authentication");
        }
        2 => {
            // the handshake is not as it should be
            let c = Conn::noise_raw();
            let i = rt::pick(4);
            let bad = rt::bytes(16);
            let good = [&[][..], &[]];
            let msgs = [snow::message(1, 0, good[0]), snow::message(1, 2, good[1])];
            for k in 0..2 {
                if k == i {
                    let mut ok = true;
                    for j in 0..16 {
                        ok &= bad[j] == msgs[k][j];
                    }
                    rt::assume(!ok);
                    c.push(&frame(&bad));
                } else if i == k + 2 {
                    // left out
                } else {
                    c.push(&frame(&msgs[k]));
                }
                settle();
            }
            c.push(&frame(&snow::message(2, 0, &encode(&connect_m(b"c")))));
            c.push(&frame(&snow::message(2, 1, &m)));
            settle();
            rt::check(s.quiet(), "a packet was accepted without a complete handshake");
            rt::check(w.clients().len() == 1, "a client was accepted without a complete handshake");
            rt::check(c.p.released(), "a connection goes on after its handshake failed");
        }
        3 => {
            // plain packets where encrypted ones are due
            let c = if rt::pick(2) == 0 { Conn::noise_raw() } else { Conn::noise() };
            if rt::pick(2) == 0 {
                c.push(&encode(&connect_m(b"c")));
                c.push(&m);
            } else {
                c.push(&frame(&encode(&connect_m(b"c"))));
                c.push(&frame(&m));
            }
            settle();
            rt::check(s.quiet(), "a plain packet was accepted on the encrypted port");
            rt::check(w.clients().len() == 1, "a client was accepted without encryption on the encrypted port");
        }
        4 => {
            // an authentic message that holds a part of a packet is not completed by anything
            let mut c = client_of(true, b"c");
            let n = rt::pick(m.len());
            c.send(&m[..n]);
            settle();
            rt::check(s.quiet(), "an incomplete packet was dispatched");
            if n > 0 {
                rt::check(c.p.released(), "a connection goes on after an incomplete packet");
            }
            c.send(&m[n..]);
            settle();
            rt::check(s.quiet(), "an incomplete packet was dispatched");
        }
        _ => {
            // arbitrary decrypted bytes: exactly the packet they hold is taken
            let n = (rt::param() % 100) as usize;
            let mut c = client_of(true, b"c");
            let mut b = rt::bytes(n);
            b[0] = 0x30;
            c.send(&b);
            settle();
            let got = s.packets();
            match decode(&b) {
                R::Ok(p, k) if k == n => {
                    rt::cover("packet");
                    rt::assume(p.s.is_empty() || p.s[0] != b'$');
                    let mut refuse = p.flags & 0x0f != 0;
                    for (k, _) in &p.props {
                        refuse |= *k == 0x02 || *k == 0x23 || *k == 0x0b;
                    }
                    if !refuse {
                        only(&got, &p, "an encrypted packet was not dispatched", "the dispatched packet is not the one that was encrypted");
                    }
                }
                R::Ok(..) => rt::check(got.len() <= 1, "one message was dispatched as several packets"),
                _ => {
                    rt::cover("no packet");
                    rt::check(got.is_empty(), "something that is not a packet was dispatched");
                }
            }
        }
    }
}

// ---- S21 ----------------------------------------------------------------------------------------
/// Any size of the dispatcher queue works, under every schedule within the budget.
/// param = 10*budget + size in elements (0: less than one)
fn queue() {
    let mut cf = cfg();
    let n = (rt::param() % 10) as usize;
    cf.dispatcher_queue_size = if n == 0 { [0, 1, 16][rt::pick(3)] } else { n * 1000 };
    let _w = start(cf);
    let mut s = client(b"s");
    s.subscribe(b"t", 0);
    let p = [client(b"p"), client(b"q"), client(b"r")];
    sim::set_budget((rt::param() / 10) as usize);
    for i in 0..2u8 {
        for (k, c) in p.iter().enumerate() {
            c.push(&encode(&publish_m(b"t", &[k as u8, i])));
        }
    }
    settle();
    sim::set_budget(0);
    let got = s.packets();
    rt::check(got.len() == 6, "messages are lost when the dispatcher queue is small");
    let mut next = [0u8; 3];
    for m in &got {
        let k = m.payload[0] as usize;
        rt::check(m.payload.len() == 2 && k < 3, "the delivered message differs from the published one");
        rt::check(m.payload[1] == next[k], "messages of one publisher are repeated or out of order when the dispatcher queue is small");
        next[k] += 1;
    }
}
/// Accepting a connection fails: the listeners carry on.
fn accept() {
    let w = start(both(Permeability::Permissive));
    let e = ENCRYPTION && rt::pick(2) == 1;
    sim::set_budget(rt::param() as usize);
    let c = if e { Conn::noise_raw() } else { Conn::plain() };
    for _ in 0..1 + rt::pick(2) {
        tokio::net::fail_accept(if e { noise_addr() } else { plain_addr() });
    }
    settle();
    sim::set_budget(0);
    let mut a = client_of(e, b"a");
    a.subscribe(b"t", 0);
    rt::check(w.registered(b"a") & !c.p.closed(), "a listener does not survive a failed accept");
}
/// Messages around the size of a noise message (65535 bytes), to an encrypted and a plain subscriber.
fn large() {
    let mut cf = both(Permeability::Permissive);
    cf.max_packet_size = 70000;
    cf.dispatcher_queue_size = 100000;
    let w = start(cf);
    let mut e = client_of(true, b"e");
    let mut s = client(b"s");
    let mut p = client(b"p");
    e.subscribe(b"t", 0);
    s.subscribe(b"t", 0);
    // 1 + 3 + 2 + 1 + 1 around the payload
    let n = 65519 - 8 - 2 + rt::pick(5);
    let x = rt::u8();
    let mut pl = vec![b'x'; n];
    pl[n - 1] = x;
    let m = publish_m(b"t", &pl);
    let raw = encode(&m);
    p.send(&raw);
    settle();
    only(&s.packets(), &m, "a large message was not delivered", "the delivered message differs from the published one");
    let got = e.packets();
    if raw.len() <= 65519 {
        rt::cover("fits");
        only(&got, &m, "a message that fits was not delivered", "the delivered message differs from the published one");
    } else {
        rt::cover("too large");
        rt::check(got.is_empty(), "a message was delivered in part");
    }
    rt::check(!e.p.closed() & w.registered(b"e"), "a large message disconnects its receiver");
    p.publish(b"t", b"y");
    only(&e.packets(), &publish_m(b"t", b"y"), "a client is not served after a large message", "the delivered message differs from the published one");
}

// ---- S22 ----------------------------------------------------------------------------------------
/// The packets of one client take effect in the order it sends them, whatever else goes on, and are
/// answered in that order. param = 100*budget + 10*variant + encrypted
fn order() {
    let p = rt::param();
    let e = p % 10 == 1;
    let v = p / 10 % 10;
    let _w = start(both(Permeability::Permissive));
    let mut o = client(b"o");
    o.subscribe(b"#", 0);
    let mut c = if v == 0 { Conn::make(e) } else { client_of(e, b"c") };
    let mut d = client(b"d");
    let x = rt::bytes(3);
    sim::set_budget((p / 100) as usize);
    // each with the packets it is to be answered with
    let sub = |f: &[u8], o: u8, id: u16| encode(&subscribe_m(id, &[(f.to_vec(), 0x20 | o)]));
    let say = |t: &[u8], i: usize| encode(&publish_m(t, &x[i..i + 1]));
    let mut want: Vec<(u8, u64)> = vec![]; // type, and identifier or payload
    let mut steps: Vec<Vec<u8>> = vec![];
    match v {
        0 => {
            steps.push(encode(&connect_m(b"c")));
            want.push((CONNACK, 0));
            steps.push(sub(b"t", 0, 1));
            want.push((SUBACK, 1));
            steps.push(say(b"t", 0));
            want.push((PUBLISH, x[0] as u64));
        }
        1 => {
            // before the subscription, under it, and after NO_LOCAL has been added
            steps.push(say(b"t", 0));
            steps.push(sub(b"t", 0, 1));
            want.push((SUBACK, 1));
            steps.push(say(b"t", 1));
            want.push((PUBLISH, x[1] as u64));
            steps.push(sub(b"t", 4, 2));
            want.push((SUBACK, 2));
            steps.push(say(b"t", 2));
        }
        2 => {
            steps.push(sub(b"t/+", 0, 1));
            want.push((SUBACK, 1));
            steps.push(encode(&empty(PINGREQ)));
            want.push((DISCONNECT, 0));
            steps.push(sub(b"u/#", 0, 2));
            want.push((SUBACK, 2));
            steps.push(say(b"u/v", 1));
            want.push((PUBLISH, x[1] as u64));
        }
        _ => {
            // all in one segment, or cut anywhere
            for i in 0..3u16 {
                steps.push(sub(b"t", 0, i + 1));
                want.push((SUBACK, i as u64 + 1));
                steps.push(say(b"t", i as usize));
                want.push((PUBLISH, x[i as usize] as u64));
            }
        }
    }
    if v >= 3 && !e {
        let all = steps.concat();
        let k = rt::pick(all.len());
        c.push(&all[..k]);
        d.push(&say(b"w", 0));
        c.push(&all[k..]);
    } else {
        for s in &steps {
            c.send(s);
        }
        d.push(&say(b"w", 0));
    }
    settle();
    sim::set_budget(0);
    let got = c.packets();
    rt::check(got.len() == want.len(), "the packets of a client were not answered and delivered as they were sent");
    for (g, (ty, n)) in got.iter().zip(&want) {
        rt::check(g.ty == *ty, "the packets of a client took effect in another order than they were sent");
        match *ty {
            SUBACK => rt::check(g.id == Some(*n as u16), "the packets of a client took effect in another order than they were sent"),
            PUBLISH => rt::check(g.payload.len() == 1 && g.payload[0] as u64 == *n, "the packets of a client took effect in another order than they were sent"),
            _ => {}
        }
    }
    let mut mine = vec![];
    for m in o.packets() {
        if !same(&m.s, b"w") {
            mine.push(m.payload[0]);
        }
    }
    let sent: &[u8] = match v {
        0 => &x[..1],
        2 => &x[1..2],
        _ => &x[..],
    };
    rt::check(same(&mine, sent), "messages of a client were lost or delivered out of order");
}

// ---- S23 ----------------------------------------------------------------------------------------
/// Any combination of listeners works, and a server that cannot start leaves nothing behind.
/// param = 10*budget + (0: any addresses, 1: one of them is taken)
fn listeners() {
    let p = rt::param();
    let mut cf = both(Permeability::Permissive);
    let k = rt::pick(if !ENCRYPTION { 3 } else if p % 10 == 0 { 5 } else { 3 });
    let plain = cf.mqtt_socketaddr;
    match k {
        0 => {}
        1 => set_noise(&mut cf, None),
        2 => cf.mqtt_socketaddr = None,
        3 => {
            cf.mqtt_socketaddr = None;
            set_noise(&mut cf, None);
        }
        _ => set_noise(&mut cf, plain), // one address for both cannot work
    }
    let have = [cf.mqtt_socketaddr.is_some(), get_noise(&cf).is_some()];
    let mut fail = k == 4;
    let mut other = None;
    let mut taken = 9;
    if p % 10 == 1 {
        taken = rt::pick(2);
        other = sim::block_on(tokio::net::TcpListener::bind(if taken == 0 { plain_addr() } else { noise_addr() }), POLLS);
        fail |= have[taken];
    }
    sim::set_budget((p / 10) as usize);
    let s = match sim::block_on(MqttServer::new(cf), POLLS) {
        Some(s) => s,
        None => rt::fail("the start of the server does not return"),
    };
    let from = std::net::SocketAddr::from(([10, 0, 0, 9], 9));
    let listens = |i: usize| i != taken && tokio::net::dial(if i == 0 { plain_addr() } else { noise_addr() }, from).is_some();
    match s {
        Err(_) => {
            rt::cover("failed");
            rt::check(fail, "the server does not start although its addresses are available");
            settle();
            rt::check(sim::live() == 0, "a task of a server that failed to start is still running");
            rt::check(!listens(0) & !listens(1), "a server that failed to start is listening");
        }
        Ok(s) => {
            rt::cover("started");
            rt::check(!fail, "the server starts although it cannot listen as configured");
            settle();
            sim::set_budget(0);
            for i in 0..2 {
                rt::check(i == taken || listens(i) == have[i], "the server does not listen where it is configured to");
            }
            settle();
            for i in 0..2 {
                if have[i] {
                    let mut a = client_of(i == 1, b"a");
                    a.subscribe(b"t", 0);
                    let mut b = client_of(i == 1, b"b");
                    b.publish(b"t", b"x");
                    only(&a.packets(), &publish_m(b"t", b"x"), "a message was not delivered", "the delivered message differs from the published one");
                }
            }
            sim::set_budget((p / 10) as usize);
            rt::check(sim::block_on(s.shutdown(), POLLS).is_some(), "shutting down does not finish");
            settle();
            rt::check(sim::live() == 0, "a task is still running after the shutdown");
            rt::check(!listens(0) & !listens(1), "the server still listens after the shutdown");
        }
    }
    drop(other);
}

macro_rules! harnesses {
    ($($name:ident => $f:ident),* $(,)?) => {
        $(#[no_mangle] #[inline(never)] pub extern "C" fn $name() { $f() })*
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            match a.as_str() {
                $(stringify!($name) => $name(),)*
                _ => panic!("no such harness"),
            }
            rt::end()
        }
    };
}
harnesses! {
    h_matching => matching,
    h_overlap => overlap,
    h_history => history,
    h_concurrent => concurrent,
    h_content => content,
    h_content_large => content_large,
    h_clean => clean,
    h_fanout => fanout,
    h_strict => strict,
    h_handshake => handshake,
    h_first => first,
    h_hostile => hostile,
    h_size => size,
    h_segments => segments,
    h_registry => registry,
    h_takeover => takeover,
    h_fresh => fresh,
    h_gone => gone,
    h_shutdown => shutdown,
    h_suback => suback,
    h_timeout => timeout,
    h_unsupported => unsupported,
    h_refused_late => refused_late,
    h_slow => slow,
    h_integrity => integrity,
    h_queue => queue,
    h_accept => accept,
    h_large => large,
    h_order => order,
    h_listeners => listeners,
    h_deep => deep,
    h_many => many,
    h_backlog => backlog,
    h_crowd => crowd,
    h_last => last,
    h_suback_many => suback_many,
    h_requests => requests,
    h_shutdown_many => shutdown_many,
    h_failures => failures,
    h_props_many => props_many,
    h_two => two,
}
