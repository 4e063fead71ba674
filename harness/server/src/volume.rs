//! The same properties at sizes: many clients, messages, levels, filters and connections. What is
//! symbolic here is content and the place where something happens, so that all of these are one query.
use super::*;
use apiformes_server_lib::MqttServer;

const MANY: u64 = 400_000; // polls without rest that count as a busy loop, at these sizes
fn rest() {
    rt::check(sim::run(MANY), "a task keeps running without anything to do (busy loop)");
}
fn name(p: u8, i: usize) -> Vec<u8> {
    vec![p, b'a' + (i / 26) as u8, b'a' + (i % 26) as u8]
}
fn all_of(v: &[Vec<u8>]) -> Vec<u8> {
    v.concat()
}

// ---- S01 ----------------------------------------------------------------------------------------
/// Deep and long: a prefix of levels in front of a symbolic rest. param = 1000*shape + 10*n + m:
/// 0 sixteen levels, 1 the same with + in the filter, 2 one long level, 3 a level of two-byte
/// characters, 4 empty levels
pub fn deep() {
    let p = rt::param();
    let (n, m) = ((p / 10 % 10) as usize, (p % 10) as usize);
    let mut c = cfg();
    c.max_packet_size = 4096;
    let _w = start(c);
    let mut a = client(b"a");
    let mut b = client(b"b");
    let (mut f, mut t): (Vec<u8>, Vec<u8>) = match p / 1000 {
        0 | 1 => {
            let mut f = vec![];
            let mut t = vec![];
            for i in 0..16u8 {
                t.extend_from_slice(&[b'a' + i, b'/']);
                f.extend_from_slice(&[if p / 1000 == 1 && i % 3 != 2 { b'+' } else { b'a' + i }, b'/']);
            }
            (f, t)
        }
        2 => {
            let mut t = vec![b'x'; 300];
            t.push(b'/');
            (t.clone(), t)
        }
        3 => {
            let mut t = "äöü€😀".as_bytes().to_vec();
            t.push(b'/');
            (t.clone(), t)
        }
        _ => (vec![b'/'; 12], vec![b'/'; 12]),
    };
    let base = f.clone();
    f.extend_from_slice(&printable(n));
    t.extend_from_slice(&printable(m));
    rt::assume(filter_ok(&f));
    rt::assume(!has_wildcard(&t));
    a.subscribe(&f, 0);
    let x = rt::bytes(1);
    b.publish(&t, &x);
    // the parent of all that
    b.publish(&base[..1], &x);
    let p = a.packets();
    if matches(&f, &t) {
        rt::cover("match");
        only(&p, &publish_m(&t, &x), "a matching message was not delivered", "the delivered message differs from the published one");
    } else {
        rt::cover("no match");
        rt::check(p.is_empty(), "a message was delivered to a filter that does not match");
    }
}

// ---- S03, S12, S14 ------------------------------------------------------------------------------
/// Many clients with many subscriptions each; one of the clients ends its connection, is removed, or
/// gives up one filter; everything else stays. param = 10*kind + encrypted(the one that goes)
pub fn many() {
    let (n, k) = (9, 7); // clients, filters of each
    let p = rt::param();
    let mut cf = both(Permeability::Permissive);
    cf.max_packet_size = 4096;
    let w = start(cf);
    let mut c: Vec<Conn> = vec![];
    let mut ids = vec![];
    let mut names = vec![];
    for j in 0..k {
        names.push(vec![b'f', b'0' + j as u8]);
    }
    for i in 0..n {
        let id = name(b'c', i);
        let mut x = Conn::make(p % 10 == 1 && i % 2 == 1);
        x.send(&encode(&connect_m(&id)));
        rest();
        let mut f: Vec<(Vec<u8>, u8)> = vec![];
        for j in 0..k {
            // client i has all filters but number i
            if j != i % k {
                f.push((names[j].clone(), 0x20));
            }
        }
        x.send(&encode(&subscribe_m(5, &f)));
        rest();
        let got = x.packets();
        rt::check(got.len() == 2 && got[1].ty == SUBACK && got[1].codes.len() == k - 1, "a client of many is not served");
        c.push(x);
        ids.push(id);
    }
    let mut q = client(b"q");
    let who = rt::pick(n);
    let which = rt::pick(k);
    match p / 10 {
        0 => c[who].p.close(false),
        1 => c[who].p.reset(),
        2 => wait(w.s.get_topics().unsubscribe_all(arc(&ids[who]))),
        3 => unsubscribe(&w, &ids[who], &names[which]),
        _ => {
            // another connection takes its place
            let mut x = Conn::make(p % 10 == 1);
            x.send(&encode(&connect_m(&ids[who])));
            rest();
            rt::check(x.packets().len() == 1, "a client that connects again is not served");
            rt::check(c[who].p.released(), "the old connection of a client that connected again is still open");
            c[who] = x;
        }
    }
    rest();
    let gone = p / 10 <= 1;
    let have = w.clients();
    rt::check(have.len() == if gone { n } else { n + 1 }, "the registered clients are not the connected ones");
    for i in 0..n {
        rt::check(have.contains(&ids[i]) == !(gone && i == who), "the registered clients are not the connected ones");
    }
    // to every filter
    for j in 0..k {
        q.send(&encode(&publish_m(&names[j], &[j as u8])));
        rest();
    }
    for i in 0..n {
        let got = if gone && i == who { vec![] } else { c[i].packets() };
        let mut want = vec![];
        for j in 0..k {
            let lost = i == who && (p / 10 != 3 || j == which);
            if j != i % k && !lost {
                want.push(j as u8);
            }
        }
        rt::check(got.len() == want.len(), "removing one subscription of many changed what others get");
        for (a, b) in got.iter().zip(&want) {
            rt::check(same(&a.payload, &[*b]), "removing one subscription of many changed what others get");
        }
    }
}

// ---- S06, S19, S21 ------------------------------------------------------------------------------
/// Very many messages: every subscriber gets all of them, in order, also one that starts to read late.
/// param = 100*(dispatcher queue: 0 the default, 1 one element) + variant: 0 all read, 1 one reads late, 2 late and encrypted
pub fn backlog() {
    let p = rt::param();
    let n: usize = if p / 100 >= 2 { 300 } else { 2500 };
    let mut cf = both(Permeability::Permissive);
    cf.dispatcher_queue_size = if p / 100 == 1 { 1 } else { 1 << 20 };
    let _w = start(cf);
    let mut late = client_of(p % 10 == 2, b"late");
    let mut s = client(b"s");
    late.subscribe(b"t", 0);
    s.subscribe(b"t", 0);
    let publisher = client(b"p");
    let x = rt::bytes(2);
    if p % 10 != 0 {
        // takes this much and then nothing
        late.p.window(Some(rt::pick(3)));
    }
    let mut all = vec![];
    for i in 0..n {
        let v = [(i >> 8) as u8, i as u8, x[i % 2]];
        all.push(encode(&publish_m(b"t", &v)));
    }
    for part in all.chunks(500) {
        publisher.push(&part.concat());
        rest();
    }
    let want = all_of(&all);
    rt::check(same(&s.p.take(), &want), "a subscriber did not get every message exactly once and in order");
    late.p.window(None);
    rest();
    if p % 10 == 2 {
        let got = late.packets();
        rt::check(got.len() == n, "a client that reads late did not get every message once");
        for (i, m) in got.iter().enumerate() {
            rt::check(same(&encode(m), &all[i]), "a client that reads late got messages changed or out of order");
        }
    } else {
        rt::check(same(&late.p.take(), &want), "a client that reads late did not get every message exactly once and in order");
    }
}
/// Many publishers and subscribers. param: 1 a dispatcher queue of one element
pub fn crowd() {
    let (np, ns, k) = (6, 12, 12);
    let mut cf = cfg();
    if rt::param() == 1 {
        cf.dispatcher_queue_size = 1;
    }
    let _w = start(cf);
    let mut subs = vec![];
    for i in 0..ns {
        let mut c = client(&name(b's', i));
        c.subscribe(if i % 3 == 0 { b"t/+" } else if i % 3 == 1 { b"#" } else { b"t/x" }, 0);
        subs.push(c);
    }
    let x = rt::bytes(1);
    let pubs: Vec<Conn> = (0..np).map(|i| client(&name(b'p', i))).collect();
    for j in 0..k {
        for (i, c) in pubs.iter().enumerate() {
            let v = encode(&publish_m(b"t/x", &[i as u8, j as u8, x[0]]));
            // some in two pieces
            let at = if (i + j) % 4 == 0 { 5 } else { v.len() };
            c.push(&v[..at]);
            if at < v.len() {
                c.push(&v[at..]);
            }
        }
        if j % 5 == 4 {
            rest();
        }
    }
    rest();
    let mut first: Option<Vec<u8>> = None;
    for c in subs.iter_mut() {
        let got = c.p.take();
        let one = encode(&publish_m(b"t/x", &[0, 0, 0])).len();
        rt::check(got.len() == np * k * one, "a subscriber did not get every message exactly once");
        let mut next = vec![0u8; np];
        for m in got.chunks(one) {
            let i = m[one - 3] as usize;
            rt::check(i < np && m[one - 2] == next[i] && m[one - 1] == x[0], "messages of one publisher arrived changed or out of order");
            next[i] += 1;
        }
        match &first {
            None => first = Some(got),
            Some(_) => {}
        }
    }
}

// ---- S16, S22 -----------------------------------------------------------------------------------
/// A SUBSCRIBE with many filters, one of which (any) has other options (any).
pub fn suback_many() {
    let n = rt::param() as usize;
    let mut cf = cfg();
    cf.max_packet_size = 8192;
    let _w = start(cf);
    let mut c = client(b"c");
    let which = rt::pick(n);
    let o = rt::u8();
    rt::assume(o & 0xc0 == 0 && o & 3 != 3 && o & 0x30 != 0x30);
    let topics: Vec<(Vec<u8>, u8)> = (0..n).map(|i| (name(b't', i), if i == which { o } else { 0x20 })).collect();
    c.send(&encode(&subscribe_m(9, &topics)));
    rest();
    let got = c.packets();
    rt::check(got.len() == 1 && got[0].ty == SUBACK && got[0].id == Some(9), "a SUBSCRIBE was not answered by one SUBACK");
    rt::check(got[0].codes.len() == n, "SUBACK does not answer every filter");
    let grant = o & 3 == 0 && o & 0x30 == 0x20;
    for i in 0..n {
        rt::check(got[0].codes[i] == if i != which || grant { 0 } else { 0x83 }, "a filter got another answer than its options deserve");
    }
    let mut p = client(b"p");
    for i in 0..n {
        p.send(&encode(&publish_m(&topics[i].0, b"x")));
    }
    rest();
    let got = c.packets();
    rt::check(got.len() == if grant { n } else { n - 1 }, "a filter is not served as its answer says");
}
/// One client sends a long sequence of requests at once: all answers in order.
pub fn requests() {
    let n = 30;
    let e = rt::param() == 1;
    let mut cf = both(Permeability::Permissive);
    cf.max_packet_size = 1024;
    let _w = start(cf);
    let mut c = client_of(e, b"c");
    let x = rt::bytes(1);
    let odd = rt::pick(n); // in this place: something not supported
    let mut all = vec![];
    for i in 0..n {
        let t = name(b't', i);
        all.push(encode(&subscribe_m(100 + i as u16, &[(t.clone(), 0x20)])));
        all.push(encode(&publish_m(&t, &[i as u8, x[0]])));
        if i == odd {
            all.push(vec![0xc0, 0]);
        }
    }
    if e {
        for m in &all {
            c.send(m);
        }
    } else {
        c.push(&all_of(&all));
    }
    rest();
    let got = c.packets();
    rt::check(got.len() == 2 * n + 1, "not every packet of a client was answered once");
    let mut k = 0;
    for i in 0..n {
        rt::check(got[k].ty == SUBACK && got[k].id == Some(100 + i as u16), "answers are out of order");
        rt::check(got[k + 1].ty == PUBLISH && same(&got[k + 1].payload, &[i as u8, x[0]]), "a message published after a SUBSCRIBE was not delivered by it");
        k += 2;
        if i == odd {
            rt::check(got[k].ty == DISCONNECT && got[k].reason == 0x83, "answers are out of order");
            k += 1;
        }
    }
}

// ---- S15, S09, S21 ------------------------------------------------------------------------------
/// Shutting down with many connections, one of which (any) is in another stage.
pub fn shutdown_many() {
    let n = 14;
    let w = start(both(Permeability::Permissive));
    let which = rt::pick(n);
    let kind = rt::param() as usize;
    let mut conns = vec![];
    for i in 0..n {
        let s = if i == which { kind } else { 1 };
        let mut c = match s {
            3 | 4 => Conn::noise(),
            5 => Conn::noise_raw(),
            _ => Conn::plain(),
        };
        if s == 1 || s == 2 || s == 4 {
            c.connect(&name(b'c', i));
            c.subscribe(b"t", 0);
        }
        if s == 2 {
            c.p.window(Some(1));
        }
        conns.push(c);
    }
    conns[(which + 1) % n].publish(b"t", b"x");
    let World { s } = w;
    rt::check(sim::block_on(s.shutdown(), MANY).is_some(), "shutting down does not finish");
    for c in &conns {
        rt::check(c.p.released(), "a connection is still open after the shutdown");
    }
    rest();
    rt::check(sim::live() == 0, "a task is still running after the shutdown");
}
/// Many connections that fail in some way (param), then one that does not.
pub fn failures() {
    let n = 130;
    let kind = rt::param();
    let w = start(both(Permeability::Permissive));
    let mut s = client(b"s");
    s.subscribe(b"t", 0);
    let base = sim::live();
    let x = rt::bytes(1);
    for i in 0..n {
        match kind {
            0 => {
                // closed before CONNECT
                let c = Conn::plain();
                c.p.close(true);
            }
            1 => {
                let c = Conn::plain();
                c.push(&[x[0], 0xff, 0xff, 0xff, 0xff]);
                rest();
                rt::check(c.p.released(), "the connection of a client that sends garbage is still open");
            }
            2 => {
                let c = Conn::noise_raw();
                c.push(&[0, 0, 0, 3, 1, 2, x[0]]);
                rest();
                rt::check(c.p.released(), "the connection of a client that sends garbage is still open");
            }
            3 => {
                let c = Conn::plain();
                c.push(&encode(&connect_m(&name(b'c', i))));
                rest();
                c.p.reset();
            }
            4 => {
                let mut m = connect_m(b"x");
                m.aflags = 0; // not a clean start
                let c = Conn::plain();
                c.push(&encode(&m));
                rest();
                rt::check(c.p.released(), "the connection of a refused client is still open");
            }
            5 => {
                let c = Conn::noise();
                c.p.close(true);
            }
            _ => {
                tokio::net::fail_accept(if ENCRYPTION && i % 2 == 0 { noise_addr() } else { plain_addr() });
            }
        }
        rest();
    }
    rt::check(sim::live() == base, "tasks of ended connections are left");
    rt::check(w.clients().len() == 1, "clients that went away are still registered");
    for e in 0..1 + ENCRYPTION as usize {
        let mut p = client_of(e == 1, b"p");
        p.publish(b"t", &x);
        only(&s.packets(), &publish_m(b"t", &x), "after many failed connections a message is not delivered", "the delivered message differs from the published one");
    }
}

// ---- S14 ----------------------------------------------------------------------------------------
/// The only client there is leaves, in any way and again and again: nothing of it remains, and the
/// next one is served. param = 100*event + 10*budget + encrypted
pub fn last() {
    let p = rt::param();
    let e = p % 10 == 1;
    let w = start(both(Permeability::Permissive));
    let base = sim::live();
    let t = level(1);
    let x = rt::bytes(1);
    for i in 0..3 {
        let id = if i == 1 { b"d" } else { b"c" };
        let mut c = client_of(e, id);
        rt::check(w.clients().len() == 1 && w.registered(id), "the registered clients are not the connected ones");
        // by the second connection nothing of the first may be left
        if i > 0 {
            c.publish(&t, &x);
            rt::check(c.quiet(), "a subscription outlives its connection");
        }
        c.subscribe(&t, 0);
        c.publish(&t, &x);
        only(&c.packets(), &publish_m(&t, &x), "a message was not delivered", "the delivered message differs from the published one");
        if i == 1 {
            sim::set_budget((p / 10 % 10) as usize);
        }
        match p / 100 {
            0 => c.p.close(false),
            1 => c.p.close(true),
            2 => c.p.reset(),
            3 => c.push(&[0xff; 9]),
            4 => {
                c.push(&encode(&publish_m(&t, &x)));
                c.p.close(false);
            }
            _ => {
                // in the middle of a packet
                let b = encode(&publish_m(&t, &x));
                c.p.push(&b[..if i == 1 { rt::pick(b.len()) } else { 1 }]);
                c.p.reset();
            }
        }
        settle();
        sim::set_budget(0);
        rt::check(w.clients().is_empty(), "a client that went away is still registered");
        rt::check(c.p.released(), "the connection of a client that went away is still open");
        rt::check(sim::live() == base, "tasks of an ended connection are left");
    }
}

// ---- S05 ----------------------------------------------------------------------------------------
/// A PUBLISH with many properties.
pub fn props_many() {
    let mut cf = cfg();
    cf.max_packet_size = 65535;
    let _w = start(cf);
    let mut s = client(b"s");
    s.subscribe(b"t", 0);
    let mut m = publish_m(b"t", &rt::bytes(2));
    let n = rt::param() as usize;
    for i in 0..n {
        m.props.push((0x26, V::Str(vec![b'a' + (i % 26) as u8, b'0' + (i / 26) as u8])));
    }
    let k = rt::pick(n);
    let l = level(1);
    m.props[k] = (0x26, V::Str(l));
    m.props.insert(n / 2, (0x03, V::Str(b"text/plain".to_vec())));
    let mut p = client(b"p");
    p.send(&encode(&m));
    rest();
    only(&s.packets(), &m, "a message with many properties was not delivered", "the delivered message differs from the published one");
}

// ---- S28 ----------------------------------------------------------------------------------------
/// Two servers in one process: clients of the same name and subscriptions to the same topic on both
/// have nothing to do with each other, and one goes on when something happens to the other.
/// param = 100*event + 10*budget + encrypted
pub fn two() {
    let p = rt::param();
    let e = p % 10 == 1;
    let addr = |i: u16| std::net::SocketAddr::from(([127, 0, 0, 1], 2000 + i));
    let mut servers = vec![];
    for i in 0..2 {
        let mut c = cfg();
        if e {
            c.mqtt_socketaddr = None;
            set_noise(&mut c, Some(addr(i)));
        } else {
            c.mqtt_socketaddr = Some(addr(i));
        }
        servers.push(match sim::block_on(MqttServer::new(c), POLLS) {
            Some(Ok(s)) => Some(s),
            _ => rt::fail("a second server does not start"),
        });
    }
    settle();
    let make = |i: u16, id: &[u8]| -> Conn {
        let p = match tokio::net::dial(addr(i), std::net::SocketAddr::from(([10, 0, 0, 3], 7000 + i))) {
            Some(p) => p,
            None => rt::fail("a server does not listen any more"),
        };
        let mut c = Conn::over(p, e);
        c.connect(id);
        c
    };
    let mut subs = vec![make(0, b"c"), make(1, b"c")];
    let mut pubs = vec![make(0, b"p"), make(1, b"p")];
    let f = level(1);
    for s in subs.iter_mut() {
        s.subscribe(&f, 0);
    }
    let x = rt::bytes(1);
    let t = level(1);
    for i in 0..2 {
        rt::check(!subs[0].p.closed() && !subs[1].p.closed(), "a client of one server took the place of one of another");
        pubs[i].publish(&t, &x);
        let got = subs[i].packets();
        if same(&t, &f) {
            only(&got, &publish_m(&t, &x), "a message was not delivered", "the delivered message differs from the published one");
        } else {
            rt::check(got.is_empty(), "a message was delivered to a filter that does not match");
        }
        rt::check(subs[1 - i].quiet(), "a message was delivered to a client of another server");
    }
    let gone = rt::pick(2);
    let left = 1 - gone;
    sim::set_budget((p / 10 % 10) as usize);
    match p / 100 {
        0 => {
            let s = servers[gone].take().unwrap();
            rt::check(sim::block_on(s.shutdown(), POLLS).is_some(), "shutting down does not finish");
            settle();
            rt::check(subs[gone].p.released() && pubs[gone].p.released(), "a connection is still open after the shutdown");
            rt::check(tokio::net::dial(addr(gone as u16), std::net::SocketAddr::from(([10, 0, 0, 4], 1))).is_none(), "the server still listens after the shutdown");
        }
        1 => subs[gone].p.reset(),
        2 => wait(servers[gone].as_ref().unwrap().get_topics().unsubscribe_all(arc(b"c"))),
        _ => {
            // garbage
            subs[gone].push(&rt::bytes(2));
            subs[gone].push(&[0xff; 9]);
        }
    }
    settle();
    sim::set_budget(0);
    rt::check(!subs[left].p.closed() && !pubs[left].p.closed(), "what happens to one server ends connections of another");
    let mut names = match sim::block_on(servers[left].as_ref().unwrap().clients(), POLLS) {
        Some(v) => v.iter().map(|x| x.to_string()).collect::<Vec<String>>(),
        None => rt::fail("clients() does not return"),
    };
    names.sort();
    rt::check(names == ["c", "p"], "the registered clients are not the connected ones");
    let mut q = make(left as u16, b"q");
    q.publish(&f, &x);
    only(&subs[left].packets(), &publish_m(&f, &x), "what happens to one server stops another", "the delivered message differs from the published one");
    if servers[gone].is_none() {
        // start it again: it knows nothing of before
        let mut c = cfg();
        if e {
            c.mqtt_socketaddr = None;
            set_noise(&mut c, Some(addr(gone as u16)));
        } else {
            c.mqtt_socketaddr = Some(addr(gone as u16));
        }
        servers[gone] = match sim::block_on(MqttServer::new(c), POLLS) {
            Some(Ok(s)) => Some(s),
            _ => rt::fail("a server does not start on the address of one that was shut down"),
        };
        settle();
        let mut c = make(gone as u16, b"c");
        let mut q = make(gone as u16, b"q");
        q.publish(&f, &x);
        rt::check(c.quiet(), "a new server delivers by the subscriptions of an old one");
        c.subscribe(&f, 0);
        q.publish(&f, &x);
        only(&c.packets(), &publish_m(&f, &x), "a new server does not deliver", "the delivered message differs from the published one");
    }
    if let Some(s) = servers[left].take() {
        rt::check(sim::block_on(s.shutdown(), POLLS).is_some(), "shutting down does not finish");
    }
    if let Some(s) = servers[gone].take() {
        rt::check(sim::block_on(s.shutdown(), POLLS).is_some(), "shutting down does not finish");
    }
    settle();
    rt::check(sim::live() == 0, "a task is still running after the shutdown");
}
