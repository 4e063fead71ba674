use crate::client::Client;
use crate::model::*;
use crate::world::*;
use apiformes_packet::prelude::Packet;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::{net, sim};

thread_local!(static LINES: RefCell<Vec<String>> = RefCell::new(Vec::new()));
/// what the program prints
pub fn line(s: String) {
    LINES.with(|l| l.borrow_mut().push(s))
}

/// std's clock is the simulated one
#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}
#[no_mangle]
pub extern "C" fn clock_gettime(_: i32, t: *mut Timespec) -> i32 {
    let d = sim::clock();
    unsafe { *t = Timespec { s: d.as_secs() as i64, ns: d.subsec_nanos() as i64 } };
    0
}

// ---- S24 ----------------------------------------------------------------------------------------
/// The client of the benchmark gets every packet once and whole however the bytes arrive, and learns
/// that the connection has ended. param = 10*variant + way it ends (0: stays, 1: closed, 2: reset,
/// 3: closed within a packet)
fn receive() {
    let (v, e) = (rt::param() / 10, rt::param() % 10);
    net::answer();
    let x = rt::bytes(2);
    let mut want: Vec<M> = vec![];
    match v {
        0 | 1 => {
            want.push(publish_m(b"t", &x[..1]));
            let mut s = empty(SUBACK);
            s.id = Some(7);
            s.codes = vec![0];
            want.push(s);
            want.push(publish_m(b"ab", &x));
        }
        _ => {
            // longer than the buffers of the client
            let mut long = vec![b'x'; 300];
            long[298] = x[0];
            want.push(publish_m(b"t", &long));
            want.push(publish_m(b"t", &x));
        }
    }
    let mut all = vec![];
    for m in &want {
        all.extend_from_slice(&encode(m));
    }
    let cut_last = e == 3;
    if cut_last {
        let m = encode(want.last().unwrap()).len();
        let k = 1 + rt::pick(m - 1);
        all.truncate(all.len() - k);
        want.pop();
    }
    let got: Arc<Mutex<Vec<Option<Packet>>>> = Arc::new(Mutex::new(vec![]));
    let g = got.clone();
    tokio::spawn(async move {
        let mut c = match Client::new("127.0.0.1:1883").await {
            Ok(c) => c,
            Err(_) => rt::fail("cannot connect"),
        };
        loop {
            match c.recv().await {
                Ok(p) => g.lock().unwrap().push(Some(p)),
                Err(_) => {
                    g.lock().unwrap().push(None);
                    return;
                }
            }
        }
    });
    settle();
    let p = match net::calls().pop() {
        Some(p) => p,
        None => rt::fail("no connection was made"),
    };
    sim::set_budget(1);
    match v {
        0 => {
            // one segment, or cut anywhere, or cut at two places
            let a = rt::pick(all.len() + 1);
            let b = a + rt::pick(all.len() - a + 1);
            p.push(&all[..a]);
            if rt::pick(2) == 1 {
                settle();
            }
            p.push(&all[a..b]);
            p.push(&all[b..]);
        }
        1 => {
            for i in 0..all.len() {
                p.push(&all[i..i + 1]);
            }
        }
        _ => {
            let a = [0, 1, 3, 126, 127, 128, 129, 255, 256, 303, 304, 305][rt::pick(12)];
            let a = a.min(all.len());
            p.push(&all[..a]);
            settle();
            p.push(&all[a..]);
        }
    }
    settle();
    match e {
        1 | 3 => p.close(true),
        2 => p.reset(),
        _ => {}
    }
    settle();
    let g = got.lock().unwrap();
    let n = want.len();
    rt::check(g.len() >= n, "a packet was not received");
    for i in 0..n {
        match &g[i] {
            Some(q) => {
                let mut b: Vec<u8> = vec![];
                q.to_bytes(&mut b);
                rt::check(same(&b, &encode(&want[i])), "another packet was received than sent");
            }
            None => rt::fail("an error although the connection was good"),
        }
    }
    if e == 0 {
        rt::check(g.len() == n, "more was received than sent");
        rt::cover("open");
    } else {
        rt::check(g.len() == n + 1 && g[n].is_none(), "the end of the connection is not reported");
        rt::check(p.released(), "the connection is not given up");
        rt::cover("ended");
    }
}
/// What the client sends arrives whole and in order, however little the peer takes at a time.
fn transmit() {
    net::answer();
    let x = rt::bytes(2);
    let want = vec![publish_m(b"t", &x[..1]), connect_m(b""), publish_m(b"t", &x)];
    let w = want.clone();
    let done: Arc<Mutex<usize>> = Arc::new(Mutex::new(0));
    let d = done.clone();
    tokio::spawn(async move {
        let mut c = match Client::new("127.0.0.1:1883").await {
            Ok(c) => c,
            Err(_) => rt::fail("cannot connect"),
        };
        for m in &w {
            let b = encode(m);
            let mut r = &b[..];
            let p = match Packet::from_bytes(&mut r) {
                Ok(p) => p,
                Err(_) => rt::fail("decoding failed"),
            };
            if c.send(&p).await.is_err() {
                *d.lock().unwrap() = 99;
                return;
            }
            *d.lock().unwrap() += 1;
        }
        std::future::pending::<()>().await;
    });
    // the connection is made, then the window closes before the task goes on
    let mut all = vec![];
    for m in &want {
        all.extend_from_slice(&encode(m));
    }
    let mut got = vec![];
    sim::run(1);
    let mut n = 0;
    let p = loop {
        if let Some(p) = net::calls().pop() {
            break p;
        }
        sim::run(1);
        n += 1;
        rt::check(n < 50, "no connection was made");
    };
    let mut first = Some(rt::pick(all.len()));
    while got.len() < all.len() {
        let k = first.take().unwrap_or(1 + rt::pick(3) * 20);
        p.window(Some(k));
        settle();
        let b = p.take();
        rt::check(b.len() == k.min(all.len() - got.len()), "bytes are held back");
        got.extend_from_slice(&b);
        rt::check(same(&got, &all[..got.len()]), "the bytes sent are not those of the packets");
    }
    settle();
    rt::check(*done.lock().unwrap() == want.len(), "sending does not finish");
    rt::check(p.take().is_empty(), "surplus bytes were sent");
    // a broken connection is reported
    rt::cover("sent");
}

// ---- S25 ----------------------------------------------------------------------------------------
/// A whole run of the benchmark against the broker: it ends, every subscriber gets every message, the
/// delays are kept, and the report is complete. param = 100*budget + 10*delays + size
fn bench() {
    let p = rt::param();
    let (subs, pubs, msgs) = [(1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 1, 3), (2, 2, 1)][(p % 10) as usize];
    let us = Duration::from_micros(1);
    // option, its value, and the shortest and longest time between two messages
    let (opt, val, lo, hi): (&'static str, &str, Duration, Duration) = match p / 10 % 10 {
        0 => ("NoDelay", "", 0 * us, 0 * us),
        1 => ("", "", 1000 * us, 1000 * us),
        2 => ("ConstDelay", "3ms", 3000 * us, 3000 * us),
        3 => ("ConstDelay", "17us", 17 * us, 17 * us),
        4 => ("ConstDelay", "25µs", 25 * us, 25 * us),
        5 => ("ConstDelay", "2s", 2000000 * us, 2000000 * us),
        6 => ("MinMaxDelay", "2ms:5ms", 2000 * us, 5000 * us),
        _ => ("MinMaxDelay", "900us:1s", 900 * us, 1000000 * us),
    };
    let _w = start(cfg());
    let mut spy = Conn::plain();
    spy.connect(b"spy");
    spy.subscribe(b"#", 0);
    let mut args = vec![
        ("Endpoint", "127.0.0.1:1883".to_string()),
        ("Subscribers", format!("{}", subs)),
        ("Publishers", format!("{}", pubs)),
        ("Messages", format!("{}", msgs)),
        ("Topic", "/b/t".to_string()),
    ];
    if opt != "" {
        args.push((opt, val.to_string()));
    }
    clap::set(args);
    let before = sim::live();
    let t0 = sim::clock();
    sim::set_budget((p / 100) as usize);
    let mut h = tokio::spawn(crate::tokio_main());
    let mut n = 0;
    let mut seen = 0usize;
    let mut at = vec![];
    let mut done = false;
    loop {
        settle();
        for m in spy.packets() {
            rt::check(m.ty == PUBLISH && same(&m.s, b"/b/t") && m.payload.len() == 16, "not a message of the benchmark");
            seen += 1;
            at.push(sim::clock() - t0);
        }
        if !done && sim::live() <= before {
            done = true;
        }
        if done {
            break;
        }
        n += 1;
        rt::check(n < 60, "the benchmark does not end");
        match sim::next_timer() {
            Some(d) => sim::advance(d),
            None => rt::fail("the benchmark waits for ever"),
        }
    }
    sim::set_budget(0);
    let _ = &mut h;
    rt::check(seen == pubs * msgs, "not every message was published once");
    // the i-th message of a publisher is not sent before i delays have passed
    for (k, t) in at.iter().enumerate() {
        let i = (k / pubs + 1) as u32;
        rt::check(*t >= lo * i && *t <= hi * (k as u32 + 1), "the delays are not those asked for");
    }
    let l = LINES.with(|l| l.borrow().clone());
    let has = |s: String| l.iter().any(|x| *x == s);
    rt::check(has(format!("Number of concurrent Publishers: {}", pubs)), "report: publishers");
    rt::check(has(format!("Number of concurrent Subscribers: {}", subs)), "report: subscribers");
    rt::check(has(format!("Number of publish messages: {}", msgs)), "report: messages");
    rt::check(has("Benchmarking topic: /b/t".to_string()), "report: topic");
    for s in ["Mean departure rate = ", "Mean arrival rate = ", "Minimum trip time: ", "Maximum trip time: ", "75th percentile trip time: ",
        "90th percentile trip time: ", "99th percentile trip time: "] {
        rt::check(l.iter().any(|x| x.starts_with(s)), "the report is incomplete");
    }
}

/// The report is about what happened: the harness is the broker, and knows how long everything took.
/// param = 100*subscribers + 10*publishers + messages
fn report() {
    let p = rt::param() as usize;
    let (subs, pubs, msgs) = (p / 100 % 10, p / 10 % 10, if p % 10 == 9 { 20 } else { p % 10 });
    let ms = [Duration::from_millis(1), Duration::from_nanos(1_000_000_300), Duration::from_secs(3601)][p / 1000];
    // of many messages all but one take a fixed time
    let odd = if p % 10 == 9 { rt::pick(msgs) } else { 0 };
    let time = |i: usize, k: usize| ms * if p % 10 != 9 || i == odd { 1 + rt::pick(2) as u32 } else { 1 + ((7 * i + k) % 20) as u32 };
    net::answer();
    clap::set(vec![
        ("Endpoint", "127.0.0.1:1883".to_string()),
        ("Subscribers", format!("{}", subs)),
        ("Publishers", format!("{}", pubs)),
        ("Messages", format!("{}", msgs)),
        ("Topic", "/b/t".to_string()),
        ("NoDelay", String::new()),
    ]);
    let before = sim::live();
    let reference = sim::clock();
    tokio::spawn(crate::tokio_main());
    let mut conns: Vec<net::Peer> = vec![];
    // everybody connects; the broker takes its time
    let mut n = 0;
    let mut publishing = Duration::ZERO;
    let mut listening = vec![];
    loop {
        settle();
        for c in net::calls() {
            conns.push(c);
        }
        let mut answered = false;
        for (i, c) in conns.iter().enumerate() {
            let b = c.take();
            if b.is_empty() {
                continue;
            }
            let m = match decode(&b) {
                R::Ok(m, k) if k == b.len() => m,
                _ => rt::fail("not one packet"),
            };
            answered = true;
            if i < subs {
                sim::advance(ms * 700);
            }
            match m.ty {
                CONNECT => {
                    if i >= subs {
                        c.window(Some(0));
                        publishing = sim::clock();
                    }
                    c.push(&encode(&empty(CONNACK)));
                }
                SUBSCRIBE => {
                    rt::check(i < subs && m.topics.len() == 1 && same(&m.topics[0].0, b"/b/t"), "not the subscription of the benchmark");
                    let mut s = empty(SUBACK);
                    s.id = m.id;
                    s.codes = vec![0];
                    c.push(&encode(&s));
                    listening.push(sim::clock());
                }
                _ => rt::fail("neither CONNECT nor SUBSCRIBE"),
            }
        }
        n += 1;
        rt::check(n < 20, "the benchmark does not get connected");
        if !answered && conns.len() == subs + pubs {
            break;
        }
    }
    // rounds
    let mut trips: Vec<Duration> = vec![];
    let mut spent = Duration::ZERO; // sending, of one publisher
    let mut last = vec![Duration::ZERO; subs];
    for k in 0..msgs {
        let w = time(k, 3);
        sim::advance(w);
        let mut all = vec![];
        for c in &conns[subs..] {
            c.window(Some(25));
            settle();
            let b = c.take();
            let m = match decode(&b) {
                R::Ok(m, k) if k == b.len() => m,
                _ => rt::fail("not one message"),
            };
            rt::check(m.ty == PUBLISH && same(&m.s, b"/b/t") && m.payload.len() == 16, "not a message of the benchmark");
            let mut t = [0u8; 16];
            t.copy_from_slice(&m.payload);
            rt::check(u128::from_be_bytes(t) == (publishing - reference).as_nanos(), "the message does not carry the time at which it was sent");
            all.extend_from_slice(&b);
        }
        let start = publishing;
        publishing = sim::clock();
        spent += publishing - start;
        let l = time(k, 0);
        sim::advance(l);
        for i in 0..subs {
            conns[i].push(&all);
            settle();
            for _ in 0..pubs {
                trips.push(sim::clock() - start);
            }
            last[i] = sim::clock();
            if i + 1 < subs {
                sim::advance(ms);
            }
        }
    }
    n = 0;
    while sim::live() > before {
        n += 1;
        rt::check(n < 20, "the benchmark does not end");
        match sim::next_timer() {
            Some(d) => sim::advance(d),
            None => rt::fail("the benchmark waits for ever"),
        }
        settle();
    }
    let l = LINES.with(|l| l.borrow().clone());
    let has = |s: String| l.iter().any(|x| *x == s);
    trips.sort();
    rt::check(has(format!("Minimum trip time: {:?}", trips[0])), "the minimum is wrong");
    rt::check(has(format!("Maximum trip time: {:?}", trips[trips.len() - 1])), "the maximum is wrong");
    for q in [75, 90, 99] {
        let head = format!("{}th percentile trip time: ", q);
        let s = match l.iter().find(|x| x.starts_with(&head)) {
            Some(s) => s,
            None => rt::fail("a percentile is missing"),
        };
        // any of the usual definitions
        let mut good = false;
        for t in &trips {
            let le = trips.iter().filter(|x| *x <= t).count();
            let lt = trips.iter().filter(|x| *x < t).count();
            good |= le * 100 >= q * trips.len() && lt * 100 <= q * trips.len() && s[head.len()..] == format!("{:?}", t);
        }
        rt::check(good, "a percentile is wrong");
    }
    let rate = msgs as f64 / spent.as_micros() as f64 * 1e6;
    // however it is rounded
    let near = |head: &str, r: f64, tail: &str| [1.0, 1.0 - 1e-9, 1.0 + 1e-9].iter().any(|k| has(format!("{}{:.2}{}", head, r * k, tail)));
    rt::check(near("Mean departure rate = ", rate, " packets/second/publisher"), "the departure rate is wrong");
    let mut rate = 0.0;
    for i in 0..subs {
        rate += (pubs * msgs) as f64 / (last[i] - listening[i]).as_micros() as f64;
    }
    let rate = rate / subs as f64 * 1e6;
    rt::check(near("Mean arrival rate = ", rate, " packets/second/subscriber"), "the arrival rate is wrong");
    rt::obs(trips[0].as_micros() as u64);
}

// ---- S26 ----------------------------------------------------------------------------------------
/// The program of the server serves both its ports, keeps them apart and goes on. param = budget
fn program() {
    let at = |p: u16| std::net::SocketAddr::from(([0, 0, 0, 0], p));
    tokio::spawn(crate::server::program());
    settle();
    let dial = |e: bool| match net::dial(at(if e { 8883 } else { 1883 }), std::net::SocketAddr::from(([10, 0, 0, 3], 7000 + e as u16))) {
        Some(p) => Conn::over(p, e),
        None => rt::fail("the program does not listen on this port"),
    };
    let mut es = [false; 3];
    for e in es.iter_mut() {
        *e = rt::pick(2) == 1;
    }
    let mut a = dial(es[0]);
    a.connect(b"a");
    let mut b = dial(es[1]);
    b.connect(b"b");
    let f: &[u8] = [&b"#"[..], b"+/u", b"t/u"][rt::pick(3)];
    a.subscribe(f, 0);
    sim::set_budget(rt::param() as usize);
    // days later it still serves
    let late = rt::pick(2) == 1;
    if late {
        for _ in 0..3 {
            sim::advance(Duration::from_secs(86400));
            settle();
        }
    }
    let x = rt::bytes(1);
    b.send(&encode(&publish_m(b"t/u", &x)));
    settle();
    sim::set_budget(0);
    if es[1] && !es[0] {
        rt::check(a.quiet(), "an encrypted message leaves unencrypted although the program is to be strict");
        rt::cover("withheld");
    } else {
        let m = a.packets();
        only(&m, &publish_m(b"t/u", &x), "a message was not delivered", "another message was delivered");
        rt::cover("delivered");
    }
    let mut c = dial(es[2]);
    c.connect(b"c");
    rt::check(!a.p.closed() && !b.p.closed(), "the program ends connections");
}

macro_rules! harnesses {
    ($($name:ident => $f:ident),* $(,)?) => {
        $(#[no_mangle] #[inline(never)] pub extern "C" fn $name() { $f() })*
        pub fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            match a.as_str() {
                $(stringify!($name) => $name(),)*
                _ => panic!("no such harness"),
            }
            rt::end()
        }
    };
}
harnesses! {
    h_receive => receive,
    h_transmit => transmit,
    h_bench => bench,
    h_report => report,
    h_program => program,
}
