//! C23 (connections and memory are released), C24 (the end of a pool).
use crate::c_args::par;
use crate::c_body::{id_req, id_schema};
use crate::c_conc::spawn_pool;
use crate::ctx::Ctx;
use crate::dynp::*;
use crate::lab::*;
use crate::net::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::trip::next_id;
use htrpc::pool::RpcClientPool;
use htrpc::types::HttpMethod;
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------- allocation monitor

/// Counts live heap bytes and blocks of the whole process while it is switched on.
pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Ordering::Relaxed) {
            BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
            BLOCKS.fetch_add(1, Ordering::Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Ordering::Relaxed) {
            BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
            BLOCKS.fetch_sub(1, Ordering::Relaxed);
        }
        System.dealloc(p, l)
    }
}

type Verdict = Option<(String, String)>;

/// Believes a failure only if the same seed shows it again.
fn confirmed<F: Fn(u64) -> Verdict>(ctx: &Ctx, seed: u64, f: F) {
    if let Some((sig, d)) = f(seed) {
        let definite = sig.starts_with('!');
        if definite {
            ctx.violate(&sig[1..], d);
            return;
        }
        for _ in 0..2 {
            if let Some((s, d)) = f(seed) {
                ctx.violate(s.trim_start_matches('!'), d);
                return;
            }
        }
        eprintln!("[{}] unreproduced: {} {}", ctx.id, sig, d);
        ctx.count("unreproduced_failures", 1);
        if ctx.counter("unreproduced_failures") >= 4 {
            ctx.violate(&sig, format!("repeatedly, though not reproducibly: {}", d));
        }
    }
}

// ---------------------------------------------------------------------------------------- C23

fn life_slots() {
    for n in 0..4 {
        let mut sc = id_schema(n);
        sc.method = [HttpMethod::Put, HttpMethod::Post, HttpMethod::Head, HttpMethod::Get][n];
        sc.read = [ReadMode::All, ReadMode::Skip, ReadMode::All, ReadMode::Part(10)][n];
        set_slot(n, sc);
    }
    // undecodable responses
    let mut sc = id_schema(4);
    sc.resp = RespShape::Num(Sect::Struct(vec![Field { name: "x-n", ty: Ty::U8, opt: false }]));
    set_slot(4, sc);
    // unsendable requests
    let mut sc = id_schema(5);
    sc.header = Sect::Struct(vec![Field { name: "x-s", ty: Ty::Str, opt: true }]);
    set_slot(5, sc);
}
/// The server's side: whatever a client has done, once it closes, so does the server.
fn server_release(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let lab = Lab::start(r.range(1, 3), &[0, 1, 2, 3]);
    let seeds: Vec<u64> = (0..6).map(|_| r.next()).collect();
    let found: Mutex<Verdict> = Mutex::new(None);
    par(6, |t| {
        let mut r = Rng::new(seeds[t]);
        for _ in 0..5 {
            let mut c = match Conn::connect(lab.addr()) {
                Ok(c) => c,
                Err(_) => return,
            };
            c.timeout = Duration::from_secs(10);
            let before = r.below(4);
            for _ in 0..before {
                let n = r.below(4);
                let bl = *r.pick(&[0usize, 20, 5000]);
                c.send(&http_request(&slot(n).method.to_string(), &format!("/t{}/{}", n, next_id()), &[], &vec![b'x'; bl]));
                let _ = c.response(n == 2);
            }
            let id = next_id();
            let bl = r.range(1, 3000);
            let msg = http_request("PUT", &format!("/t0/{}", id), &[("X-A", "b")], &vec![b'y'; bl]);
            let kind = *r.pick(&["idle", "part of a head", "part of a body", "request in progress", "garbage", "refused request", "unsupported length", "last request", "last request"]);
            if kind == "last request" {
                let id = next_id();
                let n = r.below(4);
                let (v, say) = *r.pick(&[
                    ("1.1", "Connection: close\r\n"), ("1.1", "connection: Close\r\n"), ("1.1", "Connection: foo, close\r\n"), ("1.1", "Connection: close,foo\r\n"),
                    ("1.1", "Connection: foo\r\nConnection: close\r\n"), ("1.0", ""), ("1.0", "Connection: foo\r\n"),
                ]);
                let bl = *r.pick(&[0usize, 20, 5000]);
                let refused = r.chance(1, 4);
                let target = if refused { format!("/nope/{}", id) } else { format!("/t{}/{}", n, id) };
                let m = slot(n).method.to_string();
                let mut msg = format!("{} {} HTTP/{}\r\n{}Content-Length: {}\r\n\r\n", m, target, v, say, bl).into_bytes();
                msg.extend(vec![b'z'; bl]);
                c.send(&msg);
                let rc = c.response(n == 2);
                let (b, ended) = c.drain(Duration::from_secs(10));
                ctx.eval(&format!("server {} {} {} {} {}", kind, before, v, say, target.starts_with("/n")));
                ctx.count(&format!("client closes: {}", kind), 1);
                let want = if refused { 404 } else { 200 };
                match rc {
                    Recv::Msg(m) if m.status() == want => {}
                    Recv::Msg(m) => {
                        *found.lock().unwrap() = Some(("last-request-refused".into(), format!("a request with HTTP/{} {:?} after {} earlier ones was answered {}", v, say, before, m.status())));
                        return;
                    }
                    o => {
                        *found.lock().unwrap() = Some(("last-request-unanswered".into(), format!("a request with HTTP/{} {:?} after {} earlier ones: {}", v, say, before, o.describe())));
                        return;
                    }
                }
                if !ended || !b.is_empty() {
                    *found.lock().unwrap() = Some(("server-keeps-connection".into(), format!("10 s after the response to a request with HTTP/{} {:?} the connection is open: {} ({} further bytes)", v, say, !ended, b.len())));
                    return;
                }
                continue;
            }
            match kind {
                "part of a head" => {
                    let k = r.range(1, msg.len() - bl - 1);
                    c.send(&msg[..k]);
                }
                "part of a body" => {
                    let k = msg.len() - r.range(1, bl);
                    c.send(&msg[..k]);
                }
                "request in progress" => {
                    lab.board.delays.lock().unwrap().insert(id, r.below(60) as u64);
                    c.send(&msg);
                }
                "garbage" => {
                    let k = r.range(1, 100);
                    let b = r.bytes(k);
                    c.send(&b);
                }
                "refused request" => {
                    c.send(&http_request("PUT", *r.pick(&["/nope", "/t0/abc", "/t1/1", "http:"]), &[], b"body"));
                }
                "unsupported length" => {
                    c.send(b"PUT /t0/1 HTTP/1.1\r\nContent-Length: abc\r\n\r\n");
                }
                _ => {}
            }
            if r.chance(1, 2) {
                std::thread::sleep(Duration::from_millis(r.below(5) as u64));
            }
            c.fin();
            let (b, ended) = c.drain(Duration::from_secs(10));
            ctx.eval(&format!("server {} {} {}", kind, before, b.len()));
            ctx.count(&format!("client closes: {}", kind), 1);
            if !ended {
                *found.lock().unwrap() = Some(("server-keeps-connection".into(), format!("10 s after the client closed its side ({}, {} earlier requests) the server's side is still open", kind, before)));
                return;
            }
        }
    });
    lab.board.take();
    found.into_inner().unwrap()
}
/// The client's side: a single-use connection is closed when its call is over.
fn client_release(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Act {
        Ok,
        Garbage,
        Undecodable,
        Silent,
        Half,
        Unsendable,
    }
    let plan: Arc<Mutex<HashMap<u64, Act>>> = Arc::default();
    let arrived: Arc<Mutex<HashSet<u64>>> = Arc::default();
    let open: Log<String> = Log::default();
    let ended: Log<u64> = Log::default();
    let over = Arc::new(AtomicBool::new(false));
    let (p2, a2, o2, e2, ov2) = (plan.clone(), arrived.clone(), open.clone(), ended.clone(), over.clone());
    let fake = Fake::start(move |_, mut c| {
        c.timeout = Duration::from_secs(20);
        let id = match c.request() {
            Recv::Msg(m) => m.start.1.split('/').nth(2).unwrap_or("").parse().unwrap_or(0),
            _ => 0u64,
        };
        let act = p2.lock().unwrap().get(&id).cloned();
        match act {
            Some(Act::Ok) | Some(Act::Unsendable) => {
                c.send(&http_response(200, &[("X-N", "1")], b"fine"));
            }
            Some(Act::Garbage) => {
                c.send(b"no http\r\n\r\n");
            }
            Some(Act::Undecodable) => {
                c.send(&http_response(200, &[("X-N", "many")], b"fine"));
            }
            Some(Act::Half) => {
                c.send(&http_response(200, &[("X-N", "1")], b"fine")[..20]);
            }
            _ => {}
        }
        a2.lock().unwrap().insert(id);
        // the connection has to end within 10 s of the end of the last call
        let mut since = None;
        loop {
            let (_, end) = c.drain(Duration::from_millis(100));
            if end {
                e2.push(id);
                return;
            }
            if ov2.load(Ordering::SeqCst) && since.is_none() {
                since = Some(Instant::now());
            }
            if since.map_or(false, |s| s.elapsed() > Duration::from_secs(10)) {
                o2.push(format!("{:?}", act));
                return;
            }
        }
    });
    let cli = Exec::new(r.range(1, 3));
    let mut n = 0;
    for _ in 0..r.range(2, 6) {
        let mut set = Vec::new();
        for _ in 0..r.range(1, 8) {
            let id = next_id();
            let act = *r.pick(&[Act::Ok, Act::Ok, Act::Garbage, Act::Undecodable, Act::Silent, Act::Half, Act::Unsendable]);
            plan.lock().unwrap().insert(id, act);
            let s = match act {
                Act::Undecodable => 4,
                Act::Unsendable => 5,
                _ => r.below(2),
            };
            let bl = *r.pick(&[0usize, 20, 3000]);
            let mut q = id_req(id, vec![b'x'; bl]);
            if s == 5 {
                q.header = Vals::Struct(vec![Some(Val::Str("a\r\nb".into()))]);
            }
            let (p, a) = cli.start_abortable(call(fake.addr, s, q));
            set.push((id, act, p, a));
            n += 1;
        }
        for (id, act, p, mut a) in set {
            ctx.count(&format!("call ends: {:?}", act), 1);
            if act == Act::Silent || act == Act::Half {
                let t0 = Instant::now();
                while !arrived.lock().unwrap().contains(&id) && t0.elapsed() < Duration::from_secs(5) {
                    std::thread::sleep(Duration::from_micros(300));
                }
                a.abort();
            }
            let o = p.wait(WATCHDOG);
            ctx.eval(&format!("client {:?} {}", act, n));
            match (&o, act) {
                (Out::Stalled, _) => return Some(("call-stalled".into(), format!("{:?}", act))),
                (Out::Ok(_), Act::Ok) => {}
                (Out::Ok(_), _) => return Some(("!wrong-success".into(), format!("{:?}", act))),
                (o, Act::Ok) => return Some(("call-failed".into(), o.describe())),
                _ => {}
            }
        }
    }
    over.store(true, Ordering::SeqCst);
    let t0 = Instant::now();
    while ended.len() + open.len() < fake.accepted() && t0.elapsed() < Duration::from_secs(25) {
        std::thread::sleep(Duration::from_millis(2));
    }
    ctx.count("single_use_connections_closed", ended.len() as u64);
    let still = open.snapshot();
    if !still.is_empty() {
        return Some(("client-keeps-connection".into(), format!("10 s after the calls have ended {} of {} single-use connections are open; calls: {:?}", still.len(), fake.accepted(), still)));
    }
    None
}
/// Forgets what the handlers have logged.
fn forget(lab: &Lab) {
    lab.board.take();
    *lab.board.done.lock().unwrap() = Vec::new();
}
fn fds() -> i64 {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count() as i64).unwrap_or(0)
}
/// Live heap and descriptors after each of several equal amounts of work.
fn growth(ctx: &Ctx, seed: u64, per: usize, rounds: usize) -> Verdict {
    let mut r = Rng::new(seed);
    let lab = Lab::start(2, &[0, 1, 2, 3]);
    let cli = Exec::new(2);
    let size = *r.pick(&[1usize, 4, 16]);
    let ph = spawn_pool(&cli, size);
    let addr = lab.addr();
    let refused = free_addr();
    let mut sizes: Vec<(i64, i64, i64)> = Vec::new();
    let mut work = |r: &mut Rng| -> Verdict {
        let mut left = per;
        while left > 0 {
            let k = left.min(20);
            left -= k;
            let mut set = Vec::new();
            for _ in 0..k {
                let n = r.below(4);
                let id = next_id();
                let pooled = r.chance(1, 2);
                let bl = *r.pick(&[0usize, 10, 2000]);
                let q = id_req(id, vec![b'g'; bl]);
                match r.below(12) {
                    0 => {
                        let (p, mut a) = cli.start_abortable(if pooled { pool_call(&ph, addr, n, q) } else { call(addr, n, q) });
                        a.abort();
                        let _ = p.wait(WATCHDOG);
                    }
                    1 => {
                        let f = if pooled { pool_call(&ph, refused, n, q) } else { call(refused, n, q) };
                        let _ = cli.run(f, WATCHDOG);
                    }
                    2 => {
                        if let Ok(mut c) = Conn::connect(addr) {
                            c.send(*r.pick(&[&b"GET /nope HTTP/1.1\r\n\r\n"[..], b"garbage\r\n\r\n", b"PUT /t0/1 HTTP/1.1\r\nContent-Length: 50\r\n\r\nab", b"PUT /t0/abc HTTP/1.1\r\nContent-Length: 0\r\n\r\n"]));
                            c.fin();
                            let _ = c.drain(Duration::from_secs(5));
                        }
                    }
                    _ => set.push(cli.start(if pooled { pool_call(&ph, addr, n, q) } else { call(addr, n, q) })),
                }
            }
            for p in set {
                match p.wait(WATCHDOG) {
                    Out::Ok(_) => {}
                    o => return Some(("call-failed".into(), o.describe())),
                }
            }
            forget(&lab);
        }
        None
    };
    for _ in 0..rounds {
        if let Some(v) = work(&mut r) {
            return Some(v);
        }
        // until nothing changes any more
        let mut last = (0, 0, 0);
        for _ in 0..60 {
            std::thread::sleep(Duration::from_millis(15));
            let now = (BYTES.load(Ordering::SeqCst), BLOCKS.load(Ordering::SeqCst), fds());
            if now == last {
                break;
            }
            last = now;
        }
        forget(&lab);
        sizes.push(last);
    }
    let third = rounds / 3;
    let min = |v: &[(i64, i64, i64)], f: fn(&(i64, i64, i64)) -> i64| v.iter().map(f).min().unwrap_or(0);
    let (a, b) = (&sizes[third..2 * third], &sizes[2 * third..]);
    let calls = (third * per) as i64;
    let (bytes, blocks, files) = (min(b, |s| s.0) - min(a, |s| s.0), min(b, |s| s.1) - min(a, |s| s.1), min(b, |s| s.2) - min(a, |s| s.2));
    ctx.count("growth_rounds", rounds as u64);
    ctx.count("growth_calls", (rounds * per) as u64);
    ctx.max("largest_growth_bytes_per_100_calls", (bytes * 100 / calls.max(1)).max(0) as u64);
    ctx.max("largest_growth_blocks_per_100_calls", (blocks * 100 / calls.max(1)).max(0) as u64);
    ctx.eval(&format!("growth {} {}", size, seed));
    ctx.sample(json!({"live (bytes, blocks, descriptors) after each round": format!("{:?}", sizes), "calls_per_round": per}));
    // a lost connection, request or future per call costs far more than a block in five calls
    if files > (calls / 20).max(8) {
        return Some(("descriptors-grow".into(), format!("{} more descriptors after {} more calls: {:?}", files, calls, sizes)));
    }
    if blocks > calls / 5 + 50 || bytes > calls * 50 + 60_000 {
        return Some(("memory-grows".into(), format!("{} more live blocks ({} bytes) after {} more calls: (bytes, blocks, descriptors) after each round {:?}", blocks, bytes, calls, sizes)));
    }
    None
}
/// The same for long plain histories, in which little else moves: a lost entry per call shows.
fn slow_growth(ctx: &Ctx, seed: u64, kind: usize, per: usize, rounds: usize) -> Verdict {
    let mut r = Rng::new(seed);
    let lab = Lab::start(1, &[0, 1, 2, 3]);
    let lab2 = Lab::start(1, &[0, 1, 2, 3]);
    let cli = Exec::new(1);
    // single-use calls; pooled ones that reuse connections; pooled ones that always evict
    let ph = spawn_pool(&cli, if kind == 3 { 1 } else { 10 });
    let failing = {
        let mut pool = htrpc::pool::RpcClientPool::with_pool_size(10);
        pool.set_suspended_duration(Duration::from_millis(0));
        let h = pool.handle();
        fibers::Spawn::spawn(&cli.handle, pool);
        h
    };
    let refused = free_addr();
    let per = match kind {
        0 | 5 | 7 => per / 3,
        6 => per / 6,
        _ => per,
    };
    let raw = kind == 1;
    let mut conn = Conn::connect(lab.addr()).ok()?;
    let mut sizes: Vec<(i64, i64, i64)> = Vec::new();
    for _ in 0..rounds {
        for i in 0..per {
            let n = r.below(4);
            let id = next_id();
            if kind == 4 {
                // refused with and without suspension, requests that cannot be sent
                let f = match i % 3 {
                    0 => pool_call(&failing, refused, n, id_req(id, vec![])),
                    1 => pool_call(&ph, refused, n, id_req(id, vec![])),
                    _ => {
                        let mut q = id_req(id, vec![b'g'; 100]);
                        q.header = Vals::Struct(vec![Some(Val::Str("a\r\nb".into()))]);
                        pool_call(&ph, lab.addr(), 5, q)
                    }
                };
                match cli.run(f, WATCHDOG) {
                    Out::Err(_) => {}
                    o => return Some(("!wrong-success".into(), o.describe())),
                }
            } else if kind == 5 {
                let q = id_req(id, vec![b'g'; i % 50]);
                let (p, mut a) = cli.start_abortable(if i % 2 == 0 { pool_call(&ph, lab.addr(), n, q) } else { call(lab.addr(), n, q) });
                if i % 5 > 1 {
                    std::thread::sleep(Duration::from_micros(r.below(800) as u64));
                }
                a.abort();
                if let Out::Stalled = p.wait(WATCHDOG) {
                    return Some(("call-stalled".into(), "an abandoned call".into()));
                }
            } else if kind == 6 {
                // a pool of its own for every few calls
                let pool = htrpc::pool::RpcClientPool::with_pool_size(1 + i % 3);
                let h = pool.handle();
                let (end, mut stop) = cli.start_abortable(pool);
                for k in 0..i % 3 {
                    let to = if k == 1 { refused } else { lab.addr() };
                    let _ = cli.run(pool_call(&h, to, n, id_req(id, vec![b'g'; i % 50])), WATCHDOG);
                }
                stop.abort();
                let _ = end.wait(WATCHDOG);
            } else if kind == 7 {
                // connections of all sorts
                if let Ok(mut c) = Conn::connect(lab.addr()) {
                    match i % 6 {
                        0 => {}
                        1 => drop(c.send(b"garbage\r\n\r\n")),
                        2 => drop(c.send(b"PUT /t0/1 HTTP/1.1\r\nContent-Length: 50\r\n\r\nab")),
                        3 => drop(c.send(b"GET /nope HTTP/1.1\r\nX: ")),
                        4 => drop(c.send(b"PUT /t0/abc HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc")),
                        _ => drop(c.send(&http_request("PUT", &format!("/t0/{}", id), &[], b"some body"))),
                    }
                    c.fin();
                    let _ = c.drain(Duration::from_secs(5));
                }
            } else if raw {
                // many requests, also refused ones, on one connection
                let target = match i % 12 {
                    8 => format!("http://[{}", id),
                    9 => format!("http://a:{}/x", 70000 + i),
                    10 => format!("/t{}/%zz{}", n, id),
                    11 => format!("*{}", id),
                    0 => "/nope".to_string(),
                    1 => format!("/nope/{}", id),
                    2 => format!("/t{}/abc{}", n, id),
                    3 => format!("/t{}/{}/x{}", n, id, id),
                    4 => format!("/t{}/{}?k{}={}", n, id, id, id),
                    5 => format!("http://h{}.example/t{}/{}", id, n, id),
                    _ => format!("/t{}/{}", n, id),
                };
                let m = if i % 16 == 6 { "OPTIONS".to_string() } else { slot(n).method.to_string() };
                let (name, value) = (format!("X-A{}", id), format!("v{}", id));
                conn.send(&http_request(&m, &target, &[("X-A", "1"), (&name, &value)], b"some body"));
                if !matches!(conn.response(m == "HEAD"), Recv::Msg(_)) {
                    return Some(("call-failed".into(), format!("no response to {}", target)));
                }
            } else {
                let addr = if i % 2 == 0 { lab.addr() } else { lab2.addr() };
                let q = id_req(id, vec![b'g'; i % 50]);
                match cli.run(if kind > 0 { pool_call(&ph, addr, n, q) } else { call(addr, n, q) }, WATCHDOG) {
                    Out::Ok(_) => {}
                    o => return Some(("call-failed".into(), o.describe())),
                }
            }
            if i % 100 == 0 {
                forget(&lab);
                forget(&lab2);
            }
        }
        let mut last = (0, 0, 0);
        for _ in 0..60 {
            std::thread::sleep(Duration::from_millis(10));
            forget(&lab);
            forget(&lab2);
            let now = (BYTES.load(Ordering::SeqCst), BLOCKS.load(Ordering::SeqCst), fds());
            if now == last {
                break;
            }
            last = now;
        }
        sizes.push(last);
    }
    let half = rounds / 2;
    let calls = ((rounds - half) * per) as i64;
    // per round, so that one step (a table that doubles) is not taken for growth
    let mut d: Vec<i64> = sizes.windows(2).skip(half - 1).map(|w| w[1].1 - w[0].1).collect();
    d.sort();
    let median = d[d.len() / 2];
    let fd = sizes[rounds - 1].2 - sizes[half - 1].2;
    let name = ["single-use calls", "one connection", "pooled calls", "evicting pool", "failing calls", "abandoned calls", "short-lived pools", "broken connections"][kind];
    ctx.count(&format!("long history: {}", name), (per * rounds) as u64);
    ctx.max("largest_median_growth_blocks_per_1000_calls", (median * 1000 / per as i64).max(0) as u64);
    ctx.eval(&format!("long {} {}", name, seed));
    // a list with an entry for each call has few blocks, but ever larger ones
    let bytes = sizes[rounds - 1].0 - sizes[half - 1].0;
    ctx.max("largest_growth_bytes_in_half_a_history", bytes.max(0) as u64);
    let steady = sizes[half - 1..].windows(2).all(|w| w[1].0 >= w[0].0 - 2000);
    if bytes > calls * 2 + 3000 && steady {
        return Some(("memory-grows".into(), format!("{}: {} more live bytes after {} more calls: (bytes, blocks, descriptors) after each round {:?}", name, bytes, calls, sizes)));
    }
    if median > per as i64 / 40 + 4 && d[0] > per as i64 / 80 {
        return Some(("memory-grows".into(), format!("{}: about {} more live blocks in each round of {} calls: (bytes, blocks, descriptors) after each round {:?}", name, median, per, sizes)));
    }
    if fd > (calls / 50).max(8) {
        return Some(("descriptors-grow".into(), format!("{}: {} more descriptors after {} more calls: {:?}", name, fd, calls, sizes)));
    }
    None
}
pub fn c23(ctx: &Ctx) -> &'static str {
    life_slots();
    par(3, |t| {
        let mut i = 0u64;
        while ctx.within(0.4) {
            i += 1;
            let seed = ctx.rng("round", (t as u64) << 32 | i).next();
            if i % 2 == 0 {
                confirmed(ctx, seed, |s| server_release(ctx, s));
            } else {
                confirmed(ctx, seed, |s| client_release(ctx, s));
            }
            report_panics(ctx, "connection release");
        }
    });
    // alone in the process, so that the counts belong to it
    ON.store(true, Ordering::SeqCst);
    let (per, rounds) = if ctx.thorough { (600, 30) } else { (200, 15) };
    let mut i = 0;
    while ctx.go_on() || i < 9 && ctx.violation_count() < 5 {
        i += 1;
        if i % 9 != 5 {
            let kind = [0, 1, 2, 3, 0, 4, 5, 6, 7][(i as usize - 1) % 9];
            let seed = ctx.rng("long", i).next();
            let (per, rounds) = if ctx.thorough { (3000, 16) } else { (600, 8) };
            confirmed(ctx, seed, |s| slow_growth(ctx, s, kind, per, rounds));
            report_panics(ctx, "long histories");
            continue;
        }
        let seed = ctx.rng("growth", i).next();
        confirmed(ctx, seed, |s| growth(ctx, s, per, rounds));
        report_panics(ctx, "memory rounds");
    }
    ON.store(false, Ordering::SeqCst);
    "a case is one connection given up by one side at some point (distinct by the point reached, the number of requests before and the bytes answered; on the client's side by the way the call ended), for which the other side must see the end; plus rounds of equal work (calls, abandoned calls, refused calls, malformed requests), after each of which live heap blocks, bytes and descriptors are counted"
}

// ---------------------------------------------------------------------------------------- C24

fn ending_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let arrived: Arc<Mutex<HashSet<u64>>> = Arc::default();
    let go: Arc<Mutex<HashSet<u64>>> = Arc::default();
    let closed = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let (a2, g2, c2) = (arrived.clone(), go.clone(), closed.clone());
    let fake = Fake::start(move |_, mut c| {
        c.timeout = Duration::from_secs(40);
        while let Recv::Msg(m) = c.request() {
            let id: u64 = m.start.1.split('/').nth(2).unwrap_or("").parse().unwrap_or(0);
            a2.lock().unwrap().insert(id);
            let t0 = Instant::now();
            while !g2.lock().unwrap().contains(&id) && t0.elapsed() < Duration::from_secs(40) {
                std::thread::sleep(Duration::from_micros(200));
            }
            if !c.send(&http_response(200, &[], &id.to_le_bytes())) {
                break;
            }
        }
        c2.fetch_add(1, Ordering::SeqCst);
    });
    let cli = Exec::new(r.range(1, 3));
    let pool = RpcClientPool::with_pool_size(*r.pick(&[1usize, 3, 50]));
    let ph = pool.handle();
    let extra = ph.clone();
    // the pool runs as a fiber that can be dropped
    let (pool_end, mut stop) = cli.start_abortable(pool);
    let waiting = |ids: &[u64]| {
        let t0 = Instant::now();
        while !ids.iter().all(|i| arrived.lock().unwrap().contains(i)) {
            if t0.elapsed() > Duration::from_secs(10) {
                return false;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        true
    };
    // some idle connections
    let many = r.chance(1, 8);
    let idle = if many { r.range(4, 50) } else { r.below(4) };
    let ids: Vec<u64> = (0..idle).map(|_| next_id()).collect();
    let pend: Vec<_> = ids.iter().map(|i| cli.start(pool_call(&ph, fake.addr, 0, id_req(*i, vec![])))).collect();
    if !waiting(&ids) {
        return Some(("call-stalled".into(), "a request did not arrive".into()));
    }
    go.lock().unwrap().extend(ids.iter());
    for p in pend {
        if !p.wait(WATCHDOG).is_ok() {
            return Some(("call-failed".into(), "before the end of the pool".into()));
        }
    }
    // some calls in flight
    let busy = if many { r.range(4, 50) } else { r.below(4) };
    let ids: Vec<u64> = (0..busy).map(|_| next_id()).collect();
    let pend: Vec<_> = ids.iter().map(|i| cli.start(pool_call(&ph, fake.addr, 0, id_req(*i, vec![])))).collect();
    if !waiting(&ids) {
        return Some(("call-stalled".into(), "a request did not arrive".into()));
    }
    // calls that race with the end of the pool: they may go either way, but they end
    let racing = r.below(6);
    let rids: Vec<u64> = (0..racing).map(|_| next_id()).collect();
    go.lock().unwrap().extend(rids.iter());
    let mut race: Vec<_> = Vec::new();
    for (i, id) in rids.iter().enumerate() {
        if i == racing / 2 {
            stop.abort();
        }
        race.push((*id, cli.start(pool_call(&ph, fake.addr, 0, id_req(*id, vec![])))));
    }
    stop.abort();
    match pool_end.wait(WATCHDOG) {
        Out::Vanished => {}
        o => return Some(("!pool-ended".into(), format!("the pool ended by itself: {:?}", matches!(o, Out::Ok(_))))),
    }
    let what = format!("{} idle connections, {} calls in flight, {} racing calls when the pool was dropped", idle, busy, racing);
    for (id, p) in race {
        match p.wait(WATCHDOG) {
            Out::Stalled | Out::Vanished => return Some(("racing-call-stalled".into(), format!("a call issued while the pool was being dropped never ends; {}", what))),
            Out::Ok(v) if call_id(&v.body) != Some(id) => return Some(("!foreign-response".into(), what)),
            _ => {}
        }
        ctx.count("racing_calls_ended", 1);
    }
    // afterwards
    for h in &[ph.clone(), extra] {
        let id = next_id();
        go.lock().unwrap().insert(id);
        let o = cli.run(pool_call(h, fake.addr, 0, id_req(id, vec![])), WATCHDOG);
        ctx.count("later_calls", 1);
        match o {
            Out::Err(_) => {}
            Out::Ok(_) => return Some(("!success-without-pool".into(), what)),
            _ => return Some(("later-call-stalled".into(), format!("a call issued after the pool was dropped never ends; {}", what))),
        }
        if arrived.lock().unwrap().contains(&id) {
            return Some(("!sent-without-pool".into(), format!("a call that failed for want of a pool was sent nevertheless; {}", what)));
        }
    }
    go.lock().unwrap().extend(ids.iter());
    for (id, p) in ids.iter().zip(pend) {
        match p.wait(WATCHDOG) {
            Out::Ok(v) if call_id(&v.body) == Some(*id) => {}
            Out::Ok(_) => return Some(("!foreign-response".into(), what)),
            o => return Some(("in-flight-call-failed".into(), format!("{}: {}", o.describe(), what))),
        }
        ctx.count("in_flight_calls_completed", 1);
    }
    // nothing is left open
    let t0 = Instant::now();
    while closed.load(Ordering::SeqCst) < fake.accepted() {
        if t0.elapsed() > Duration::from_secs(10) {
            return Some(("connections-kept".into(), format!("{} of {} connections stay open; {}", fake.accepted() - closed.load(Ordering::SeqCst), fake.accepted(), what)));
        }
        std::thread::sleep(Duration::from_micros(300));
    }
    ctx.count("connections_closed", fake.accepted() as u64);
    ctx.eval(&format!("{} {}", what, fake.accepted()));
    if ctx.counter("rounds") < 4 {
        ctx.sample(json!(what));
    }
    ctx.count("rounds", 1);
    None
}
/// A long life: whatever happens to its calls and handles, the pool stays.
fn lasting_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let fake = Fake::start(move |_, mut c| {
        c.timeout = Duration::from_secs(40);
        while let Recv::Msg(m) = c.request() {
            let id: u64 = m.start.1.split('/').nth(2).unwrap_or("").parse().unwrap_or(0);
            // the body says what to do
            let ok = match m.body.last() {
                Some(b'c') => return,
                Some(b'g') => c.send(b"garbage\r\n\r\n"),
                Some(b'u') => {
                    c.send(b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nonly this");
                    return;
                }
                Some(b's') => {
                    std::thread::sleep(Duration::from_millis(30));
                    c.send(&http_response(200, &[], &id.to_le_bytes()))
                }
                _ => c.send(&http_response(200, &[], &id.to_le_bytes())),
            };
            if !ok {
                return;
            }
        }
    });
    let down: Vec<SocketAddr> = (0..3).map(|_| free_addr()).collect();
    let cli = Exec::new(r.range(1, 3));
    let size = *r.pick(&[0usize, 1, 2, 8]);
    let mut pool = RpcClientPool::with_pool_size(size);
    pool.set_suspended_duration(Duration::from_millis(5));
    let ph = pool.handle();
    let (pool_end, mut stop) = cli.start_abortable(pool);
    let mut handles = vec![ph.clone()];
    let total = r.range(300, if ctx.thorough { 4000 } else { 1500 });
    let mut done = 0;
    let mut faults = [0usize; 4];
    while done < total {
        let k = r.range(1, 6);
        let mut pend = Vec::new();
        for _ in 0..k {
            let h = r.pick(&handles).clone();
            let id = next_id();
            let kind = r.below(30);
            let (addr, body) = match kind {
                0 => (*r.pick(&down), b"x"),
                1 => (fake.addr, b"c"),
                2 => (fake.addr, b"g"),
                3 => (fake.addr, b"u"),
                4 => (fake.addr, b"s"),
                _ => (fake.addr, b"x"),
            };
            if kind == 4 {
                let (_, mut a) = cli.start_abortable(pool_call(&h, addr, 0, id_req(id, body.to_vec())));
                a.abort();
                faults[3] += 1;
                continue;
            }
            if kind < 3 {
                faults[kind] += 1;
            }
            pend.push((id, kind, cli.start(pool_call(&h, addr, 0, id_req(id, body.to_vec())))));
        }
        for (id, kind, p) in pend {
            done += 1;
            match p.wait(WATCHDOG) {
                Out::Ok(v) if kind > 3 && call_id(&v.body) == Some(id) => {}
                Out::Ok(_) => return Some(("!foreign-response".into(), format!("after {} calls", done))),
                Out::Err(_) if kind <= 3 => {}
                o => {
                    let ended = pool_end.try_get().is_some();
                    return Some((if ended { "!pool-ended" } else { "call-failed" }.into(), format!("call {} to a healthy server through a pool of size {}: {} (pool ended: {})", done, size, o.describe(), ended)));
                }
            }
        }
        if r.chance(1, 10) {
            handles.push(ph.clone());
        }
        if r.chance(1, 10) && handles.len() > 1 {
            handles.pop();
        }
        if pool_end.try_get().is_some() {
            return Some(("!pool-ended".into(), format!("the pool of size {} ended by itself after {} calls, of which {:?} to closed ports, closed, garbled, abandoned", size, done, faults)));
        }
    }
    ctx.count("lasting_calls", done as u64);
    ctx.eval(&format!("lasting {} {} {:?}", size, done / 100, faults));
    stop.abort();
    None
}
pub fn c24(ctx: &Ctx) -> &'static str {
    life_slots();
    par(4, |t| {
        let mut i = 0u64;
        while ctx.go_on() {
            i += 1;
            let seed = ctx.rng("round", (t as u64) << 32 | i).next();
            if i % 12 == t as u64 {
                confirmed(ctx, seed, |s| lasting_round(ctx, s));
            } else {
                confirmed(ctx, seed, |s| ending_round(ctx, s));
            }
            report_panics(ctx, "the end of a pool");
        }
    });
    "a case is one pool dropped with some idle connections, calls in flight and calls racing with the drop (distinct by these numbers and the connections opened); racing and later calls must end (later ones with an error, unsent), calls in flight must complete, and every connection must be closed at the server"
}
