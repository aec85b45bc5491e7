//! C11 - C14: the client pool, observed from scripted servers.
use crate::c_body::{id_req, id_schema};
use crate::c_robust::Deaf;
use crate::ctx::Ctx;
use crate::dynp::*;
use crate::lab::report_panics;
use crate::net::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::trip::next_id;
use fibers::Spawn;
use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use htrpc::types::HttpMethod;
use serde_json::json;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::net::{SocketAddr, TcpListener};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Verdict = Option<(String, String)>;

/// Runs a round; a failure that depends on time is believed only if it happens again.
fn confirmed<F: Fn(u64) -> Verdict>(ctx: &Ctx, seed: u64, f: F) {
    if let Some((sig, d)) = f(seed) {
        if sig.starts_with("!") {
            ctx.violate(&sig[1..], d);
            return;
        }
        for _ in 0..2 {
            if let Some((s, d)) = f(seed) {
                ctx.violate(s.trim_start_matches('!'), d);
                return;
            }
        }
        eprintln!("[{}] unreproduced: {} {}", ctx.id, sig, d);
        ctx.count("unreproduced_failures", 1);
        if ctx.counter("unreproduced_failures") >= 4 {
            ctx.violate(&sig, format!("repeatedly, though not reproducibly: {}", d));
        }
    }
}
fn def(sig: &str, d: String) -> Verdict {
    Some((format!("!{}", sig), d))
}
fn maybe(sig: &str, d: String) -> Verdict {
    Some((sig.to_string(), d))
}

/// Listeners on related addresses: same IP and different ports, different IPs and the same port,
/// and IPv6 where there is any.
fn listeners(r: &mut Rng, n: usize) -> Vec<TcpListener> {
    let mut v: Vec<TcpListener> = Vec::new();
    while v.len() < n {
        let l = match (v.first().map(|l| l.local_addr().unwrap()), r.below(4)) {
            (Some(a), 0) => TcpListener::bind(SocketAddr::from((crate::rt::loopback(0, r.range(2, 9) as u8), a.port()))),
            (Some(a), 2) => TcpListener::bind(("::1", a.port())),
            _ => TcpListener::bind(free_addr()),
        };
        if let Ok(l) = l {
            v.push(l);
        }
    }
    v
}
fn id_of(m: &Msg) -> u64 {
    m.start.1.split('/').nth(2).unwrap_or("").split('?').next().unwrap_or("").parse().unwrap_or(0)
}

// ---------------------------------------------------------------------------------------- C11

fn pool_slots() {
    for n in 0..4 {
        let mut sc = id_schema(n);
        match n {
            1 => {
                sc.method = HttpMethod::Head;
            }
            2 => {
                sc.method = HttpMethod::Post;
                sc.resp = RespShape::Num(Sect::Struct(vec![Field { name: "x-n", ty: Ty::U32, opt: false }]));
                sc.header = Sect::Struct(vec![Field { name: "x-s", ty: Ty::Str, opt: true }]);
            }
            3 => {
                sc.resp = RespShape::Named(vec![(200, Sect::Absent), (404, Sect::Absent), (503, Sect::Absent)]);
            }
            _ => {}
        }
        set_slot(n, sc);
    }
}
fn pool_req(n: usize, id: u64, body: Vec<u8>) -> ReqVal {
    let mut q = id_req(id, body);
    if n == 2 {
        q.header = Vals::Struct(vec![None]);
    }
    q
}
#[derive(Default)]
struct Track {
    now: HashMap<SocketAddr, usize>,
    max: HashMap<SocketAddr, usize>,
    started: HashMap<SocketAddr, usize>,
}
fn reuse_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let naddr = r.range(1, 5);
    let problems: Log<(String, String)> = Log::default();
    let target: Arc<Mutex<HashMap<u64, SocketAddr>>> = Arc::default();
    let served = Arc::new(AtomicUsize::new(0));
    let reused = Arc::new(AtomicUsize::new(0));
    let fakes: Vec<Fake> = listeners(&mut r, naddr)
        .into_iter()
        .map(|l| {
            let me = l.local_addr().unwrap();
            let (p, t, sv, ru) = (problems.clone(), target.clone(), served.clone(), reused.clone());
            let seed = r.next();
            Fake::with_listener(l, move |i, mut c| {
                let mut r = Rng::derive(seed, "conn", i as u64);
                c.timeout = Duration::from_secs(60);
                let mut n = 0;
                loop {
                    let m = match c.request() {
                        Recv::Msg(m) => m,
                        Recv::Closed(b) if b.is_empty() => return,
                        Recv::Malformed(e, b) => {
                            p.push(("garbled-request".into(), format!("{}: {:?}", e, String::from_utf8_lossy(&b[..b.len().min(200)]))));
                            return;
                        }
                        _ => return,
                    };
                    sv.fetch_add(1, Ordering::SeqCst);
                    n += 1;
                    if n > 1 {
                        ru.fetch_add(1, Ordering::SeqCst);
                    }
                    let id = id_of(&m);
                    match t.lock().unwrap().get(&id) {
                        Some(a) if *a == me => {}
                        a => p.push(("wrong-address".into(), format!("a call made for {:?} arrived at {}", a, me))),
                    }
                    let head = m.start.0 == "HEAD";
                    let bl = *r.pick(&[0usize, 0, 20, 3000, 60_000]);
                    let mut body = id.to_le_bytes().to_vec();
                    body.extend(vec![b'r'; bl]);
                    let status = if m.start.1.starts_with("/t3/") { *r.pick(&[200u16, 404, 503]) } else { crate::status::any_final(&mut r) };
                    let mut msg = http_response(status, &[("X-N", "7")], &body);
                    if head {
                        msg.truncate(msg.len() - body.len());
                    }
                    if r.chance(1, 2) {
                        std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
                    }
                    if c.peek_now() > 0 {
                        p.push(("overlapping-request".into(), format!("a second request arrived on a connection to {} before the response to the first was sent", me)));
                        return;
                    }
                    // all but the last byte, a pause, then the last one
                    let cut = if r.chance(1, 3) { r.below(msg.len()) } else { msg.len() - 1 };
                    if !c.send(&msg[..cut]) {
                        return;
                    }
                    if r.chance(1, 2) {
                        std::thread::sleep(Duration::from_micros(r.below(2500) as u64));
                    }
                    if c.peek_now() > 0 {
                        p.push(("overlapping-request".into(), format!("a second request arrived on a connection to {} after {} of {} bytes of the response to the first", me, cut, msg.len())));
                        return;
                    }
                    if !c.send(&msg[cut..]) {
                        return;
                    }
                }
            })
        })
        .collect();
    let addrs: Vec<SocketAddr> = fakes.iter().map(|f| f.addr).collect();
    let cli = Exec::new(r.range(1, 4));
    let pool = if r.chance(1, 4) { RpcClientPool::new() } else { RpcClientPool::with_pool_size(r.range(64, 200)) };
    let ph = pool.handle();
    cli.spawn_pool(pool);
    let track: Mutex<Track> = Mutex::new(Track::default());
    let workers = *r.pick(&[1usize, 1, 2, 4, 10]);
    let per = 240 / workers / 3 + 4;
    let seeds: Vec<u64> = (0..workers).map(|_| r.next()).collect();
    let fail: Mutex<Verdict> = Mutex::new(None);
    crate::c_args::par(workers, |w| {
        let mut r = Rng::new(seeds[w]);
        let ph = ph.clone();
        for _ in 0..per {
            // one worker makes one call or a small batch at a time
            let k = *r.pick(&[1usize, 1, 1, 2, 4]);
            let batch: Vec<_> = (0..k)
                .map(|_| {
                    let a = *r.pick(&addrs);
                    let id = next_id();
                    let n = r.below(4);
                    target.lock().unwrap().insert(id, a);
                    {
                        let mut t = track.lock().unwrap();
                        let c = t.now.entry(a).or_insert(0);
                        *c += 1;
                        let c = *c;
                        let m = t.max.entry(a).or_insert(0);
                        *m = (*m).max(c);
                        *t.started.entry(a).or_insert(0) += 1;
                    }
                    let bl = *r.pick(&[0usize, 0, 50, 4000]);
                    (a, n, id, cli.start(pool_call(&ph, a, n, pool_req(n, id, vec![b'q'; bl]))))
                })
                .collect();
            for (a, n, id, p) in batch {
                let o = p.wait(WATCHDOG);
                *track.lock().unwrap().now.get_mut(&a).unwrap() -= 1;
                match o {
                    Out::Ok(v) => {
                        ctx.count("calls_ok", 1);
                        if n != 1 && (v.body.len() < 8 || v.body[..8] != id.to_le_bytes()) {
                            *fail.lock().unwrap() = def("foreign-response", format!("call {} got the response to call {:?}", id, call_id(&v.body)));
                        }
                    }
                    o => {
                        *fail.lock().unwrap() = maybe("call-failed", format!("slot {} to {}: {}", n, a, o.describe()));
                        return;
                    }
                }
            }
        }
    });
    if let Some((sig, d)) = problems.snapshot().into_iter().next() {
        return def(&sig, d);
    }
    if let Some(f) = fail.into_inner().unwrap() {
        return Some(f);
    }
    let t = track.into_inner().unwrap();
    let mut summary = Vec::new();
    for f in &fakes {
        let max = *t.max.get(&f.addr).unwrap_or(&0);
        let n = f.accepted();
        summary.push((*t.started.get(&f.addr).unwrap_or(&0), max, n));
        if n > max {
            return def(
                "not-reused",
                format!("{} connections were opened to {} though at most {} calls were in flight to it at a time ({} calls in all, {} addresses)", n, f.addr, max, t.started.get(&f.addr).unwrap_or(&0), naddr),
            );
        }
    }
    ctx.eval(&format!("{} {} {:?}", workers, naddr, summary));
    ctx.count("requests_served", served.load(Ordering::SeqCst) as u64);
    ctx.count("requests_on_reused_connections", reused.load(Ordering::SeqCst) as u64);
    ctx.count("connections_opened", fakes.iter().map(|f| f.accepted() as u64).sum());
    if ctx.counter("rounds") < 3 {
        ctx.sample(json!({"workers": workers, "addresses(calls,max_in_flight,connections)": summary}));
    }
    ctx.count("rounds", 1);
    None
}
pub fn c11(ctx: &Ctx) -> &'static str {
    pool_slots();
    rounds(ctx, 3, reuse_round);
    "a case is one round of pooled calls to 1-5 related addresses by 1-10 concurrent callers (distinct by callers, addresses and the resulting calls/in-flight/connections per address); the servers check that no byte of another request arrives before the last byte of a response is sent, that each call arrives at its own address, and that no more connections are opened than calls were in flight"
}
/// Rounds on several harness threads at once until the budget is used.
fn rounds(ctx: &Ctx, par_: usize, f: fn(&Ctx, u64) -> Verdict) {
    crate::c_args::par(par_, |t| {
        let mut i = 0u64;
        while ctx.go_on() {
            i += 1;
            let seed = ctx.rng("round", (t as u64) << 32 | i).next();
            confirmed(ctx, seed, |s| f(ctx, s));
            report_panics(ctx, "pooled calls");
        }
    });
}

// ---------------------------------------------------------------------------------------- C12

/// A connection as the server sees it: (address index, connection index).
type ConnKey = (usize, usize);
#[derive(Default)]
struct Seen {
    /// Requests that arrived: id -> connection.
    arrived: HashMap<u64, ConnKey>,
    closed: HashSet<ConnKey>,
    opened: HashSet<ConnKey>,
    /// Calls whose response may be sent.
    go: HashSet<u64>,
}
fn held_servers(r: &mut Rng, n: usize, seen: &Arc<Mutex<Seen>>) -> Vec<Fake> {
    listeners(r, n)
        .into_iter()
        .enumerate()
        .map(|(a, l)| {
            let s = seen.clone();
            Fake::with_listener(l, move |i, mut c| {
                c.timeout = Duration::from_secs(60);
                s.lock().unwrap().opened.insert((a, i));
                loop {
                    match c.request() {
                        Recv::Msg(m) => {
                            let id = id_of(&m);
                            s.lock().unwrap().arrived.insert(id, (a, i));
                            let t0 = Instant::now();
                            while !s.lock().unwrap().go.contains(&id) {
                                if t0.elapsed() > Duration::from_secs(60) {
                                    return;
                                }
                                std::thread::sleep(Duration::from_micros(200));
                            }
                            if !c.send(&http_response(200, &[], &id.to_le_bytes())) {
                                break;
                            }
                        }
                        Recv::Timeout(_) => {}
                        _ => break,
                    }
                }
                s.lock().unwrap().closed.insert((a, i));
            })
        })
        .collect()
}
fn wait_for<F: FnMut() -> bool>(limit: Duration, mut f: F) -> bool {
    let t0 = Instant::now();
    loop {
        if f() {
            return true;
        }
        if t0.elapsed() > limit {
            return false;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}
/// The reference: idle connections in the order of their release.
struct Lru {
    size: usize,
    idle: Vec<ConnKey>,
    gone: HashSet<ConnKey>,
    trace: Vec<String>,
}
impl Lru {
    fn note(&mut self, s: String) {
        if self.trace.len() > 120 {
            self.trace.drain(..60);
        }
        self.trace.push(s);
    }
    /// A call to address `a` was seen on connection `key`.
    fn started(&mut self, a: usize, key: ConnKey, busy: bool) -> Verdict {
        if key.0 != a {
            return def("wrong-address", format!("history {:?}", self.trace));
        }
        if self.gone.contains(&key) {
            return def("closed-connection-used", format!("pool size {}, history {:?}", self.size, self.trace));
        }
        let candidates: Vec<ConnKey> = self.idle.iter().filter(|k| k.0 == a).cloned().collect();
        if let Some(i) = self.idle.iter().position(|k| *k == key) {
            self.idle.remove(i);
        } else if busy {
            return def("busy-connection-used", format!("history {:?}", self.trace));
        } else if !candidates.is_empty() {
            return def(
                "idle-not-kept",
                format!("pool size {}: connection {:?} should be idle and usable, but the call to the same address opened a new one; idle (oldest first) {:?}, history {:?}", self.size, candidates, self.idle, self.trace),
            );
        }
        None
    }
    fn finished(&mut self, ctx: &Ctx, key: ConnKey, seen: &Mutex<Seen>) -> Verdict {
        self.idle.push(key);
        while self.idle.len() > self.size {
            let k = self.idle.remove(0);
            self.gone.insert(k);
            ctx.count("evictions", 1);
            if !wait_for(Duration::from_secs(8), || seen.lock().unwrap().closed.contains(&k)) {
                let s = seen.lock().unwrap();
                let other: Vec<_> = self.idle.iter().filter(|k| s.closed.contains(k)).collect();
                if !other.is_empty() {
                    return def("wrong-eviction", format!("pool size {}: the connection idle longest, {:?}, was kept and {:?} was closed; history {:?}", self.size, k, other, self.trace));
                }
                return maybe("excess-kept", format!("pool size {}: {} idle connections are kept open; history {:?}", self.size, self.idle.len() + 1, self.trace));
            }
        }
        None
    }
}
fn lru_round(ctx: &Ctx, seed: u64) -> Verdict {
    lru_history(ctx, seed, 0, Duration::from_secs(60))
}
/// A long history over one pool: at least `calls` calls unless `limit` has passed.
fn lru_history(ctx: &Ctx, seed: u64, calls: usize, limit: Duration) -> Verdict {
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let naddr = r.range(1, 4);
    let size = if calls == 0 { *r.pick(&[0usize, 1, 1, 2, 3, 5, 8]) } else { r.range(2, 8) };
    let seen: Arc<Mutex<Seen>> = Arc::default();
    let fakes = held_servers(&mut r, naddr, &seen);
    let cli = Exec::new(r.range(1, 2));
    let pool = RpcClientPool::with_pool_size(size);
    let ph = pool.handle();
    cli.spawn_pool(pool);
    let mut m = Lru { size, idle: Vec::new(), gone: HashSet::new(), trace: Vec::new() };
    let mut held: Vec<(u64, ConnKey, Pending<RespVal, htrpc::Error>)> = Vec::new();
    let steps = r.range(10, 40);
    let bias = r.range(2, 8);
    let mut done = 0;
    let mut left = 20;
    for step in 0.. {
        let winding_down = if calls == 0 { step >= steps } else { done >= calls || t0.elapsed() > limit };
        if winding_down {
            left -= 1;
            if left == 0 {
                break;
            }
        }
        let start = !winding_down && (held.is_empty() || (held.len() < 10 && r.chance(bias, 10)));
        if !winding_down && r.chance(1, if calls == 0 { 60 } else { 4 }) {
            // calls one after the other to one address, while the rest of the pool stays as it is
            let a = r.below(naddr);
            let n = if calls == 0 { r.range(1, 60) } else { *r.pick(&[1usize, 5, 30, 120, 250]) };
            m.note(format!("{} calls in a row to a{}", n, a));
            for _ in 0..n {
                let id = next_id();
                seen.lock().unwrap().go.insert(id);
                match cli.run(pool_call(&ph, fakes[a].addr, 0, id_req(id, vec![])), WATCHDOG) {
                    Out::Ok(_) => {}
                    o => return maybe("call-failed", format!("{}: history {:?}", o.describe(), m.trace)),
                }
                let key = {
                    let mut s = seen.lock().unwrap();
                    s.go.remove(&id);
                    match s.arrived.remove(&id) {
                        Some(k) => k,
                        None => return def("wrong-success", "a call succeeded that never arrived".into()),
                    }
                };
                done += 1;
                let busy = held.iter().any(|h| h.1 == key);
                if let Some(v) = m.started(a, key, busy) {
                    return Some(v);
                }
                if let Some(v) = m.finished(ctx, key, &seen) {
                    return Some(v);
                }
            }
            ctx.count("calls_in_a_row", n as u64);
        } else if start {
            let a = r.below(naddr);
            let id = next_id();
            let p = cli.start(pool_call(&ph, fakes[a].addr, 0, id_req(id, vec![])));
            if !wait_for(Duration::from_secs(8), || seen.lock().unwrap().arrived.contains_key(&id)) {
                return maybe("call-stalled", format!("a request did not arrive; pool size {}, history {:?}", size, m.trace));
            }
            let key = seen.lock().unwrap().arrived[&id];
            m.note(format!("start a{}->c{}.{}", a, key.0, key.1));
            let busy = held.iter().any(|h| h.1 == key);
            if let Some(v) = m.started(a, key, busy) {
                return Some(v);
            }
            held.push((id, key, p));
        } else {
            if held.is_empty() {
                break;
            }
            let (id, key, p) = held.remove(r.below(held.len()));
            seen.lock().unwrap().go.insert(id);
            match p.wait(WATCHDOG) {
                Out::Ok(_) => {}
                o => return maybe("call-failed", format!("{}: history {:?}", o.describe(), m.trace)),
            }
            seen.lock().unwrap().go.remove(&id);
            done += 1;
            m.note(format!("finish c{}.{}", key.0, key.1));
            if let Some(v) = m.finished(ctx, key, &seen) {
                return Some(v);
            }
        }
        let s = seen.lock().unwrap();
        for k in m.idle.iter().chain(held.iter().map(|h| &h.1)) {
            if s.closed.contains(k) {
                return def("wrong-eviction", format!("pool size {}: connection {:?} was closed though it should be kept; idle (oldest first) {:?}; history {:?}", size, k, m.idle, m.trace));
            }
        }
        drop(s);
        ctx.count("steps", 1);
        ctx.eval(&format!("{} {} {:?} {}", size, naddr, shape(&m.idle), held.len()));
    }
    // give wrong closes time to show
    std::thread::sleep(Duration::from_millis(10));
    let s = seen.lock().unwrap();
    let open: BTreeSet<ConnKey> = s.opened.difference(&s.closed).cloned().collect();
    let want: BTreeSet<ConnKey> = m.idle.iter().cloned().collect();
    if open != want {
        let extra: Vec<_> = open.difference(&want).collect();
        let missing: Vec<_> = want.difference(&open).collect();
        if !missing.is_empty() {
            return def("wrong-eviction", format!("pool size {}: closed though among the most recently used: {:?}; history {:?}", size, missing, m.trace));
        }
        return maybe("excess-kept", format!("pool size {}: still open: {:?}; history {:?}", size, extra, m.trace));
    }
    if calls > 0 {
        ctx.count("long_histories", 1);
        ctx.max("calls_in_longest_history", done as u64);
    } else if ctx.counter("rounds") < 3 {
        ctx.sample(json!({"pool_size": size, "history": m.trace.iter().take(30).collect::<Vec<_>>(), "idle_at_end": format!("{:?}", m.idle)}));
    }
    ctx.count("rounds", 1);
    None
}
/// The idle list as a pattern of addresses.
/// Large pools (up to the default one): more calls in flight than the pool keeps, finished one by
/// one in a random order, then a second wave over the connections that were kept.
fn large_round(ctx: &Ctx, seed: u64, size: Option<usize>) -> Verdict {
    #[derive(Default)]
    struct Gate {
        arrived: HashMap<u64, (ConnKey, std::sync::mpsc::Sender<()>)>,
        closed: HashSet<ConnKey>,
    }
    let mut r = Rng::new(seed);
    let naddr = r.range(1, 3);
    let gate: Arc<Mutex<Gate>> = Arc::default();
    let fakes: Vec<Fake> = listeners(&mut r, naddr)
        .into_iter()
        .enumerate()
        .map(|(a, l)| {
            let g = gate.clone();
            Fake::with_listener(l, move |i, mut c| {
                c.timeout = Duration::from_secs(120);
                while let Recv::Msg(m) = c.request() {
                    let id = id_of(&m);
                    let (tx, rx) = std::sync::mpsc::channel();
                    g.lock().unwrap().arrived.insert(id, ((a, i), tx));
                    if rx.recv_timeout(Duration::from_secs(120)).is_err() || !c.send(&http_response(200, &[], &id.to_le_bytes())) {
                        break;
                    }
                }
                g.lock().unwrap().closed.insert((a, i));
            })
        })
        .collect();
    let cli = Exec::new(r.range(1, 2));
    let mut pool = match size {
        Some(n) => RpcClientPool::with_pool_size(n),
        None => RpcClientPool::new(),
    };
    pool.set_connect_timeout(Duration::from_secs(20));
    let size = size.unwrap_or(1024);
    let ph = pool.handle();
    cli.spawn_pool(pool);
    let mut idle: Vec<ConnKey> = Vec::new();
    let limit = Duration::from_secs(20);
    for wave in 0..2 {
        let total = if wave == 0 { size + r.range(1, 12) } else { r.range(1, size.min(60)) };
        let mut held = Vec::new();
        for n in 0..total {
            let a = r.below(naddr);
            let id = next_id();
            held.push((id, a, cli.start(pool_call(&ph, fakes[a].addr, 0, id_req(id, vec![])))));
            if n % 40 == 39 || n + 1 == total {
                let last: Vec<u64> = held.iter().rev().take(40).map(|h| h.0).collect();
                if !wait_for(limit, || {
                    let g = gate.lock().unwrap();
                    last.iter().all(|id| g.arrived.contains_key(id))
                }) {
                    return maybe("call-stalled", format!("{} calls in flight in a pool of size {}: a request did not arrive", held.len(), size));
                }
            }
        }
        if wave == 1 {
            let g = gate.lock().unwrap();
            // per address: the calls use kept connections as long as there are any
            for a in 0..naddr {
                let used: HashSet<ConnKey> = held.iter().filter(|h| h.1 == a).map(|h| g.arrived[&h.0].0).collect();
                let kept: HashSet<ConnKey> = idle.iter().filter(|k| k.0 == a).cloned().collect();
                let calls = held.iter().filter(|h| h.1 == a).count();
                let reused = used.intersection(&kept).count();
                if used.len() != calls {
                    return def("busy-connection-used", format!("pool size {}: {} simultaneous calls share {} connections", size, calls, used.len()));
                }
                if reused < calls.min(kept.len()) {
                    return def("idle-not-kept", format!("pool size {}: {} connections to an address should be kept, but {} of {} calls opened new ones", size, kept.len(), calls - reused, calls));
                }
                idle.retain(|k| !used.contains(k));
            }
        }
        r.shuffle(&mut held);
        for (id, _, p) in held {
            let (key, tx) = gate.lock().unwrap().arrived.remove(&id).expect("arrived");
            let _ = tx.send(());
            match p.wait(WATCHDOG) {
                Out::Ok(_) => {}
                o => return maybe("call-failed", format!("{} (pool size {})", o.describe(), size)),
            }
            idle.push(key);
            if idle.len() > size {
                let k = idle.remove(0);
                ctx.count("evictions", 1);
                if !wait_for(limit, || gate.lock().unwrap().closed.contains(&k)) {
                    let g = gate.lock().unwrap();
                    let other: Vec<_> = idle.iter().filter(|k| g.closed.contains(k)).collect();
                    if !other.is_empty() {
                        return def("wrong-eviction", format!("pool size {}: the connection idle longest, {:?}, was kept and {:?} was closed", size, k, other));
                    }
                    return maybe("excess-kept", format!("pool size {}: {} idle connections are kept open", size, idle.len() + 1));
                }
            }
        }
        std::thread::sleep(Duration::from_millis(10));
        let g = gate.lock().unwrap();
        if let Some(k) = idle.iter().find(|k| g.closed.contains(k)) {
            return def("wrong-eviction", format!("pool size {}: connection {:?} was closed though it is among the {} most recently used", size, k, size));
        }
        ctx.eval(&format!("large {} {} {}", size, naddr, wave));
    }
    ctx.count("large_pools", 1);
    ctx.max("largest_pool", size as u64);
    None
}
fn shape(v: &[ConnKey]) -> Vec<usize> {
    v.iter().map(|k| k.0).collect()
}
pub fn c12(ctx: &Ctx) -> &'static str {
    pool_slots();
    crate::c_args::par(4, |t| {
        let mut i = 0u64;
        while ctx.go_on() {
            i += 1;
            let seed = ctx.rng("round", (t as u64) << 32 | i).next();
            if t == 0 {
                // one pool used for tens of thousands of calls; then some of medium length
                let (calls, limit) = if i == 1 { (70_000, 30) } else { (3_000, 10) };
                confirmed(ctx, seed, |s| lru_history(ctx, s, calls, Duration::from_secs(limit)));
            } else if t == 1 && i == 1 {
                confirmed(ctx, seed, |s| large_round(ctx, s, None));
            } else if t == 1 && i % 8 == 2 {
                let size = *ctx.rng("size", i).pick(&[12usize, 16, 20, 33, 64, 100, 150, 300]);
                confirmed(ctx, seed, |s| large_round(ctx, s, Some(size)));
            } else {
                confirmed(ctx, seed, |s| lru_round(ctx, s));
            }
            report_panics(ctx, "pooled calls");
        }
    });
    "a case is one state of the pool after a call was started or finished (distinct by pool size, address pattern of the idle list in release order, calls in flight); the servers hold responses so that the order is controlled; the connections open at the servers are compared, after every step, with a reference list that keeps the last released ones; also pools of 12 to 1024 (the default) connections with more calls in flight than they keep"
}

// ---------------------------------------------------------------------------------------- C13

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    Close,
    Reset,
    PartHead,
    PartBody,
    PartBodyReset,
    /// Not HTTP, connection stays open.
    Garbage,
    BadLength,
    /// Complete response of the wrong type, connection stays open.
    BadHeader,
    MissingHeader,
    UnknownAlternative,
    /// The caller drops the call; the server answers later.
    DropWaiting,
    /// The caller drops the call in the middle of the response.
    DropMid,
    /// The arguments cannot be sent.
    Unsendable,
    /// The caller drops the call at a random early moment.
    DropEarly,
    /// A complete response which says that it is the last one (the connection stays open).
    Last,
    /// A complete response whose body ends with the connection.
    Delimited,
    /// The call succeeds; the server ends the connection or sends something while it is idle.
    IdleFin,
    IdleReset,
    IdleGarbage,
    IdleResponse,
}
const FAULTS: &[Fault] = &[
    Fault::Close, Fault::Reset, Fault::PartHead, Fault::PartBody, Fault::PartBodyReset, Fault::Garbage, Fault::BadLength, Fault::BadHeader,
    Fault::MissingHeader, Fault::UnknownAlternative, Fault::DropWaiting, Fault::DropMid, Fault::Unsendable, Fault::DropEarly,
    Fault::Last, Fault::Delimited, Fault::IdleFin, Fault::IdleReset, Fault::IdleGarbage, Fault::IdleResponse,
];
/// The body of a response nobody asked for.
const UNASKED: u64 = u64::MAX - 7;
impl Fault {
    fn idle(self) -> bool {
        matches!(self, Fault::IdleFin | Fault::IdleReset | Fault::IdleGarbage | Fault::IdleResponse)
    }
    fn slot(self, r: &mut Rng) -> usize {
        match self {
            Fault::BadHeader | Fault::MissingHeader | Fault::Unsendable => 2,
            Fault::UnknownAlternative => 3,
            Fault::None => *r.pick(&[0usize, 1, 2, 3]),
            _ => *r.pick(&[0usize, 2, 3]),
        }
    }
}
#[derive(Clone, Debug)]
enum Ev {
    Open(usize),
    Request(usize, u64),
    Closed(usize),
}
fn fault_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let plan: Arc<Mutex<HashMap<u64, Fault>>> = Arc::default();
    let log: Log<Ev> = Log::default();
    let mid: Arc<Mutex<HashSet<u64>>> = Arc::default();
    // set once the caller has dropped its call
    let dropped: Arc<Mutex<HashSet<u64>>> = Arc::default();
    let (p2, l2, m2, d2) = (plan.clone(), log.clone(), mid.clone(), dropped.clone());
    let fseed = r.next();
    let fake = Fake::start(move |i, mut c| {
        let mut r = Rng::derive(fseed, "conn", i as u64);
        c.timeout = Duration::from_secs(30);
        l2.push(Ev::Open(i));
        loop {
            let m = match c.request() {
                Recv::Msg(m) => m,
                Recv::Timeout(_) => continue,
                _ => break,
            };
            let id = id_of(&m);
            l2.push(Ev::Request(i, id));
            let fault = p2.lock().unwrap().get(&id).cloned().unwrap_or(Fault::None);
            let mut body = id.to_le_bytes().to_vec();
            body.extend(vec![b'r'; *r.pick(&[0usize, 100, 20_000])]);
            let status = if m.start.1.starts_with("/t3/") { *r.pick(&[200u16, 404, 503]) } else { crate::status::any_final(&mut r) };
            let ok = http_response(status, &[("X-N", "7")], &body);
            let head = ok.len() - body.len();
            match fault {
                Fault::None | Fault::Unsendable | Fault::DropEarly => {
                    let k = if m.start.0 == "HEAD" { head } else { ok.len() };
                    if !c.send(&ok[..k]) {
                        break;
                    }
                }
                Fault::IdleFin | Fault::IdleReset | Fault::IdleGarbage | Fault::IdleResponse => {
                    let extra = match fault {
                        Fault::IdleGarbage => r.pick(&[&b"\r\n"[..], b"x", b"garbage"]).to_vec(),
                        Fault::IdleResponse => {
                            let mut b = UNASKED.to_le_bytes().to_vec();
                            b.extend_from_slice(b"unasked");
                            http_response(200, &[("X-N", "7")], &b)
                        }
                        _ => vec![],
                    };
                    if !extra.is_empty() && r.chance(1, 3) {
                        // together with the response
                        let mut v = ok.clone();
                        v.extend_from_slice(&extra);
                        c.send(&v);
                    } else {
                        c.send(&ok);
                        let t0 = Instant::now();
                        while !d2.lock().unwrap().contains(&id) && t0.elapsed() < Duration::from_secs(10) {
                            std::thread::sleep(Duration::from_micros(200));
                        }
                        c.send(&extra);
                    }
                    match fault {
                        Fault::IdleFin if r.chance(1, 2) => c.fin(),
                        Fault::IdleFin => {
                            drop(c);
                            m2.lock().unwrap().insert(id);
                            l2.push(Ev::Closed(i));
                            return;
                        }
                        Fault::IdleReset => {
                            c.reset();
                            m2.lock().unwrap().insert(id);
                            l2.push(Ev::Closed(i));
                            return;
                        }
                        _ => {}
                    }
                    m2.lock().unwrap().insert(id);
                }
                Fault::Last => {
                    let say = *r.pick(&[
                        "HTTP/1.1 200 OK\r\nConnection: close\r\n", "HTTP/1.1 200 OK\r\nconnection:CLOSE\r\n", "HTTP/1.1 200 OK\r\nConnection: Close , foo\r\n",
                        "HTTP/1.1 200 OK\r\nConnection: foo,close\r\n", "HTTP/1.1 200 OK\r\nConnection: foo\r\nConnection: close\r\n", "HTTP/1.0 200 OK\r\n",
                        "HTTP/1.0 200 OK\r\nConnection: foo\r\n",
                    ]);
                    let mut v = say.as_bytes().to_vec();
                    let framed = if r.chance(1, 4) && say.contains("1.1") {
                        let mut f = b"Transfer-Encoding: chunked\r\n\r\n".to_vec();
                        f.extend(chunked(&body, &mut r));
                        f
                    } else {
                        let mut f = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
                        f.extend_from_slice(&body);
                        f
                    };
                    v.extend_from_slice(b"X-N: 7\r\n");
                    v.extend(framed);
                    c.send(&v);
                    // whether it is closed here is up to the client
                }
                Fault::Delimited => {
                    let mut v = b"HTTP/1.1 200 OK\r\nX-N: 7\r\n\r\n".to_vec();
                    v.extend_from_slice(&body);
                    c.send(&v);
                    // closed for writing only: another request would still arrive
                    c.fin();
                }
                Fault::Close => break,
                Fault::Reset => {
                    c.reset();
                    l2.push(Ev::Closed(i));
                    return;
                }
                Fault::PartHead => {
                    c.send(&ok[..r.below(head)]);
                    break;
                }
                Fault::PartBody => {
                    c.send(&ok[..head + r.below(body.len())]);
                    break;
                }
                Fault::PartBodyReset => {
                    c.send(&ok[..head + r.below(body.len())]);
                    std::thread::sleep(Duration::from_millis(1));
                    c.reset();
                    l2.push(Ev::Closed(i));
                    return;
                }
                Fault::Garbage => {
                    c.send(*r.pick(&[&b"\x00\x01\x02garbage\r\n\r\n"[..], b"HTTX/1.1 200 OK\r\n\r\n", b"200 OK\r\n\r\n", b"HTTP/1.1 2x0 OK\r\n\r\n", b"HTTP/1.1 200 OK\r\nno colon\r\n\r\n"]));
                }
                Fault::BadLength => {
                    c.send(*r.pick(&[&b"HTTP/1.1 200 OK\r\nX-N: 7\r\nContent-Length: abc\r\n\r\nxyz"[..], b"HTTP/1.1 200 OK\r\nX-N: 7\r\nContent-Length: -1\r\n\r\n"]));
                }
                Fault::BadHeader => {
                    c.send(&http_response(200, &[("X-N", *r.pick(&["abc", "-1", "4294967296", ""]))], &body));
                }
                Fault::MissingHeader => {
                    c.send(&http_response(200, &[("X-M", "7")], &body));
                }
                Fault::UnknownAlternative => {
                    c.send(&http_response(*r.pick(&[201u16, 500, 302]), &[], &body));
                }
                Fault::DropWaiting | Fault::DropMid => {
                    let cut = if fault == Fault::DropMid { head + r.below(body.len()) } else { 0 };
                    c.send(&ok[..cut]);
                    m2.lock().unwrap().insert(id);
                    let t0 = Instant::now();
                    while !d2.lock().unwrap().contains(&id) && t0.elapsed() < Duration::from_secs(10) {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    std::thread::sleep(Duration::from_micros(r.below(500) as u64));
                    // the answer to a call nobody waits for any more
                    c.send(&ok[cut..]);
                }
            }
        }
        l2.push(Ev::Closed(i));
    });
    let cli = Exec::new(r.range(1, 3));
    let pool = RpcClientPool::with_pool_size(*r.pick(&[1usize, 4, 100]));
    let ph = pool.handle();
    cli.spawn_pool(pool);
    let mut history = Vec::new();
    let mut failed_ids: HashMap<u64, Fault> = HashMap::new();
    let mut must_close: Vec<(u64, Fault)> = Vec::new();
    let n = r.range(6, 24);
    for _ in 0..n {
        // a few concurrent calls, some of which fail
        let k = *r.pick(&[1usize, 1, 2, 5]);
        let mut set = Vec::new();
        for _ in 0..k {
            let mut fault = if r.chance(1, 2) { *r.pick(FAULTS) } else { Fault::None };
            if fault.idle() && k > 1 {
                // a concurrent call could already use the connection when the server ends it
                fault = Fault::None;
            }
            let id = next_id();
            let s = fault.slot(&mut r);
            plan.lock().unwrap().insert(id, fault);
            let bl = *r.pick(&[0usize, 30, 2000]);
            let mut q = pool_req(s, id, vec![b'q'; bl]);
            if fault == Fault::Unsendable {
                q.header = Vals::Struct(vec![Some(Val::Str("two\r\nlines: x".into()))]);
            }
            let (p, a) = cli.start_abortable(pool_call(&ph, fake.addr, s, q));
            set.push((fault, id, s, p, a));
        }
        for (fault, id, s, p, mut a) in set {
            history.push(fault);
            ctx.count(&format!("fault {:?}", fault), 1);
            let o = match fault {
                Fault::DropWaiting | Fault::DropMid => {
                    if !wait_for(Duration::from_secs(10), || mid.lock().unwrap().contains(&id)) {
                        return maybe("call-stalled", format!("a request did not arrive; history {:?}", history));
                    }
                    a.abort();
                    let o = p.wait(WATCHDOG);
                    dropped.lock().unwrap().insert(id);
                    o
                }
                Fault::DropEarly => {
                    std::thread::sleep(Duration::from_micros(*r.pick(&[0u64, 50, 200, 1000])));
                    a.abort();
                    p.wait(WATCHDOG)
                }
                _ => p.wait(WATCHDOG),
            };
            ctx.eval(&format!("{:?} {} {:?}", fault, s, &history[history.len().saturating_sub(4)..]));
            match (&o, fault) {
                (Out::Ok(v), Fault::None) | (Out::Ok(v), Fault::DropEarly) | (Out::Ok(v), Fault::Last) | (Out::Ok(v), Fault::Delimited) | (Out::Ok(v), Fault::IdleFin) | (Out::Ok(v), Fault::IdleReset) | (Out::Ok(v), Fault::IdleGarbage) | (Out::Ok(v), Fault::IdleResponse) => {
                    ctx.count("calls_ok", 1);
                    if s != 1 && call_id(&v.body) == Some(UNASKED) {
                        return maybe("foreign-response", format!("call {} got a response that was sent while the connection was idle; history {:?}", id, history));
                    }
                    if fault.idle() {
                        failed_ids.insert(id, fault);
                        dropped.lock().unwrap().insert(id);
                        if !wait_for(Duration::from_secs(10), || mid.lock().unwrap().contains(&id)) {
                            return maybe("call-stalled", format!("the server did not act; history {:?}", history));
                        }
                        // let it arrive
                        std::thread::sleep(Duration::from_millis(20));
                    }
                    if fault == Fault::Last || fault == Fault::Delimited {
                        failed_ids.insert(id, fault);
                        must_close.push((id, fault));
                    }
                    if s != 1 && call_id(&v.body) != Some(id) {
                        return def("foreign-response", format!("call {} got the response to {:?}; history {:?}", id, call_id(&v.body), history));
                    }
                }
                (o, f) if matches!(f, Fault::None | Fault::Last | Fault::Delimited) || f.idle() => {
                    return maybe("healthy-call-failed", format!("after {:?}: {}", &history[history.len().saturating_sub(8)..], o.describe()));
                }
                (Out::Ok(v), _) if call_id(&v.body) == Some(UNASKED) => {
                    return maybe("foreign-response", format!("call {} got a response that was sent while the connection was idle; history {:?}", id, history));
                }
                (Out::Ok(v), f) => {
                    return def("wrong-success", format!("a call with {:?} reported success {} ({} body bytes); history {:?}", f, v.status, v.body.len(), history));
                }
                (Out::Stalled, f) => return maybe("call-stalled", format!("{:?}; history {:?}", f, history)),
                (_, f) => {
                    failed_ids.insert(id, f);
                    must_close.push((id, f));
                }
            }
        }
    }
    // every connection whose call failed is closed, and carried nothing afterwards
    let check = |log: &Log<Ev>| -> Result<(), (bool, String)> {
        let ev = log.snapshot();
        let mut dead: HashMap<usize, Fault> = HashMap::new();
        let mut closed: HashSet<usize> = HashSet::new();
        for e in &ev {
            match e {
                Ev::Open(_) => {}
                Ev::Request(c, id) => {
                    if let Some(f) = dead.get(c) {
                        return Err((!f.idle(), format!("a connection whose call ended with {:?} carried another call", f)));
                    }
                    if let Some(f) = failed_ids.get(id) {
                        if *f == Fault::Unsendable {
                            return Err((true, "a call whose arguments cannot be sent was sent".into()));
                        }
                        dead.insert(*c, *f);
                    }
                }
                Ev::Closed(c) => {
                    closed.insert(*c);
                }
            }
        }
        for (c, f) in &dead {
            // what happens to an idle one is noticed when it is to be used
            if !closed.contains(c) && !f.idle() {
                return Err((false, format!("the connection of a call that ended with {:?} is still open", f)));
            }
        }
        Ok(())
    };
    let mut res = check(&log);
    let t0 = Instant::now();
    while matches!(res, Err((false, _))) && t0.elapsed() < Duration::from_secs(8) {
        std::thread::sleep(Duration::from_millis(1));
        res = check(&log);
    }
    match res {
        Err((true, d)) => return def("failed-connection-reused", format!("{}; history {:?}", d, history)),
        Err((false, d)) => return maybe("failed-connection-kept", format!("{}; history {:?}", d, history)),
        Ok(()) => {}
    }
    ctx.count("failed_connections_checked", must_close.len() as u64);
    if ctx.counter("rounds") < 3 {
        ctx.sample(json!({"history": history.iter().map(|f| format!("{:?}", f)).collect::<Vec<_>>()}));
    }
    ctx.count("rounds", 1);
    None
}
/// Unsendable arguments: the connection they were meant for must go, too (seen with a pool of
/// idle connections: one fewer afterwards).
fn unsendable_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let seen: Arc<Mutex<Seen>> = Arc::default();
    let fakes = held_servers(&mut r, 1, &seen);
    let cli = Exec::new(1);
    let pool = RpcClientPool::new();
    let ph = pool.handle();
    cli.spawn_pool(pool);
    let n = r.range(1, 4);
    let ids: Vec<u64> = (0..n).map(|_| next_id()).collect();
    let pend: Vec<_> = ids.iter().map(|id| cli.start(pool_call(&ph, fakes[0].addr, 0, id_req(*id, vec![])))).collect();
    if !wait_for(Duration::from_secs(8), || ids.iter().all(|i| seen.lock().unwrap().arrived.contains_key(i))) {
        return maybe("call-stalled", "requests did not arrive".into());
    }
    for i in &ids {
        seen.lock().unwrap().go.insert(*i);
    }
    for p in pend {
        if !p.wait(WATCHDOG).is_ok() {
            return maybe("healthy-call-failed", "warm-up".into());
        }
    }
    let k = r.range(1, n);
    for _ in 0..k {
        let mut q = pool_req(2, next_id(), vec![]);
        q.header = Vals::Struct(vec![Some(Val::Str("a\nb".into()))]);
        if cli.run(pool_call(&ph, fakes[0].addr, 2, q), WATCHDOG).is_ok() {
            return def("wrong-success", "a call with unsendable arguments succeeded".into());
        }
    }
    ctx.eval(&format!("unsendable {} {}", n, k));
    if !wait_for(Duration::from_secs(8), || seen.lock().unwrap().closed.len() >= k) {
        return maybe("failed-connection-kept", format!("{} of {} connections of calls whose arguments could not be sent were closed", seen.lock().unwrap().closed.len(), k));
    }
    ctx.count("unsendable_rounds", 1);
    None
}
pub fn c13(ctx: &Ctx) -> &'static str {
    pool_slots();
    rounds(ctx, 4, |ctx, seed| if seed % 6 == 0 { unsendable_round(ctx, seed) } else { fault_round(ctx, seed) });
    "a case is one pooled call with its fault and the preceding history (distinct by fault, procedure and the last four outcomes); the server's log of connections and requests must show no request on a connection after a failed call and its close, and calls without a fault must succeed with their own response"
}

// ---------------------------------------------------------------------------------------- C14

/// An address that can be switched between listening and refusing.
struct Switch {
    addr: SocketAddr,
    requests: Log<(Instant, u64)>,
    fake: Option<Fake>,
}
impl Switch {
    fn new(addr: SocketAddr) -> Switch {
        Switch { addr, requests: Log::default(), fake: None }
    }
    fn up(&mut self) -> bool {
        let l = match TcpListener::bind(self.addr) {
            Ok(l) => l,
            Err(_) => return false,
        };
        let log = self.requests.clone();
        self.fake = Some(Fake::with_listener(l, move |_, mut c| {
            c.timeout = Duration::from_secs(20);
            while let Recv::Msg(m) = c.request() {
                let id = id_of(&m);
                log.push((Instant::now(), id));
                if !c.send(&http_response(200, &[], &id.to_le_bytes())) {
                    return;
                }
            }
        }));
        true
    }
    fn down(&mut self) -> bool {
        self.fake = None;
        // until connections are refused
        wait_for(Duration::from_secs(5), || std::net::TcpStream::connect_timeout(&self.addr, Duration::from_millis(200)).is_err())
    }
    fn accepted(&self) -> usize {
        self.fake.as_ref().map(|f| f.accepted()).unwrap_or(0)
    }
}
fn suspend_pool(cli: &Exec, d: Duration, t: Option<Duration>) -> RpcClientPoolHandle {
    // size 0: every call needs a connection of its own
    let mut pool = RpcClientPool::with_pool_size(0);
    pool.set_suspended_duration(d);
    if let Some(t) = t {
        pool.set_connect_timeout(t);
    }
    let h = pool.handle();
    cli.spawn_pool(pool);
    h
}
/// Random history of ups, downs and calls against the interval model of the suspension.
fn suspend_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let d = Duration::from_millis(*r.pick(&[0u64, 60, 150, 300, 600]));
    let cli = Exec::new(r.range(1, 2));
    let ph = suspend_pool(&cli, d, if r.chance(1, 2) { Some(Duration::from_secs(5)) } else { None });
    let base = free_addr();
    let mut sw: Vec<Switch> = vec![Switch::new(base)];
    let second = SocketAddr::from((crate::rt::loopback(0, r.range(2, 9) as u8), base.port()));
    if TcpListener::bind(second).is_ok() {
        sw.push(Switch::new(second));
    }
    sw.push(Switch::new(free_addr()));
    // [lo, hi]: the suspension certainly lasts until lo, and is certainly over after hi
    let mut until: Vec<Option<(Instant, Instant)>> = vec![None; sw.len()];
    let mut up = vec![false; sw.len()];
    let slack = Duration::from_millis(1200);
    let mut trace: Vec<String> = Vec::new();
    let t00 = Instant::now();
    let steps = r.range(12, 30);
    let limit = Duration::from_secs(if ctx.thorough { 12 } else { 5 });
    for _ in 0..steps {
        if t00.elapsed() > limit {
            break;
        }
        let a = r.below(sw.len());
        match r.below(10) {
            0 | 1 => {
                if up[a] {
                    if !sw[a].down() {
                        return None; // the address is still in use: nothing to learn
                    }
                    up[a] = false;
                } else {
                    if !sw[a].up() {
                        return None;
                    }
                    up[a] = true;
                }
                trace.push(format!("{}ms a{} {}", t00.elapsed().as_millis(), a, if up[a] { "up" } else { "down" }));
            }
            2 => std::thread::sleep(Duration::from_millis(r.below(80) as u64)),
            3 => {
                // to just before or after the end of the suspension
                if let Some((lo, hi)) = until[a] {
                    let now = Instant::now();
                    let t = if r.chance(1, 2) { lo.checked_sub(Duration::from_millis(25)).unwrap_or(lo) } else { hi + Duration::from_millis(40) };
                    if t > now && t - now < Duration::from_secs(1) {
                        std::thread::sleep(t - now);
                    }
                }
            }
            _ => {
                let id = next_id();
                let before = sw[a].accepted();
                let t0 = Instant::now();
                let o = cli.run(pool_call(&ph, sw[a].addr, 0, id_req(id, vec![])), WATCHDOG);
                let t1 = Instant::now();
                let attempted = sw[a].requests.snapshot().iter().any(|x| x.1 == id) || sw[a].accepted() > before;
                let state = match until[a] {
                    Some((lo, _)) if t1 < lo => "suspended",
                    Some((_, hi)) if t0 < hi + slack => "unsure",
                    _ => "free",
                };
                trace.push(format!("{}ms a{} call ({}, {}) -> {}", (t0 - t00).as_millis(), a, if up[a] { "up" } else { "down" }, state, o.describe().chars().take(40).collect::<String>()));
                ctx.eval(&format!("{:?} {} {} {} {}", d, state, up[a], a, o.is_ok()));
                ctx.count(&format!("calls {}", state), 1);
                if matches!(o, Out::Stalled | Out::Vanished) {
                    return maybe("call-stalled", format!("suspension {:?}: {:?}", d, trace));
                }
                match state {
                    "suspended" => {
                        if attempted || o.is_ok() {
                            return def("attempted-while-suspended", format!("suspension {:?}: a connection was attempted {:?} before its certain end; {:?}", d, until[a].unwrap().0 - t1, trace));
                        }
                        if t1 - t0 > Duration::from_secs(3) {
                            return maybe("slow-refusal", format!("a suspended call took {:?}; {:?}", t1 - t0, trace));
                        }
                    }
                    "free" => {
                        if up[a] && !o.is_ok() {
                            return maybe("not-retried", format!("suspension {:?}: a call to an address that is up and not suspended fails ({}); {:?}", d, o.describe(), trace));
                        }
                    }
                    _ => {}
                }
                if o.is_ok() {
                    until[a] = None;
                    if !up[a] {
                        return def("wrong-success", format!("{:?}", trace));
                    }
                } else if !up[a] {
                    // refused: suspended from some moment between t0 and now, or still suspended
                    until[a] = Some(match until[a] {
                        Some((lo, hi)) if t1 < lo => (lo, hi),
                        // may have been refused by the old suspension or by a new attempt
                        Some((lo, hi)) if t0 < hi + slack => (lo, hi.max(t1 + d)),
                        _ => (t0 + d, t1 + d),
                    });
                }
            }
        }
    }
    if ctx.counter("rounds") < 3 {
        ctx.sample(json!({"suspension_ms": d.as_millis() as u64, "history": trace}));
    }
    ctx.count("rounds", 1);
    None
}
/// Persistent callers: the suspension ends even though calls keep coming during it.
fn persistent_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let d = Duration::from_millis(*r.pick(&[100u64, 250, 500]));
    let cli = Exec::new(1);
    let ph = suspend_pool(&cli, d, None);
    let mut sw = Switch::new(free_addr());
    let mut other = Switch::new(free_addr());
    if !other.up() {
        return None;
    }
    let gap = Duration::from_millis(*r.pick(&[1u64, 5, 20]));
    let t0 = Instant::now();
    let first = cli.run(pool_call(&ph, sw.addr, 0, id_req(next_id(), vec![])), WATCHDOG);
    let t1 = Instant::now();
    if first.is_ok() {
        return None;
    }
    if !sw.up() {
        return None;
    }
    let mut refused = 0;
    loop {
        let s = Instant::now();
        let id = next_id();
        let o = cli.run(pool_call(&ph, sw.addr, 0, id_req(id, vec![])), WATCHDOG);
        let e = Instant::now();
        ctx.count("persistent_calls", 1);
        match o {
            Out::Ok(_) => {
                if e < t0 + d {
                    return def("attempted-while-suspended", format!("suspension {:?}: attempted {:?} after the failed call began", d, e - t0));
                }
                break;
            }
            Out::Err(_) => {
                refused += 1;
                if e < t0 + d && sw.accepted() > 0 {
                    return def("attempted-while-suspended", format!("suspension {:?}: a connection was opened {:?} after the failed call began", d, e - t0));
                }
                if s > t1 + d + Duration::from_millis(2500) {
                    return maybe("not-retried", format!("suspension {:?}: {:?} after the failure calls are still refused ({} so far, one every {:?})", d, s - t1, refused, gap));
                }
            }
            o => return maybe("call-stalled", o.describe()),
        }
        if r.chance(1, 3) {
            let o = cli.run(pool_call(&ph, other.addr, 0, id_req(next_id(), vec![])), WATCHDOG);
            if !o.is_ok() {
                return maybe("other-affected", format!("a call to another address failed during the suspension: {}", o.describe()));
            }
            ctx.count("other_address_calls", 1);
        }
        std::thread::sleep(gap);
    }
    ctx.eval(&format!("persistent {:?} {:?} {}", d, gap, refused));
    ctx.count("persistent_rounds", 1);
    None
}
/// An address that neither accepts nor refuses: the connect timeout applies, then the suspension.
fn deaf_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let timeout = Duration::from_millis(*r.pick(&[150u64, 300, 600]));
    let d = Duration::from_millis(*r.pick(&[700u64, 1200]));
    let deaf = Deaf::start(crate::rt::loopback(0, 1))?;
    let cli = Exec::new(1);
    let ph = suspend_pool(&cli, d, Some(timeout));
    let mut other = Switch::new(SocketAddr::from((crate::rt::loopback(0, 3), deaf.addr.port())));
    let has_other = other.up();
    let t0 = Instant::now();
    let p = cli.start(pool_call(&ph, deaf.addr, 0, id_req(next_id(), vec![])));
    if has_other {
        let o = cli.run(pool_call(&ph, other.addr, 0, id_req(next_id(), vec![])), WATCHDOG);
        if !o.is_ok() {
            return maybe("other-affected", format!("while a connection attempt is pending: {}", o.describe()));
        }
    }
    let o = p.wait(WATCHDOG);
    let t1 = Instant::now();
    ctx.count("deaf_rounds", 1);
    match o {
        Out::Ok(_) => return def("wrong-success", "a call to a deaf address succeeded".into()),
        Out::Err(_) => {}
        o => return maybe("timeout-ignored", format!("connect timeout {:?}: the call does not end: {}", timeout, o.describe())),
    }
    if t1 - t0 > timeout + Duration::from_millis(2500) {
        return maybe("timeout-ignored", format!("connect timeout {:?}, but the call ended after {:?}", timeout, t1 - t0));
    }
    if t1 - t0 < timeout.mul_f64(0.5) {
        return maybe("timeout-early", format!("connect timeout {:?}, but the attempt was given up after {:?}", timeout, t1 - t0));
    }
    // suspended: immediate failure, no waiting for the timeout, no attempt even if it could succeed
    let mut calls = 0;
    let mut drained = false;
    let listener = std::cell::RefCell::new(0usize);
    while Instant::now() + Duration::from_millis(20) < t0 + d {
        let s = Instant::now();
        let o = cli.run(pool_call(&ph, deaf.addr, 0, id_req(next_id(), vec![])), WATCHDOG);
        let e = Instant::now();
        calls += 1;
        ctx.count("suspended_deaf_calls", 1);
        if o.is_ok() {
            return def("wrong-success", "a call to a deaf address succeeded".into());
        }
        if e < t0 + d && e - s > timeout.mul_f64(0.7) {
            return maybe("attempted-while-suspended", format!("suspension {:?}, connect timeout {:?}: a call during the suspension took {:?}, as if it had tried to connect", d, timeout, e - s));
        }
        if !drained {
            // make room in the backlog, so that an attempt would succeed and be noticed
            *listener.borrow_mut() += deaf.drain();
            drained = true;
        } else {
            let n = deaf.drain();
            if n > 0 && Instant::now() < t0 + d {
                return maybe("attempted-while-suspended", format!("suspension {:?}: {} connection(s) opened during it", d, n));
            }
        }
        std::thread::sleep(Duration::from_millis(r.range(5, 60) as u64));
    }
    ctx.eval(&format!("deaf {:?} {:?} {}", timeout, d, calls));
    // afterwards it is tried again: the attempt reaches the listener (there is room in its backlog)
    let over = t1 + d + Duration::from_millis(1200);
    let now = Instant::now();
    if over > now {
        std::thread::sleep(over - now);
    }
    let p = cli.start(pool_call(&ph, deaf.addr, 0, id_req(next_id(), vec![])));
    let stop = AtomicBool::new(false);
    let ok = wait_for(Duration::from_secs(4), || deaf.drain() > 0);
    stop.store(true, Ordering::SeqCst);
    let o = p.wait(WATCHDOG);
    if !ok {
        return maybe("not-retried", format!("suspension {:?} is over, but no connection was attempted ({})", d, o.describe()));
    }
    None
}
/// Two connection attempts that overlap and fail one after the other: the later failure suspends the
/// address as well, even if the suspension by the earlier one is over by then.
fn staggered_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let timeout = Duration::from_millis(*r.pick(&[900u64, 1500]));
    let d = Duration::from_millis(*r.pick(&[200u64, 300, 400]));
    let deaf = Deaf::start(crate::rt::loopback(0, 1))?;
    let cli = Exec::new(1);
    let ph = suspend_pool(&cli, d, Some(timeout));
    let offset = d.as_millis() as u64 + 100 + r.below((timeout.as_millis() as u64 - d.as_millis() as u64 - 300) as usize) as u64;
    let first = cli.start(pool_call(&ph, deaf.addr, 0, id_req(next_id(), vec![])));
    std::thread::sleep(Duration::from_millis(offset));
    let s2 = Instant::now();
    let second = cli.start(pool_call(&ph, deaf.addr, 0, id_req(next_id(), vec![])));
    let (o1, o2) = (first.wait(WATCHDOG), second.wait(WATCHDOG));
    let e2 = Instant::now();
    if o1.is_ok() || o2.is_ok() {
        return def("wrong-success", "a call to a deaf address succeeded".into());
    }
    if e2 - s2 < timeout.mul_f64(0.8) {
        return None; // not an attempt of its own
    }
    deaf.drain();
    let over = s2 + timeout.mul_f64(0.95) + d;
    let mut calls = 0;
    while Instant::now() + Duration::from_millis(20) < over {
        let s = Instant::now();
        let o = cli.run(pool_call(&ph, deaf.addr, 0, id_req(next_id(), vec![])), WATCHDOG);
        let e = Instant::now();
        let n = deaf.drain();
        calls += 1;
        ctx.count("calls_after_staggered_failures", 1);
        if o.is_ok() {
            return def("wrong-success", "a call to a deaf address succeeded".into());
        }
        if s + Duration::from_millis(20) < over && (n > 0 || e < over && e - s > timeout.mul_f64(0.7)) {
            return maybe("attempted-while-suspended", format!("suspension {:?}, connect timeout {:?}: after two overlapping attempts, begun {} ms apart, had failed, a call {:?} after the second one was attempted", d, timeout, offset, s - e2));
        }
        std::thread::sleep(Duration::from_millis(r.range(5, 40) as u64));
    }
    ctx.eval(&format!("staggered {:?} {:?} {} {}", timeout, d, offset / 50, calls));
    None
}
/// The default suspension is in force when nothing is configured, and so is any long one, however
/// long; idle connections elsewhere are not touched by it.
fn default_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let cli = Exec::new(1);
    let mut pool = if r.chance(1, 2) { RpcClientPool::new() } else { RpcClientPool::with_pool_size(5) };
    let year = 365 * 24 * 3600u64;
    let long = [30, 61, 3600, 24 * 3600, year, 30 * year, 300 * year, u32::max_value() as u64, i64::max_value() as u64, u64::max_value() - 1, u64::max_value()];
    let mut settings = String::new();
    if r.chance(2, 3) {
        let d = Duration::new(*r.pick(&long), *r.pick(&[0, 1, 999_999_999]));
        settings += &format!("suspended for {:?} ", d);
        pool.set_suspended_duration(d);
    }
    if r.chance(1, 2) {
        let t = Duration::new(*r.pick(&long), *r.pick(&[0, 1, 999_999_999]));
        settings += &format!("connect timeout {:?}", t);
        pool.set_connect_timeout(t);
    }
    let ph = pool.handle();
    cli.spawn_pool(pool);
    let mut sw = Switch::new(free_addr());
    let mut other = Switch::new(free_addr());
    if !other.up() {
        return None;
    }
    let call_ = |a: SocketAddr| cli.run(pool_call(&ph, a, 0, id_req(next_id(), vec![])), WATCHDOG);
    if !call_(other.addr).is_ok() {
        return maybe("other-affected", format!("first call; settings: {:?}", settings));
    }
    if call_(sw.addr).is_ok() || !sw.up() {
        return None;
    }
    for i in 0..r.range(5, 15) {
        let o = call_(sw.addr);
        if o.is_ok() || sw.accepted() > 0 {
            return def("attempted-while-suspended", format!("settings {:?} (else default), call {} right after a failed attempt was attempted", settings, i));
        }
        if !call_(other.addr).is_ok() {
            return maybe("other-affected", format!("during the suspension of another address; settings: {:?}", settings));
        }
        ctx.count("default_or_long_settings_calls", 2);
        std::thread::sleep(Duration::from_millis(r.below(30) as u64));
    }
    if other.accepted() > 1 {
        return maybe("other-affected", format!("{} connections to the other address instead of one", other.accepted()));
    }
    ctx.eval(&format!("default or long: {}", settings));
    None
}
/// Connections that were opened before the address became unreachable: calls over them complete
/// during the suspension, which neither shortens nor prolongs it.
fn surviving_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let d = Duration::from_millis(*r.pick(&[300u64, 600, 1000]));
    let cli = Exec::new(r.range(1, 2));
    let mut pool = RpcClientPool::with_pool_size(*r.pick(&[0usize, 1, 5]));
    pool.set_suspended_duration(d);
    let ph = pool.handle();
    cli.spawn_pool(pool);
    let l = listeners(&mut r, 1).pop()?;
    let addr = l.local_addr().ok()?;
    let n = r.range(1, 4);
    let mut held = Vec::new();
    for _ in 0..n {
        let id = next_id();
        let p = cli.start(pool_call(&ph, addr, 0, id_req(id, vec![])));
        let mut c = Conn::from(l.accept().ok()?.0);
        match c.request() {
            Recv::Msg(m) if id_of(&m) == id => {}
            _ => return None,
        }
        held.push((id, p, c));
    }
    drop(l);
    let mut sw = Switch::new(addr);
    if !sw.down() {
        return None;
    }
    let t0 = Instant::now();
    let o = cli.run(pool_call(&ph, addr, 0, id_req(next_id(), vec![])), WATCHDOG);
    let t1 = Instant::now();
    match o {
        Out::Err(_) => {}
        Out::Ok(_) => return def("wrong-success", "a call to an address that refuses connections succeeded".into()),
        o => return maybe("call-stalled", o.describe()),
    }
    if !sw.up() {
        return None;
    }
    let mut conns = Vec::new();
    let mut calls = 0;
    let mut over = 0;
    loop {
        if !held.is_empty() && r.chance(1, 2) {
            let (id, p, mut c) = held.remove(0);
            c.send(&http_response(200, &[], &id.to_le_bytes()));
            let o = p.wait(WATCHDOG);
            over += 1;
            if !o.is_ok() {
                return maybe("other-affected", format!("a call that was already in progress when the address became unreachable failed: {}", o.describe()));
            }
            conns.push(c);
        }
        // certainly still suspended: the call has to end by itself, at once
        let p = cli.start(pool_call(&ph, addr, 0, id_req(next_id(), vec![])));
        let left = (t0 + d).checked_duration_since(Instant::now()).unwrap_or_default();
        let o = p.wait(left.checked_sub(Duration::from_millis(40)).unwrap_or_default());
        // a request on an older connection that has arrived by now was sent during the suspension
        let used = conns.iter_mut().position(|c| c.peek_now() > 0);
        let e = Instant::now();
        if e >= t0 + d || left < Duration::from_millis(80) {
            break;
        }
        calls += 1;
        ctx.count("calls after a call over an older connection completed", (over > 0) as u64);
        if o.is_ok() || sw.accepted() > 0 {
            return def("attempted-while-suspended", format!("suspension {:?}: attempted {:?} after the failed call began, when {} of {} earlier calls had completed", d, e - t0, over, n));
        }
        if let Some(c) = used {
            return def("attempted-while-suspended", format!("suspension {:?}: a request arrived on connection {} {:?} after the failed call began", d, c, e - t0));
        }
        std::thread::sleep(Duration::from_millis(r.range(1, 40) as u64));
    }
    // over: attempted again (over a connection that is still there, or a new one)
    drop(conns);
    drop(held);
    let end = t1 + d + Duration::from_millis(1200);
    let mut last = String::new();
    for _ in 0..8 {
        // a few calls may meet the connections just closed
        let now = Instant::now();
        if end > now {
            std::thread::sleep(end - now);
        }
        match cli.run(pool_call(&ph, addr, 0, id_req(next_id(), vec![])), WATCHDOG) {
            Out::Ok(_) => {
                ctx.eval(&format!("surviving {:?} {} {}", d, n, over));
                ctx.count("surviving_rounds", 1);
                ctx.count("surviving_calls", calls);
                return None;
            }
            o => last = o.describe(),
        }
    }
    maybe("not-retried", format!("suspension {:?} is over and the address is up, but calls fail: {}", d, last))
}
/// Many addresses suspended at the same time, next to addresses that are well.
fn many_round(ctx: &Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let n = *r.pick(&[5usize, 9, 17, 40, 70, 130]);
    let d = Duration::from_millis(*r.pick(&[1500u64, 3000, 4000]));
    let cli = Exec::new(r.range(1, 2));
    let ph = suspend_pool(&cli, d, None);
    let mut sw: Vec<Switch> = Vec::new();
    let base = free_addr();
    for i in 0..n {
        // same port on other hosts, and other ports
        let a = if i % 3 == 0 { free_addr() } else { SocketAddr::from(([127, 1, (i / 250) as u8, (i % 250) as u8 + 1], base.port())) };
        sw.push(Switch::new(a));
    }
    let mut well = Switch::new(free_addr());
    if !well.up() {
        return None;
    }
    let t0 = Instant::now();
    let mut failed: Vec<Option<(Instant, Instant)>> = Vec::new();
    for (i, s) in sw.iter().enumerate() {
        let b = Instant::now();
        let o = cli.run(pool_call(&ph, s.addr, 0, id_req(next_id(), vec![])), WATCHDOG);
        match o {
            Out::Err(_) => failed.push(Some((b, Instant::now()))),
            Out::Ok(_) => return None, // somebody else listens there
            o => return maybe("call-stalled", format!("{} addresses: call {}: {}", n, i, o.describe())),
        }
        if r.chance(1, 6) {
            let o = cli.run(pool_call(&ph, well.addr, 0, id_req(next_id(), vec![])), WATCHDOG);
            if !o.is_ok() {
                return maybe("other-affected", format!("a call to another address failed while {} addresses are suspended: {}", i + 1, o.describe()));
            }
            ctx.count("other_address_calls", 1);
        }
    }
    for s in sw.iter_mut() {
        if !s.up() {
            return None;
        }
    }
    // while suspended: in another order, some repeatedly
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let extra = order.iter().take(3).cloned().collect::<Vec<_>>();
    order.extend(extra);
    let mut seen = 0;
    for i in order.iter() {
        let (b, _) = failed[*i].unwrap();
        let s0 = Instant::now();
        let o = cli.run(pool_call(&ph, sw[*i].addr, 0, id_req(next_id(), vec![])), WATCHDOG);
        let certain = Instant::now() < b + d;
        if s0.elapsed() > Duration::from_millis(1000) {
            return maybe("slow-refusal", format!("suspension {:?}: a call {:?} after the failed one took {:?}", d, s0 - b, s0.elapsed()));
        }
        if matches!(o, Out::Stalled | Out::Vanished) {
            return maybe("call-stalled", format!("{} suspended addresses: {}", n, o.describe()));
        }
        if certain {
            seen += 1;
            if o.is_ok() || sw[*i].accepted() > 0 {
                return def("attempted-while-suspended", format!("suspension {:?}: with {} addresses suspended, address number {} was contacted {:?} after its failed call began", d, n, i, b.elapsed()));
            }
        }
    }
    ctx.count("many_suspended_calls", seen as u64);
    ctx.eval(&format!("many {} {:?} {}", n, d, seen > 0));
    // afterwards: all of them are attempted again
    let over = failed.iter().map(|f| f.unwrap().1).max().unwrap() + d + Duration::from_millis(1300);
    if let Some(w) = over.checked_duration_since(Instant::now()) {
        std::thread::sleep(w);
    }
    r.shuffle(&mut order);
    for i in order {
        let o = cli.run(pool_call(&ph, sw[i].addr, 0, id_req(next_id(), vec![])), WATCHDOG);
        if !o.is_ok() {
            return maybe("not-retried", format!("suspension {:?}: {:?} after the first of {} failures address number {} is up and calls still fail: {}", d, t0.elapsed(), n, i, o.describe()));
        }
    }
    ctx.count("many_rounds", 1);
    None
}
pub fn c14(ctx: &'static Ctx) -> &'static str {
    pool_slots();
    // The wall clock may be set at any time; the suspension is a length of time.
    crate::clock::unsteady(ctx.rng("clock", 0).next(), move || ctx.count("clock_steps", 1));
    rounds(ctx, 8, |ctx, seed| match seed % 14 {
        12 | 13 => staggered_round(ctx, seed),
        9 | 10 => many_round(ctx, seed),
        7 | 8 => surviving_round(ctx, seed),
        0 | 1 | 2 => suspend_round(ctx, seed),
        3 | 4 => persistent_round(ctx, seed),
        5 => deaf_round(ctx, seed),
        _ => default_round(ctx, seed),
    });
    "a case is one call in a history of listeners going up and down and calls (distinct by suspension time, certain state of the suspension, listener state, address, outcome) plus rounds with persistent callers, addresses that neither accept nor refuse, a wall clock that is stepped all the time, up to 130 suspended addresses at a time, and default settings; while the suspension certainly lasts (counted from the start of the failed call) no connection may reach the address, and when it is certainly over (with slack) calls must be attempted"
}
