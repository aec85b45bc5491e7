//! Long pauses: scenarios whose interesting part is seconds long (idle connections, slow peers, slow
//! handlers, long suspensions). They run beside the main workload of a check, on servers of their
//! own, and are judged at its end.
use crate::c_robust::Deaf;
use crate::ctx::Ctx;
use crate::net::*;
use crate::rt::*;
use crate::trip::next_id;
use fibers::Spawn;
use futures::Future;
use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use htrpc::types::{EntryPoint, HttpMethod, NeverFail, PathSegment};
use htrpc::{BodyReader, HandleRpc, Procedure, ReadBody, RpcClient, RpcRequest, RpcResponse};
use serde::{Deserialize, Serialize};
use std::net::{SocketAddr, TcpListener};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Debug, Clone)]
struct SlowReq {
    /// call, delay of the handler in ms, size of the response
    path: (u64, u64, u64),
    #[serde(skip)]
    body: Vec<u8>,
}
impl RpcRequest for SlowReq {
    fn body(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.body)
    }
    fn read_body(mut self, b: BodyReader) -> ReadBody<Self> {
        use htrpc::FutureExt;
        Box::new(b.read_all_bytes().map_err(htrpc::Error::from).map(move |(b, v)| {
            self.body = v;
            (b, self)
        }))
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct SlowResp {
    status: u16,
    #[serde(skip)]
    body: Vec<u8>,
}
impl RpcResponse for SlowResp {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(std::mem::take(&mut self.body))
    }
    fn set_body(&mut self, b: Vec<u8>) {
        self.body = b;
    }
}
struct SlowProc;
impl Procedure for SlowProc {
    type Request = SlowReq;
    type Response = SlowResp;
    fn method() -> HttpMethod {
        HttpMethod::Put
    }
    fn entry_point() -> EntryPoint {
        EntryPoint::new(&[PathSegment::Val("slow"), PathSegment::Var, PathSegment::Var, PathSegment::Var])
    }
}
/// Content that belongs to one call.
fn content(id: u64, size: usize) -> Vec<u8> {
    let mut v = id.to_le_bytes().to_vec();
    let mut x = id.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    while v.len() < size {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(size.max(8));
    v
}
#[derive(Clone, Default)]
struct SlowHandler {
    runs: Arc<Mutex<Vec<(u64, Vec<u8>)>>>,
}
impl HandleRpc<SlowProc> for SlowHandler {
    type Future = Box<dyn Future<Item = SlowResp, Error = NeverFail> + Send>;
    fn handle_rpc(self, r: SlowReq) -> Self::Future {
        let (id, ms, size) = r.path;
        self.runs.lock().unwrap().push((id, r.body));
        let resp = SlowResp { status: 200, body: content(id, size as usize) };
        if ms == 0 {
            Box::new(futures::finished(resp))
        } else {
            Box::new(fibers::time::timer::timeout(Duration::from_millis(ms)).then(|_| Ok(resp)))
        }
    }
}
impl SlowHandler {
    fn ran(&self, id: u64) -> Vec<Vec<u8>> {
        self.runs.lock().unwrap().iter().filter(|r| r.0 == id).map(|r| r.1.clone()).collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Lane {
    /// Connections that are idle before the first and between two requests.
    IdleConn,
    /// Requests whose head or body arrives with long pauses.
    SlowRequest,
    /// A large response the client stops reading for a while.
    SlowReader,
    SlowHandler,
    /// Responses that arrive with long pauses, single and pooled calls.
    SlowServer,
    /// A pooled connection that is idle between two calls.
    IdlePool,
    /// A long suspension time, and the default one.
    LongSuspension,
    /// A connect time-out of some seconds.
    LongConnect,
    /// A pool that is dropped while a call waits long, and one that is not used for long.
    PoolDrop,
    /// One connection, used without a pause all the time.
    Marathon,
}
struct Bad {
    definite: bool,
    sig: &'static str,
    detail: String,
}
type Res = Result<u64, Bad>;
fn bad<T>(sig: &'static str, detail: String) -> Result<T, Bad> {
    Err(Bad { definite: false, sig, detail })
}
fn wrong<T>(sig: &'static str, detail: String) -> Result<T, Bad> {
    Err(Bad { definite: true, sig, detail })
}

pub struct Patience {
    runs: Vec<(Lane, f64, std::thread::JoinHandle<Res>)>,
}
/// Starts the scenarios; the pauses fit into the budget of the check.
pub fn launch(ctx: &Ctx, lanes: &[Lane]) -> Patience {
    let budget = ctx.budget.as_secs_f64();
    let mut runs = Vec::new();
    for l in lanes {
        let times: Vec<f64> = [2.2f64, 5.4, 10.6, 16.0, 31.0, 61.5, 95.0, 125.0].iter().cloned().filter(|t| *t <= budget * 0.85).collect();
        for t in times.iter().cloned() {
            if *l != Lane::Marathon || Some(&t) == times.last() {
                let l = *l;
                let h = std::thread::Builder::new()
                    .spawn(move || {
                        mark_harness();
                        run(l, t)
                    })
                    .expect("thread");
                runs.push((l, t, h));
            }
        }
    }
    Patience { runs }
}
impl Patience {
    pub fn finish(self, ctx: &Ctx) {
        let mut again: Vec<(Lane, f64, Bad)> = Vec::new();
        for (l, t, h) in self.runs {
            match h.join() {
                Ok(Ok(n)) => {
                    ctx.eval(&format!("pause {:?} {}", l, t));
                    ctx.count("long_pause_observations", n);
                    ctx.max("longest_pause_s", t as u64);
                }
                Ok(Err(b)) if b.definite => ctx.violate(b.sig, format!("{:?}, {} s: {}", l, t, b.detail)),
                Ok(Err(b)) => {
                    if !again.iter().any(|a| a.0 == l) {
                        again.push((l, t, b));
                    }
                }
                Err(_) => ctx.inconclusive("harness panic".into()),
            }
        }
        for (l, t, b) in again {
            if ctx.violation_count() > 0 {
                return;
            }
            eprintln!("[{}] {:?} with a pause of {} s: {}; once more", ctx.id, l, t, b.detail);
            match run(l, t) {
                Err(b) => ctx.violate(b.sig, format!("{:?}, {} s: {}", l, t, b.detail)),
                Ok(_) => ctx.count("unreproduced_failures", 1),
            }
        }
    }
}
fn run(l: Lane, t: f64) -> Res {
    match l {
        Lane::IdleConn => idle_conn(t),
        Lane::SlowRequest => slow_request(t),
        Lane::SlowReader => slow_reader(t),
        Lane::SlowHandler => slow_handler(t),
        Lane::SlowServer => slow_server(t),
        Lane::IdlePool => idle_pool(t),
        Lane::LongSuspension => long_suspension(t),
        Lane::LongConnect => long_connect(t),
        Lane::PoolDrop => pool_drop(t),
        Lane::Marathon => marathon(t),
    }
}
fn secs(t: f64) -> Duration {
    Duration::from_secs_f64(t)
}
fn serve() -> (Server, SlowHandler) {
    let h = SlowHandler::default();
    let h2 = h.clone();
    let s = Server::start(2, |b| {
        b.register(h2.clone(), SlowProc).expect("register");
    });
    (s, h)
}
fn raw(id: u64, ms: u64, size: usize, body: &[u8]) -> Vec<u8> {
    http_request("PUT", &format!("/slow/{}/{}/{}", id, ms, size), &[], body)
}
fn slow_req(id: u64, ms: u64, size: u64, body: Vec<u8>) -> SlowReq {
    SlowReq { path: (id, ms, size), body }
}
fn connect(addr: SocketAddr, t: f64) -> Result<Conn, Bad> {
    match Conn::connect(addr) {
        Ok(mut c) => {
            c.timeout = secs(t + 30.0);
            Ok(c)
        }
        Err(e) => bad("no-connection", e.to_string()),
    }
}
/// The response to call `id` is complete and its own; its handler ran once with this body.
fn expect(c: &mut Conn, h: &SlowHandler, id: u64, size: usize, body: &[u8], what: &str) -> Result<(), Bad> {
    match c.response(false) {
        Recv::Msg(m) => {
            if m.status() != 200 || m.body != content(id, size) {
                return wrong("wrong-response", format!("{}: status {}, {} bytes that are not the response", what, m.status(), m.body.len()));
            }
            check_runs(h, id, body, what)
        }
        o => bad("no-response", format!("{}: {}", what, o.describe())),
    }
}
fn check_runs(h: &SlowHandler, id: u64, body: &[u8], what: &str) -> Result<(), Bad> {
    let runs = h.ran(id);
    if runs.len() != 1 {
        return wrong("wrong-runs", format!("{}: answered, but the handler ran {} times", what, runs.len()));
    }
    if runs[0] != body {
        return wrong("wrong-body", format!("{}: the handler got {} bytes that are not the {} sent", what, runs[0].len(), body.len()));
    }
    Ok(())
}
fn idle_conn(t: f64) -> Res {
    let (s, h) = serve();
    let mut a = connect(s.addr, t)?;
    let mut b = connect(s.addr, t)?;
    let mut n = 0;
    for round in 0..3 {
        let id = next_id();
        a.send(&raw(id, 0, 100, b"x"));
        expect(&mut a, &h, id, 100, b"x", &format!("request {} on a connection idle for {} s", round, if round == 1 { t } else { 0.0 }))?;
        n += 1;
        if round == 0 {
            std::thread::sleep(secs(t));
            let id = next_id();
            b.send(&raw(id, 0, 100, b""));
            expect(&mut b, &h, id, 100, b"", &format!("first request, sent {} s after connecting", t))?;
            n += 1;
        }
    }
    Ok(n)
}
fn slow_request(t: f64) -> Res {
    let (s, h) = serve();
    let addr = s.addr;
    let mut th = Vec::new();
    for kind in 0..4 {
        let h = h.clone();
        th.push(thread_res(move || {
            let mut c = connect(addr, t)?;
            let id = next_id();
            let body = content(id ^ 77, 3000);
            let msg = raw(id, 0, 50, &body);
            let head = msg.len() - body.len();
            let cuts: Vec<usize> = match kind {
                0 => vec![head / 2],
                1 => vec![head],
                2 => vec![head + 1500],
                _ => (1..20).map(|i| msg.len() * i / 20).collect(),
            };
            let pause = secs(t / cuts.len() as f64);
            let mut at = 0;
            for k in cuts.iter().chain(std::iter::once(&msg.len())) {
                if !c.send(&msg[at..*k]) {
                    return bad("refused-while-slow", format!("a request sent with pauses (kind {}) was cut off after {} of {} bytes", kind, at, msg.len()));
                }
                at = *k;
                if at < msg.len() {
                    std::thread::sleep(pause);
                }
            }
            expect(&mut c, &h, id, 50, &body, &format!("a request sent within {} s (kind {})", t, kind))?;
            Ok(1)
        }));
    }
    join_all(th)
}
fn marathon(t: f64) -> Res {
    let (s, h) = serve();
    let mut c = connect(s.addr, 0.0)?;
    let t0 = Instant::now();
    let mut n = 0;
    while t0.elapsed() < secs(t) {
        n += 1;
        let what = || format!("request {} on one connection", n);
        let (msg, code) = match n % 16 {
            5 => (http_request("GET", "/nowhere", &[], b"abc"), 404),
            9 => (http_request("PUT", "/slow/x/0/0", &[], b""), 400),
            13 => (http_request("GET", "/slow/1/0/0", &[], b""), 405),
            _ => {
                let id = next_id();
                c.send(&raw(id, 0, 24, b"m"));
                expect(&mut c, &h, id, 24, b"m", &what())?;
                h.runs.lock().unwrap().clear();
                continue;
            }
        };
        c.send(&msg);
        match c.response(false) {
            Recv::Msg(m) if m.status() == code => {}
            Recv::Msg(m) => return wrong("wrong-status", format!("{}: answered {} instead of {}", what(), m.status(), code)),
            o => return bad("no-response", format!("{}: {}", what(), o.describe())),
        }
    }
    eprintln!("longest connection: {} requests", n);
    Ok(n)
}
fn thread_res<F: FnOnce() -> Res + Send + 'static>(f: F) -> std::thread::JoinHandle<Res> {
    std::thread::Builder::new()
        .spawn(move || {
            mark_harness();
            f()
        })
        .expect("thread")
}
fn join_all(th: Vec<std::thread::JoinHandle<Res>>) -> Res {
    let mut n = 0;
    let mut err = None;
    for t in th {
        match t.join().expect("lane thread") {
            Ok(k) => n += k,
            Err(e) => err = err.or(Some(e)),
        }
    }
    err.map(Err).unwrap_or(Ok(n))
}
fn slow_reader(t: f64) -> Res {
    let (s, h) = serve();
    let size = 12_000_000;
    let mut c = connect(s.addr, t)?;
    let id = next_id();
    c.send(&raw(id, 0, size, b"q"));
    // the server cannot send everything before the client reads
    std::thread::sleep(secs(t));
    expect(&mut c, &h, id, size, b"q", &format!("a response that was not read for {} s", t))?;
    let id = next_id();
    c.send(&raw(id, 0, 10, b""));
    expect(&mut c, &h, id, 10, b"", "the next request")?;
    Ok(2)
}
fn slow_handler(t: f64) -> Res {
    let (s, h) = serve();
    let ms = (t * 1000.0) as u64;
    let cli = Exec::new(1);
    let pool = RpcClientPool::new();
    let ph = pool.handle();
    cli.spawn_pool(pool);
    let ids = [next_id(), next_id(), next_id()];
    let mut c = connect(s.addr, t)?;
    c.send(&raw(ids[0], ms, 500, b"raw"));
    let p1 = cli.start(RpcClient::new(s.addr).call::<SlowProc>(slow_req(ids[1], ms, 500, b"one".to_vec())));
    let p2 = cli.start(ph.client(s.addr).call::<SlowProc>(slow_req(ids[2], ms, 500, b"two".to_vec())));
    expect(&mut c, &h, ids[0], 500, b"raw", &format!("a request whose handler takes {} s", t))?;
    for (p, id, body) in [(p1, ids[1], b"one"), (p2, ids[2], b"two")] {
        let what = format!("a call whose handler takes {} s", t);
        match p.wait(secs(t + 30.0)) {
            Out::Ok(v) => {
                if v.body != content(id, 500) {
                    return wrong("foreign-response", what);
                }
                check_runs(&h, id, body, &what)?;
            }
            o => return bad("call-failed", format!("{}: {}", what, o.describe())),
        }
    }
    Ok(3)
}
fn slow_server(t: f64) -> Res {
    let fake = Fake::start(move |_, mut c| {
        c.timeout = secs(t + 60.0);
        while let Recv::Msg(m) = c.request() {
            let id: u64 = m.start.1.split('/').nth(2).and_then(|s| s.parse().ok()).unwrap_or(0);
            let kind: u64 = m.start.1.split('/').nth(3).and_then(|s| s.parse().ok()).unwrap_or(0);
            let msg = http_response(200, &[], &content(id, 2000));
            let head = msg.len() - 2000;
            let cuts: Vec<usize> = match kind {
                0 => vec![0],
                1 => vec![head / 2],
                2 => vec![head],
                3 => vec![head + 700],
                _ => (1..20).map(|i| msg.len() * i / 20).collect(),
            };
            let pause = secs(t / cuts.len() as f64);
            let mut at = 0;
            for k in &cuts {
                if !c.send(&msg[at..*k]) {
                    return;
                }
                at = *k;
                std::thread::sleep(pause);
            }
            if !c.send(&msg[at..]) {
                return;
            }
        }
    });
    let cli = Exec::new(1);
    let pool = RpcClientPool::new();
    let ph = pool.handle();
    cli.spawn_pool(pool);
    let mut pend = Vec::new();
    for kind in 0..5u64 {
        let id = next_id();
        pend.push((kind, id, "single", cli.start(RpcClient::new(fake.addr).call::<SlowProc>(slow_req(id, kind, 0, vec![])))));
        let id = next_id();
        pend.push((kind, id, "pooled", cli.start(ph.client(fake.addr).call::<SlowProc>(slow_req(id, kind, 0, vec![])))));
    }
    let n = pend.len() as u64;
    for (kind, id, how, p) in pend {
        let what = format!("a {} call whose response arrives within {} s (kind {})", how, t, kind);
        match p.wait(secs(t + 30.0)) {
            Out::Ok(v) if v.body == content(id, 2000) => {}
            Out::Ok(v) => return wrong("wrong-body", format!("{}: {} bytes that are not the response", what, v.body.len())),
            o => return bad("call-failed", format!("{}: {}", what, o.describe())),
        }
    }
    Ok(n)
}
fn echo_server(t: f64) -> Fake {
    Fake::start(move |_, mut c| {
        c.timeout = secs(t + 60.0);
        while let Recv::Msg(m) = c.request() {
            if !answer(&mut c, &m) {
                return;
            }
        }
    })
}
fn answer(c: &mut Conn, m: &Msg) -> bool {
    let id: u64 = m.start.1.split('/').nth(2).and_then(|s| s.parse().ok()).unwrap_or(0);
    c.send(&http_response(200, &[], &content(id, 40)))
}
fn pooled(cli: &Exec, ph: &RpcClientPoolHandle, addr: SocketAddr, what: &str) -> Result<(), Bad> {
    let id = next_id();
    match cli.run(ph.client(addr).call::<SlowProc>(slow_req(id, 0, 40, vec![])), WATCHDOG) {
        Out::Ok(v) if v.body == content(id, 40) => Ok(()),
        Out::Ok(_) => wrong("foreign-response", what.to_string()),
        o => bad("call-failed", format!("{}: {}", what, o.describe())),
    }
}
fn idle_pool(t: f64) -> Res {
    let fake = echo_server(t);
    let real = serve().0;
    let cli = Exec::new(1);
    let pool = RpcClientPool::with_pool_size(3);
    let ph = pool.handle();
    cli.spawn_pool(pool);
    for i in 0..3 {
        let what = format!("call {} through a pool, idle for {} s after the first", i, t);
        pooled(&cli, &ph, fake.addr, &what)?;
        pooled(&cli, &ph, real.addr, &what)?;
        if i == 0 {
            std::thread::sleep(secs(t));
        }
    }
    if fake.accepted() != 1 {
        return bad("not-reused", format!("{} connections for three successive calls, the second {} s after the first", fake.accepted(), t));
    }
    Ok(6)
}
/// Counts what connects; answers like a server.
fn counting(addr: SocketAddr, t: f64) -> Option<Fake> {
    TcpListener::bind(addr).ok().map(|l| {
        Fake::with_listener(l, move |_, mut c| {
            c.timeout = secs(t + 60.0);
            while let Recv::Msg(m) = c.request() {
                if !answer(&mut c, &m) {
                    return;
                }
            }
        })
    })
}
fn long_suspension(t: f64) -> Res {
    let mut n = 0;
    let cli = Exec::new(1);
    // one pool with this suspension time, one with the default of a minute
    let mut own = RpcClientPool::with_pool_size(0);
    own.set_suspended_duration(secs(t));
    let default = RpcClientPool::with_pool_size(0);
    let handles = [own.handle(), default.handle()];
    cli.spawn_pool(own);
    cli.spawn_pool(default);
    let times = [t, 60.0];
    let addrs = [free_addr(), free_addr()];
    let mut starts = Vec::new();
    for (h, a) in handles.iter().zip(&addrs) {
        let t0 = Instant::now();
        let o = cli.run(h.client(*a).call::<SlowProc>(slow_req(next_id(), 0, 40, vec![])), WATCHDOG);
        match o {
            Out::Err(_) => {}
            Out::Ok(_) => return Ok(n), // somebody else listens there
            o => return bad("call-failed", format!("a call to a closed port: {}", o.describe())),
        }
        starts.push((t0, Instant::now()));
    }
    let fakes = match (counting(addrs[0], t), counting(addrs[1], t)) {
        (Some(a), Some(b)) => [a, b],
        _ => return Ok(n),
    };
    for frac in [0.3, 0.7, 0.9, 0.97] {
        let at = starts[1].0 + secs(t * frac);
        std::thread::sleep(at.saturating_duration_since(Instant::now()));
        for i in 0..2 {
            let before = fakes[i].accepted();
            let o = cli.run(handles[i].client(addrs[i]).call::<SlowProc>(slow_req(next_id(), 0, 40, vec![])), WATCHDOG);
            // certainly within the suspension only if it is over before the earliest end
            if starts[i].0.elapsed() < secs(times[i]) {
                n += 1;
                if o.is_ok() || fakes[i].accepted() > before {
                    return wrong("attempted-while-suspended", format!("a call {:.1} s after a failed attempt was attempted, with a suspension time of {} s", starts[i].0.elapsed().as_secs_f64(), times[i]));
                }
            }
        }
    }
    for i in 0..2 {
        if times[i] > t + 0.1 && t < 60.0 {
            continue;
        }
        let at = starts[i].1 + secs(times[i] + 1.0);
        std::thread::sleep(at.saturating_duration_since(Instant::now()));
        pooled(&cli, &handles[i], addrs[i], &format!("a call 1 s after the end of a suspension of {} s", times[i])).map_err(|b| Bad { sig: "not-retried", ..b })?;
        n += 1;
    }
    Ok(n)
}
fn long_connect(t: f64) -> Res {
    let deaf = match Deaf::start(crate::rt::loopback(0, 1)) {
        Some(d) => d,
        None => return Ok(0),
    };
    let cli = Exec::new(1);
    let mut pool = RpcClientPool::new();
    pool.set_connect_timeout(secs(t));
    let ph = pool.handle();
    cli.spawn_pool(pool);
    let t0 = Instant::now();
    let o = cli.run(ph.client(deaf.addr).call::<SlowProc>(slow_req(next_id(), 0, 40, vec![])), secs(t + 30.0));
    let took = t0.elapsed().as_secs_f64();
    match o {
        Out::Err(_) if took < t * 0.9 => bad("wrong-connect-timeout", format!("a call to an address that does not answer failed after {:.1} s; the connect time-out is {} s", took, t)),
        Out::Err(_) => Ok(1),
        Out::Ok(_) => Ok(0),
        o => bad("wrong-connect-timeout", format!("a call to an address that does not answer: {} after {:.1} s; the connect time-out is {} s", o.describe(), took, t)),
    }
}
fn pool_drop(t: f64) -> Res {
    let arrived = Arc::new(AtomicUsize::new(0));
    let a2 = arrived.clone();
    let fake = Fake::start(move |_, mut c| {
        c.timeout = secs(t + 60.0);
        while let Recv::Msg(m) = c.request() {
            a2.fetch_add(1, Ordering::SeqCst);
            std::thread::sleep(secs(t));
            if !answer(&mut c, &m) {
                return;
            }
        }
    });
    let quick = echo_server(t);
    let cli = Exec::new(1);
    let pool = RpcClientPool::new();
    let ph = pool.handle();
    let (p1, mut abort) = cli.start_abortable(pool.map_err(|_| ()));
    // a second pool that is not used in the meantime
    let ended = Arc::new(AtomicBool::new(false));
    let e2 = ended.clone();
    let unused = RpcClientPool::new();
    let uh = unused.handle();
    cli.handle.spawn(unused.then(move |_| {
        e2.store(true, Ordering::SeqCst);
        Ok(())
    }));
    let id = next_id();
    let p = cli.start(ph.client(fake.addr).call::<SlowProc>(slow_req(id, 0, 40, vec![])));
    let t0 = Instant::now();
    while arrived.load(Ordering::SeqCst) == 0 && t0.elapsed() < Duration::from_secs(20) {
        std::thread::sleep(Duration::from_millis(1));
    }
    abort.abort();
    drop(p1);
    match p.wait(secs(t + 30.0)) {
        Out::Ok(v) if v.body == content(id, 40) => {}
        Out::Ok(_) => return wrong("foreign-response", "a call in flight when its pool was dropped".into()),
        o => return bad("in-flight-lost", format!("a call in flight for {} s when its pool was dropped: {}", t, o.describe())),
    }
    if ended.load(Ordering::SeqCst) {
        return wrong("pool-ended", format!("a pool that was not used for {} s ended", t));
    }
    pooled(&cli, &uh, quick.addr, &format!("a call through a pool that was not used for {} s", t))?;
    Ok(2)
}
