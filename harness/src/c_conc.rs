//! C10 (exactly once, own response) and C18 (handler access, sanitizer workload).
use crate::c_body::{id_req, id_schema};
use crate::ctx::Ctx;
use crate::dynp::*;
use crate::lab::*;
use crate::net::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::trip::next_id;
use fibers::Spawn;
use futures::Future;
use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use htrpc::types::{EntryPoint, HttpMethod, NeverFail, PathSegment};
use htrpc::{BodyReader, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::Cell;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub fn spawn_pool(cli: &Exec, size: usize) -> RpcClientPoolHandle {
    let pool = RpcClientPool::with_pool_size(size);
    let h = pool.handle();
    cli.spawn_pool(pool);
    h
}

// ---------------------------------------------------------------------------------------- C10

fn conc_slots() {
    for n in 0..6 {
        let mut sc = id_schema(n);
        sc.method = [HttpMethod::Put, HttpMethod::Post, HttpMethod::Put, HttpMethod::Get, HttpMethod::Delete, HttpMethod::Put][n];
        if n == 4 {
            sc.read = ReadMode::Part(10);
        }
        if n == 5 {
            // same first segment as slot 0, so that they share a route prefix
            sc.ep = entry_point(&[Some("t0"), None, Some("more")]);
        }
        set_slot(n, sc);
    }
}
/// A proxy that cuts some connections after the request has been handled.
fn proxy(upstream: SocketAddr, seed: u64, cuts: Arc<AtomicUsize>) -> Fake {
    Fake::start(move |i, mut c| {
        let mut r = Rng::derive(seed, "proxy", i as u64);
        let mut up = match Conn::connect(upstream) {
            Ok(u) => u,
            Err(_) => return,
        };
        while let Recv::Msg(m) = c.request() {
            let mut raw = m.raw_head.clone();
            raw.extend_from_slice(&m.body);
            if !up.send(&raw) {
                return;
            }
            let resp = match up.response(false) {
                Recv::Msg(m) => m,
                _ => return,
            };
            let mut out = resp.raw_head.clone();
            out.extend_from_slice(&resp.body);
            match r.below(6) {
                0 => {
                    cuts.fetch_add(1, Ordering::SeqCst);
                    c.reset();
                    return;
                }
                1 => {
                    cuts.fetch_add(1, Ordering::SeqCst);
                    let k = r.below(out.len());
                    c.send(&out[..k]);
                    return;
                }
                _ => {
                    if !c.send(&out) {
                        return;
                    }
                }
            }
            if r.chance(1, 8) {
                // closes while the connection is idle
                std::thread::sleep(Duration::from_micros(r.below(500) as u64));
                return;
            }
        }
    })
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Normal,
    Abandoned,
    Proxied,
}
struct One {
    id: u64,
    slot: usize,
    kind: Kind,
    body: Vec<u8>,
    resp: RespVal,
}
fn conc_round(ctx: &Ctx, seed: u64, calls: usize) -> Option<(String, String)> {
    let mut r = Rng::new(seed);
    let lab = Lab::start(r.range(1, 4), &[0, 1, 2, 3, 4, 5]);
    let cuts = Arc::new(AtomicUsize::new(0));
    let px = proxy(lab.addr(), r.next(), cuts.clone());
    let clients: Vec<Exec> = (0..r.range(1, 3)).map(|_| Exec::new(r.range(1, 3))).collect();
    let pools: Vec<RpcClientPoolHandle> = clients.iter().map(|c| spawn_pool(c, *r.pick(&[0usize, 1, 2, 8, 1000]))).collect();
    let abandon = r.chance(2, 3);
    let mut set: Vec<One> = Vec::new();
    {
        let mut plan = lab.board.plan.lock().unwrap();
        let mut delays = lab.board.delays.lock().unwrap();
        for _ in 0..calls {
            let id = next_id();
            let n = r.below(6);
            let bl = *r.pick(&[0usize, 0, 10, 300, 5000]);
            let rl = *r.pick(&[0usize, 10, 300, 5000, 30000]);
            let mut rb = id.to_le_bytes().to_vec();
            rb.extend(r.bytes(rl));
            let resp = RespVal { status: crate::status::any_final(&mut r), header: Vals::Absent, body: rb };
            plan.insert(id, resp.clone());
            if r.chance(1, 2) {
                delays.insert(id, r.below(8) as u64);
            }
            let kind = match r.below(10) {
                0 | 1 if abandon => Kind::Abandoned,
                2 => Kind::Proxied,
                _ => Kind::Normal,
            };
            set.push(One { id, slot: n, kind, body: r.bytes(bl), resp });
        }
    }
    let mut pend = Vec::new();
    let mut aborts = Vec::new();
    for o in &set {
        let ci = r.below(clients.len());
        let addr = if o.kind == Kind::Proxied { px.addr } else { lab.addr() };
        let req = id_req(o.id, o.body.clone());
        let pooled = r.chance(2, 3);
        let f = if pooled { pool_call(&pools[ci], addr, o.slot, req) } else { call(addr, o.slot, req) };
        if o.kind == Kind::Abandoned {
            let (p, a) = clients[ci].start_abortable(f);
            aborts.push((Instant::now() + Duration::from_micros(r.below(6000) as u64), a));
            pend.push(p);
        } else {
            pend.push(clients[ci].start(f));
        }
        if r.chance(1, 20) {
            std::thread::sleep(Duration::from_micros(r.below(2000) as u64));
        }
        let now = Instant::now();
        aborts.retain_mut(|(t, a)| {
            if *t <= now {
                a.abort();
            }
            *t > now
        });
    }
    for (t, mut a) in aborts {
        let now = Instant::now();
        if t > now {
            std::thread::sleep(t - now);
        }
        a.abort();
    }
    let outs: Vec<_> = pend.iter().map(|p| p.wait(WATCHDOG)).collect();
    // let abandoned handlers end
    let t0 = Instant::now();
    let mut last = (lab.board.len(), Instant::now());
    while t0.elapsed() < Duration::from_millis(500) && last.1.elapsed() < Duration::from_millis(25) {
        std::thread::sleep(Duration::from_millis(3));
        let n = lab.board.len();
        if n != last.0 {
            last = (n, Instant::now());
        }
    }
    let order = lab.board.done.lock().unwrap().clone();
    let ev = lab.events_by_id();
    let mut fail = None;
    let mut known: HashMap<u64, ()> = HashMap::new();
    for (o, out) in set.iter().zip(&outs) {
        known.insert(o.id, ());
        let none = Vec::new();
        let e = ev.get(&Some(o.id)).unwrap_or(&none);
        ctx.count("handler_runs", e.len() as u64);
        if e.len() > 1 {
            ctx.violate("ran-twice", format!("one {:?} call ran its handler {} times", o.kind, e.len()));
        }
        for e in e {
            if e.slot != o.slot {
                ctx.violate("wrong-handler", format!("call of slot {} ran slot {}", o.slot, e.slot));
            }
            if e.req.body != o.body && slot(o.slot).read == ReadMode::All {
                ctx.violate("wrong-arguments", format!("handler of call {} got another body", o.id));
            }
        }
        ctx.eval(&format!("{:?} {} {:x}", o.kind, o.slot, o.id));
        match out {
            Out::Ok(v) => {
                ctx.count("calls_ok", 1);
                if e.is_empty() {
                    ctx.violate("not-run", format!("a {:?} call succeeded but its handler never ran", o.kind));
                }
                if *v != o.resp {
                    ctx.violate(
                        "foreign-response",
                        format!("a {:?} call got status {} and a body of {} bytes for call {:?} instead of status {} and {} bytes for {}", o.kind, v.status, v.body.len(), call_id(&v.body), o.resp.status, o.resp.body.len(), o.id),
                    );
                }
            }
            Out::Err(_) if o.kind == Kind::Proxied => ctx.count("proxied_failed", 1),
            Out::Vanished if o.kind == Kind::Abandoned => ctx.count("abandoned", 1),
            x => {
                fail = Some(("call-failed".to_string(), format!("a {:?} call (slot {}, body {}, response {}) of {} concurrent ones: {}", o.kind, o.slot, o.body.len(), o.resp.body.len(), calls, x.describe())));
            }
        }
    }
    for (id, es) in &ev {
        if id.map(|i| !known.contains_key(&i)).unwrap_or(true) {
            ctx.violate("stray-handler-run", format!("a handler ran for a call nobody made: {:?}", es[0].req.path));
        }
    }
    // distinct completion orders observed
    let pos: HashMap<u64, usize> = set.iter().enumerate().map(|(i, o)| (o.id, i)).collect();
    let perm: Vec<usize> = order.iter().filter_map(|i| pos.get(i).cloned()).collect();
    let inv = perm.windows(2).filter(|w| w[0] > w[1]).count();
    ctx.count("reordered_completions", inv as u64);
    ctx.count("proxy_cuts", cuts.load(Ordering::SeqCst) as u64);
    ctx.count("rounds", 1);
    if ctx.counter("rounds") <= 3 {
        ctx.sample(json!({"calls": calls, "completion_order": perm.iter().take(40).collect::<Vec<_>>(), "proxy_cuts": cuts.load(Ordering::SeqCst)}));
    }
    if !lab.server.healthy() {
        return Some(("server-ended".into(), "the server ended".into()));
    }
    fail
}
pub fn c10(ctx: &Ctx) -> &'static str {
    conc_slots();
    let mut i = 0;
    while ctx.go_on() {
        i += 1;
        let mut r = ctx.rng("round", i);
        let n = *r.pick(&[2usize, 8, 40, 120, 300]);
        let seed = r.next();
        let one = || if i % 8 == 3 { identical_round(ctx, seed) } else { conc_round(ctx, seed, n) };
        if let Some((sig, d)) = one() {
            let mut again = None;
            for _ in 0..2 {
                again = again.or_else(&one);
            }
            match again {
                Some((s, d)) => ctx.violate(&s, d),
                None => {
                    eprintln!("[C10] unreproduced: {}", d);
                    ctx.count("unreproduced_failures", 1);
                    if ctx.counter("unreproduced_failures") >= 4 {
                        ctx.violate(&sig, format!("repeatedly: {}", d));
                    }
                }
            }
        }
        report_panics(ctx, "concurrent calls");
    }
    "a case is one call among concurrent ones (each with a unique id and response; normal, abandoned after a random time, or through a proxy that cuts connections after the handler ran); the handler log and the results are joined by id: success = exactly one run of its handler and exactly its response, otherwise at most one run; some rounds make calls that are identical on the wire, told apart by the response of each run"
}

// ---------------------------------------------------------------------------------------- C18

#[derive(Serialize, Deserialize, Debug, Clone)]
struct NumReq {
    path: (u64,),
}
impl RpcRequest for NumReq {
    fn body(&mut self) -> Vec<u8> {
        vec![]
    }
    fn read_body(self, b: BodyReader) -> ReadBody<Self> {
        Box::new(futures::finished((b, self)))
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct NumResp {
    status: u16,
    #[serde(skip)]
    body: Vec<u8>,
}
impl RpcResponse for NumResp {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(std::mem::take(&mut self.body))
    }
    fn set_body(&mut self, b: Vec<u8>) {
        self.body = b;
    }
}
macro_rules! proc_ {
    ($n:ident, $s:expr, $m:ident) => {
        struct $n;
        impl Procedure for $n {
            type Request = NumReq;
            type Response = NumResp;
            fn method() -> HttpMethod {
                HttpMethod::$m
            }
            fn entry_point() -> EntryPoint {
                EntryPoint::new(&[PathSegment::Val($s), PathSegment::Var])
            }
        }
    };
}
proc_!(CellProc, "cell", Get);
proc_!(VecProc, "vec", Post);

proc_!(TickGet, "tick", Get);
proc_!(TickPut, "tick", Put);
/// Answers with the number of runs so far, so that every run has a response of its own.
#[derive(Clone)]
struct TickHandler {
    runs: Arc<AtomicU64>,
    slow: bool,
}
impl TickHandler {
    fn tick(&self) -> Box<dyn Future<Item = NumResp, Error = NeverFail> + Send> {
        let n = self.runs.fetch_add(1, Ordering::SeqCst);
        let resp = NumResp { status: 200, body: n.to_le_bytes().to_vec() };
        if self.slow && n % 3 == 0 {
            Box::new(fibers::time::timer::timeout(Duration::from_millis(n % 7)).then(|_| Ok(resp)))
        } else {
            Box::new(futures::finished(resp))
        }
    }
}
impl HandleRpc<TickGet> for TickHandler {
    type Future = Box<dyn Future<Item = NumResp, Error = NeverFail> + Send>;
    fn handle_rpc(self, _: NumReq) -> Self::Future {
        self.tick()
    }
}
impl HandleRpc<TickPut> for TickHandler {
    type Future = Box<dyn Future<Item = NumResp, Error = NeverFail> + Send>;
    fn handle_rpc(self, _: NumReq) -> Self::Future {
        self.tick()
    }
}
/// Calls that look exactly alike on the wire: each still runs its handler once and gets the
/// response of a run of its own.
fn identical_round(ctx: &Ctx, seed: u64) -> Option<(String, String)> {
    let mut r = Rng::new(seed);
    let runs = Arc::new(AtomicU64::new(0));
    let r2 = runs.clone();
    let slow = r.chance(2, 3);
    let server = Server::start(r.range(1, 4), |b| {
        b.register(TickHandler { runs: r2.clone(), slow }, TickGet).unwrap();
        b.register(TickHandler { runs: r2.clone(), slow }, TickPut).unwrap();
    });
    let addr = server.addr;
    let cli = Exec::new(r.range(1, 3));
    let ph = spawn_pool(&cli, *r.pick(&[0usize, 1, 4, 100]));
    let n = *r.pick(&[2usize, 10, 60]);
    let one_by_one = r.chance(1, 2);
    let mixed = r.chance(1, 3);
    let put = r.chance(1, 2);
    let pooled = r.below(3);
    let mut outs = Vec::new();
    let mut pend = Vec::new();
    for i in 0..n {
        let q = NumReq { path: (7,) };
        let put = if mixed { i % 2 == 0 } else { put };
        let p = match (put, pooled == 0 || (pooled == 1 && i % 2 == 0)) {
            (true, true) => cli.start(ph.client(addr).call::<TickPut>(q)),
            (false, true) => cli.start(ph.client(addr).call::<TickGet>(q)),
            (true, false) => cli.start(htrpc::RpcClient::new(addr).call::<TickPut>(q)),
            (false, false) => cli.start(htrpc::RpcClient::new(addr).call::<TickGet>(q)),
        };
        if one_by_one {
            outs.push(p.wait(WATCHDOG));
        } else {
            pend.push(p);
        }
    }
    outs.extend(pend.iter().map(|p| p.wait(WATCHDOG)));
    let mut seen = std::collections::HashSet::new();
    let mut fail = None;
    for o in &outs {
        match o {
            Out::Ok(v) => {
                ctx.count("identical_calls_ok", 1);
                if !seen.insert(v.body.clone()) {
                    ctx.violate("foreign-response", format!("two of {} identical calls got the response of the same handler run ({:?})", n, v.body));
                }
            }
            o => fail = Some(("call-failed".to_string(), format!("one of {} identical calls: {}", n, o.describe()))),
        }
    }
    let total = runs.load(Ordering::SeqCst) as usize;
    ctx.eval(&format!("identical {} {} {} {} {}", n, one_by_one, mixed, put, pooled));
    if total > n {
        ctx.violate("ran-twice", format!("{} identical calls ran the handler {} times", n, total));
    }
    if total < seen.len() {
        ctx.violate("not-run", format!("{} identical calls succeeded but the handler ran {} times", seen.len(), total));
    }
    if !server.healthy() {
        return Some(("server-ended".into(), "the server ended".into()));
    }
    fail
}

/// What the access monitors saw.
#[derive(Default)]
struct Access {
    overlaps: AtomicU64,
    accesses: AtomicU64,
    /// One bit per thread that cloned (relaxed, so that the monitor orders nothing).
    threads: AtomicU64,
    use_after_drop: AtomicU64,
    live: AtomicU64,
}
/// A handler that may be sent but not shared: plain (unsynchronized) state, touched by clone, use
/// and drop. The monitor flags every access that overlaps another access to the same instance.
struct CellHandler {
    uses: Cell<u64>,
    /// Rewritten on every clone: unsynchronized memory for the sanitizers to watch (plain words,
    /// so that a race cannot corrupt anything else).
    log: [Cell<u64>; 16],
    busy: AtomicBool,
    alive: Cell<u64>,
    acc: Arc<Access>,
    spin: u64,
}
const ALIVE: u64 = 0x5AFE_C0DE_5AFE_C0DE;
impl CellHandler {
    fn new(acc: Arc<Access>, spin: u64) -> Self {
        acc.live.fetch_add(1, Ordering::Relaxed);
        CellHandler { uses: Cell::new(0), log: Default::default(), busy: AtomicBool::new(false), alive: Cell::new(ALIVE), acc, spin }
    }
    fn access<T, F: FnOnce() -> T>(&self, f: F) -> T {
        // Relaxed operations add no synchronization of their own.
        if self.busy.swap(true, Ordering::Relaxed) {
            self.acc.overlaps.fetch_add(1, Ordering::Relaxed);
        }
        if self.alive.get() != ALIVE {
            self.acc.use_after_drop.fetch_add(1, Ordering::Relaxed);
        }
        self.acc.accesses.fetch_add(1, Ordering::Relaxed);
        self.uses.set(self.uses.get() + 1);
        for i in 0..self.spin {
            std::hint::black_box(i);
        }
        if self.spin > 200 {
            std::thread::yield_now();
        }
        let v = f();
        self.busy.store(false, Ordering::Relaxed);
        v
    }
}
impl Clone for CellHandler {
    fn clone(&self) -> Self {
        thread_local!(static BIT: u64 = 1 << (NEXT_BIT.fetch_add(1, Ordering::Relaxed) % 64));
        static NEXT_BIT: AtomicUsize = AtomicUsize::new(0);
        self.acc.threads.fetch_or(BIT.with(|b| *b), Ordering::Relaxed);
        self.access(|| {
            for (i, w) in self.log.iter().enumerate() {
                w.set(w.get().wrapping_add(self.uses.get() + i as u64));
            }
            CellHandler::new(self.acc.clone(), self.spin)
        })
    }
}
impl Drop for CellHandler {
    fn drop(&mut self) {
        self.access(|| ());
        self.alive.set(0);
        self.acc.live.fetch_sub(1, Ordering::Relaxed);
    }
}
impl HandleRpc<CellProc> for CellHandler {
    type Future = futures::Finished<NumResp, NeverFail>;
    fn handle_rpc(self, r: NumReq) -> Self::Future {
        let n = r.path.0;
        self.access(|| ());
        futures::finished(NumResp { status: 200, body: n.to_le_bytes().to_vec() })
    }
}
/// Keeps itself inside the future it returns.
impl HandleRpc<VecProc> for CellHandler {
    type Future = Box<dyn Future<Item = NumResp, Error = NeverFail> + Send>;
    fn handle_rpc(self, r: NumReq) -> Self::Future {
        let n = r.path.0;
        Box::new(fibers::time::timer::timeout(Duration::from_micros(n % 900)).then(move |_| {
            self.access(|| ());
            Ok(NumResp { status: 200, body: n.to_le_bytes().to_vec() })
        }))
    }
}

fn shared_round(ctx: &Ctx, seed: u64) -> Option<(String, String)> {
    let mut r = Rng::new(seed);
    let acc = Arc::new(Access::default());
    let spin = *r.pick(&[0u64, 100, 1000, 20_000]);
    let threads = *r.pick(&[2usize, 4, 8]);
    let a2 = acc.clone();
    let server = Server::start(threads, |b| {
        b.register(CellHandler::new(a2.clone(), spin), CellProc).unwrap();
        b.register(CellHandler::new(a2.clone(), spin), VecProc).unwrap();
    });
    let addr = server.addr;
    let nconn = r.range(4, 16);
    let per = 30;
    let errors: Log<String> = Log::default();
    let seeds: Vec<u64> = (0..nconn).map(|_| r.next()).collect();
    let start = std::sync::Barrier::new(nconn);
    crate::c_args::par(nconn, |t| {
        let mut r = Rng::new(seeds[t]);
        let mut c = match Conn::connect(addr) {
            Ok(c) => c,
            Err(e) => {
                errors.push(e.to_string());
                start.wait();
                return;
            }
        };
        start.wait();
        for _ in 0..per {
            let id = next_id();
            let (m, p) = if r.chance(2, 3) { ("GET", "cell") } else { ("POST", "vec") };
            // strange targets take the base-URL path of the parser
            if r.chance(1, 6) {
                c.send(&http_request(m, *r.pick(&["http://h/cell/1", "*", "//x", "cell/2"]), &[], b""));
                let _ = c.response(false);
                continue;
            }
            c.send(&http_request(m, &format!("/{}/{}", p, id), &[], b""));
            match c.response(false) {
                Recv::Msg(m) if m.body == id.to_le_bytes() => ctx.count("requests", 1),
                o => {
                    errors.push(o.describe());
                    return;
                }
            }
        }
    });
    let cli = Exec::new(4);
    let ph = spawn_pool(&cli, 4);
    let ids: Vec<u64> = (0..60).map(|_| next_id()).collect();
    let pend: Vec<_> = ids
        .iter()
        .enumerate()
        .map(|(i, id)| {
            let q = NumReq { path: (*id,) };
            if i % 2 == 0 {
                cli.start(ph.client(addr).call::<CellProc>(q))
            } else {
                cli.start(ph.client(addr).call::<VecProc>(q))
            }
        })
        .collect();
    for (id, p) in ids.iter().zip(pend) {
        match p.wait(WATCHDOG) {
            Out::Ok(v) if v.body == id.to_le_bytes() => ctx.count("pooled_calls", 1),
            o => errors.push(o.describe()),
        }
    }
    let ov = acc.overlaps.load(Ordering::SeqCst);
    let n = acc.accesses.load(Ordering::SeqCst);
    let th = acc.threads.load(Ordering::Relaxed).count_ones();
    ctx.count("handler_accesses", n);
    ctx.count("threads_cloning", th as u64);
    ctx.eval(&format!("{} {} {} {} {:x}", threads, spin, nconn, th, seed));
    if ov > 0 {
        ctx.violate("concurrent-access", format!("a handler that is not Sync was accessed from two threads at once ({} of {} accesses overlap; {} server threads, {} connections)", ov, n, threads, nconn));
    }
    if acc.use_after_drop.load(Ordering::SeqCst) > 0 {
        ctx.violate("use-after-drop", "a handler was used after it was dropped".into());
    }
    if ctx.counter("rounds") < 2 {
        ctx.sample(json!({"server_threads": threads, "connections": nconn, "accesses": n, "threads_that_cloned": th}));
    }
    ctx.count("rounds", 1);
    if !server.healthy() {
        return Some(("server-ended".into(), "the server ended".into()));
    }
    if let Some(e) = errors.snapshot().first() {
        return Some(("call-failed".into(), e.clone()));
    }
    None
}
// Text handed to user code must be text: strings made from hostile bytes are re-validated.
#[derive(Serialize, Deserialize, Debug, Clone, Default)]
struct TextQuery {
    a: Option<String>,
    b: Option<String>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct TextReq {
    path: (String, String),
    query: TextQuery,
    header: HashMap<String, String>,
}
impl RpcRequest for TextReq {
    fn body(&mut self) -> Vec<u8> {
        vec![]
    }
    fn read_body(self, b: BodyReader) -> ReadBody<Self> {
        Box::new(futures::finished((b, self)))
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct TextResp {
    status: u16,
    header: HashMap<String, String>,
}
impl RpcResponse for TextResp {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new([])
    }
    fn set_body(&mut self, _: Vec<u8>) {}
}
struct TextProc;
impl Procedure for TextProc {
    type Request = TextReq;
    type Response = TextResp;
    fn method() -> HttpMethod {
        HttpMethod::Get
    }
    fn entry_point() -> EntryPoint {
        EntryPoint::new(&[PathSegment::Val("text"), PathSegment::Var, PathSegment::Var])
    }
}
/// First string that is not valid UTF-8 (re-validated on a volatile copy of its bytes, so that the
/// compiler cannot assume the answer).
fn bad_text<'a, I: IntoIterator<Item = &'a String>>(it: I) -> Option<Vec<u8>> {
    for s in it {
        let copy: Vec<u8> = s.as_bytes().iter().map(|b| unsafe { std::ptr::read_volatile(b) }).collect();
        if std::str::from_utf8(&copy).is_err() {
            return Some(copy);
        }
    }
    None
}
#[derive(Clone)]
struct TextHandler {
    bad: Log<Vec<u8>>,
    seen: Arc<AtomicU64>,
}
impl HandleRpc<TextProc> for TextHandler {
    type Future = futures::Finished<TextResp, NeverFail>;
    fn handle_rpc(self, r: TextReq) -> Self::Future {
        self.seen.fetch_add(1, Ordering::SeqCst);
        let q = [r.query.a.clone().unwrap_or_default(), r.query.b.clone().unwrap_or_default()];
        if let Some(b) = bad_text([&r.path.0, &r.path.1]).or_else(|| bad_text(&q)).or_else(|| bad_text(r.header.keys())).or_else(|| bad_text(r.header.values())) {
            self.bad.push(b);
        }
        futures::finished(TextResp { status: 200, header: HashMap::new() })
    }
}
fn hostile_bytes(r: &mut Rng) -> Vec<u8> {
    let seeds: &[&[u8]] = &[b"\xff", b"\xc3", b"\xc3\x28", b"\xe2\x82", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\xaf", b"a\x80b", b"caf\xe9", b"\xf4\x90\x80\x80", b"\xc3\xa9", b"plain"];
    let mut v = Vec::new();
    for _ in 0..r.range(1, 3) {
        v.extend_from_slice(*r.pick(seeds));
        if r.chance(1, 2) {
            v.extend((0..r.below(6)).map(|_| (0x80 + r.below(0x80)) as u8));
        }
        if r.chance(1, 3) {
            v.extend_from_slice(b"tail");
        }
    }
    v
}
fn text_round(ctx: &Ctx, seed: u64) -> Option<(String, String)> {
    let mut r = Rng::new(seed);
    let h = TextHandler { bad: Log::default(), seen: Arc::new(AtomicU64::new(0)) };
    let h2 = h.clone();
    let server = Server::start(2, move |b| {
        b.register(h2.clone(), TextProc).unwrap();
    });
    let pct = |b: &[u8]| b.iter().map(|x| format!("%{:02X}", x)).collect::<String>();
    for _ in 0..40 {
        let x = hostile_bytes(&mut r);
        let pos = r.below(5);
        let mut target = "/text/p/q".to_string();
        let mut line = Vec::new();
        match pos {
            0 => target = format!("/text/{}/q", pct(&x)),
            1 => target = format!("/text/p/{}?a={}", pct(&x), pct(&x)),
            2 => target = format!("/text/p/q?a=1&b={}", pct(&x)),
            3 => {
                line = b"x-text: ".to_vec();
                line.extend_from_slice(&x);
                line.extend_from_slice(b"\r\n");
            }
            _ => {
                line = b"x-a: 1\r\nx-text:".to_vec();
                line.extend_from_slice(&x);
                line.extend_from_slice(b"\r\nx-z: 2\r\n");
            }
        }
        let mut msg = format!("GET {} HTTP/1.1\r\n", target).into_bytes();
        msg.extend_from_slice(&line);
        msg.extend_from_slice(b"Content-Length: 0\r\n\r\n");
        let mut c = match Conn::connect(server.addr) {
            Ok(c) => c,
            Err(e) => return Some(("call-failed".into(), e.to_string())),
        };
        c.send(&msg);
        let ans = c.response(false);
        ctx.count("hostile_text_requests", 1);
        ctx.eval(&format!("text {} {:x?} {}", pos, x, ans.describe()));
    }
    if let Some(b) = h.bad.snapshot().first() {
        ctx.violate("invalid-string", format!("the library handed the handler a string that is not UTF-8: {:x?}", b));
    }
    ctx.count("text_handlers_run", h.seen.load(Ordering::SeqCst));
    // the same towards the caller
    let cli = Exec::new(1);
    let rs = r.next();
    let fake = Fake::start(move |i, mut c| {
        let mut r = Rng::derive(rs, "resp", i as u64);
        if let Recv::Msg(_) = c.request() {
            let mut m = b"HTTP/1.1 200 OK\r\nx-text: ".to_vec();
            m.extend(hostile_bytes(&mut r));
            m.extend_from_slice(b"\r\nContent-Length: 0\r\n\r\n");
            c.send(&m);
        }
    });
    for _ in 0..20 {
        let q = TextReq { path: ("p".into(), "q".into()), query: TextQuery::default(), header: HashMap::new() };
        let o = cli.run(htrpc::RpcClient::new(fake.addr).call::<TextProc>(q), WATCHDOG);
        ctx.count("hostile_text_responses", 1);
        match o {
            Out::Ok(v) => {
                if let Some(b) = bad_text(v.header.values()).or_else(|| bad_text(v.header.keys())) {
                    ctx.violate("invalid-string", format!("the library handed the caller a string that is not UTF-8: {:x?}", b));
                }
            }
            Out::Err(_) => {}
            o => return Some(("call-stalled".into(), o.describe())),
        }
    }
    if !server.healthy() {
        return Some(("server-ended".into(), "the server ended".into()));
    }
    None
}
pub fn c18(ctx: &Ctx) -> &'static str {
    let mut i = 0;
    while ctx.go_on() {
        i += 1;
        let seed = ctx.rng("round", i).next();
        let round = if i % 4 == 2 { text_round } else { shared_round };
        if let Some((sig, d)) = round(ctx, seed) {
            match round(ctx, seed) {
                Some((s, d)) => ctx.violate(&s, d),
                None => {
                    eprintln!("[C18] unreproduced {} {}", sig, d);
                    ctx.count("unreproduced_failures", 1);
                }
            }
        }
        report_panics(ctx, "shared handlers");
        if i == 2 {
            // the concurrent-call workload as well: pool, abandoned calls, cut connections
            conc_slots();
        }
        if i > 2 && i % 3 == 0 {
            let _ = conc_round(ctx, seed, 80);
        }
    }
    "a case is one round of concurrent requests against handlers with unsynchronized state (distinct by threads, connections, delays, seed); an access monitor in clone, use and drop flags overlapping accesses to one handler instance; every string made from hostile bytes is re-validated as UTF-8; the same workloads run in builds instrumented by ThreadSanitizer and AddressSanitizer, whose reports are violations"
}

/// Cold start: the very first things the library does in this process happen on many threads at
/// once (for the sanitizers: lazily initialised state).
pub fn burst(ctx: &Ctx) -> &'static str {
    let mut r = ctx.rng("burst", 0);
    let acc = Arc::new(Access::default());
    let kind = r.below(3);
    let n = 16;
    let servers: Vec<Server> = (0..2)
        .map(|_| {
            let a2 = acc.clone();
            Server::start(8, |b| {
                b.register(CellHandler::new(a2.clone(), 0), CellProc).unwrap();
                b.register(CellHandler::new(a2.clone(), 0), VecProc).unwrap();
            })
        })
        .collect();
    let mut conns: Vec<Conn> = (0..n).filter_map(|i| Conn::connect(servers[i % 2].addr).ok()).collect();
    std::thread::sleep(Duration::from_millis(30));
    let targets = ["cell/2", "*", "http://h/cell/1", "?x=1", "cell/%41"];
    let barrier = Arc::new(std::sync::Barrier::new(conns.len()));
    let ths: Vec<_> = conns
        .drain(..)
        .enumerate()
        .map(|(i, mut c)| {
            let b = barrier.clone();
            let t = match kind {
                0 => "cell/2".to_string(),
                1 => targets[i % targets.len()].to_string(),
                _ => ["/nope", "/cell/x", "/cell/1", "cell/2"][i % 4].to_string(),
            };
            thread(move || {
                let msg = http_request("GET", &t, &[], b"");
                b.wait();
                c.send(&msg);
                let _ = c.response(false);
            })
        })
        .collect();
    for t in ths {
        let _ = t.join();
    }
    // first calls of clients and pools, all at once
    let clis: Vec<Exec> = (0..3).map(|_| Exec::new(3)).collect();
    let pools: Vec<_> = clis.iter().map(|c| spawn_pool(c, 2)).collect();
    let pend: Vec<_> = (0..36usize)
        .map(|i| {
            let q = NumReq { path: (i as u64,) };
            let a = servers[i % 2].addr;
            if i % 4 == 0 {
                clis[i % 3].start(pools[i % 3].client(a).call::<VecProc>(q))
            } else {
                clis[i % 3].start(pools[i % 3].client(a).call::<CellProc>(q))
            }
        })
        .collect();
    for p in pend {
        let o = p.wait(WATCHDOG);
        ctx.eval(&format!("burst {}", o.describe()));
    }
    "cold start burst (sanitizer builds only)"
}
