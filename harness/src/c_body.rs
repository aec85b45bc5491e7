//! C04 bodies, C09 keep-alive sequences, C19 HEAD, C22 wire format.
use crate::c_args::{par, plain_schema, problem_ok, METHODS};
use crate::ctx::Ctx;
use crate::dynp::*;
use crate::gen::{self, Alpha};
use crate::lab::*;
use crate::net::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::trip::{self, next_id, Case, Via};
use htrpc::types::HttpMethod;
use serde_json::json;
use std::io::Read;
use std::sync::Arc;
use std::time::{Duration, Instant};

const EDGES: &[usize] = &[
    0, 1, 2, 7, 8, 9, 63, 64, 255, 256, 511, 512, 1000, 1015, 1016, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097,
    8087, 8088, 8094, 8095, 8096, 8097, 8098, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537,
];
fn size(r: &mut Rng, big: usize) -> usize {
    match r.below(10) {
        0..=5 => *r.pick(EDGES),
        6..=7 => r.below(3000),
        8 => r.below(100_000),
        _ => r.below(big),
    }
}
/// Bodies: random, or made of things that look like HTTP.
fn content(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => {
            let unit: &[u8] = *r.pick(&[
                &b"\r\n\r\n"[..],
                b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nfoo",
                b"PUT /smuggled HTTP/1.1\r\nContent-Length: 0\r\n\r\n",
                b"0\r\n\r\n",
                b"\0",
                b"\xff\xfe",
            ]);
            let mut v = Vec::with_capacity(n + unit.len());
            while v.len() < n {
                v.extend_from_slice(unit);
            }
            v.truncate(n);
            v
        }
        _ => r.bytes(n),
    }
}
/// PUT /tN/<u64 id> with the id in the path.
pub fn id_schema(n: usize) -> Schema {
    let mut sc = plain_schema(n);
    sc.ep = entry_point(&[Some(&format!("t{}", n)), None]);
    sc.path = PathSect::Tuple(vec![Ty::U64]);
    sc.id_in_path = true;
    sc
}
pub fn id_req(id: u64, body: Vec<u8>) -> ReqVal {
    ReqVal { path: vec![Val::U64(id)], query: Vals::Absent, header: Vals::Absent, body }
}

pub fn c04(ctx: &Ctx) -> &'static str {
    let cli = Exec::new(3);
    for n in 0..4 {
        let mut sc = id_schema(n);
        sc.method = [HttpMethod::Put, HttpMethod::Post, HttpMethod::Get, HttpMethod::Delete][n];
        sc.read = [ReadMode::All, ReadMode::All, ReadMode::Skip, ReadMode::Part(100)][n];
        set_slot(n, sc);
    }
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        let mut r = ctx.rng("round", round);
        let lab = Lab::start(r.range(1, 3), &[0, 1, 2, 3]);
        let pool = htrpc::pool::RpcClientPool::with_pool_size(8);
        let ph = pool.handle();
        let pexec = Exec::new(2);
        {
            use fibers::Spawn;
            pexec.spawn_pool(pool);
        }
        // Real client, real server.
        for k in 0..3 {
            let mut cases = Vec::new();
            for _ in 0..24 {
                let n = r.below(2);
                let big = if r.chance(1, 12) { 4 << 20 } else { 200_000 };
                let (a, b) = (size(&mut r, big), size(&mut r, big));
                let id = next_id();
                cases.push(Case {
                    slot: n,
                    req: id_req(id, content(&mut r, a)),
                    resp: Some(RespVal { status: crate::status::any_final(&mut r), header: Vals::Absent, body: content(&mut r, b) }),
                    must: true,
                    key: format!("rt {} {} {}", a, b, id),
                });
                ctx.count("bytes_round_trip", (a + b) as u64);
            }
            if round == 1 && k == 0 {
                trip::sample_case(ctx, &cases[0]);
                trip::sample_case(ctx, &cases[1]);
            }
            let via = if k == 1 { Via::Pool(&ph) } else { Via::Single };
            trip::run(ctx, &cli, &lab, &cases, &via, "body round trip");
        }
        if round == 1 || (ctx.thorough && round % 20 == 0) {
            let n = if round % 2 == 1 { (36 << 20) + 7 } else { 70 << 20 };
            let c = Case {
                slot: 0,
                req: id_req(next_id(), content(&mut r, n)),
                resp: Some(RespVal { status: 200, header: Vals::Absent, body: content(&mut r, n + 13) }),
                must: true,
                key: format!("rt big {}", n),
            };
            trip::run(ctx, &cli, &lab, &[c], &Via::Single, "large body round trip");
        }
        // Raw peers: fragmentation, slow reading, truncation.
        let base = r.next();
        let truncated: Log<u64> = Log::default();
        par(6, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            for _ in 0..6 {
                raw_fragments(ctx, &lab, &mut r);
            }
            for _ in 0..8 {
                truncate_request(ctx, &lab, &mut r, &truncated);
            }
        });
        par(4, |t| {
            let mut r = Rng::derive(base, "f", t as u64);
            for _ in 0..4 {
                fake_server_bodies(ctx, &cli, &ph, &mut r);
            }
        });
        // No handler ran for a truncated request, also not late.
        let c = Case { slot: 0, req: id_req(next_id(), vec![1]), resp: None, must: true, key: "canary".into() };
        let late = lab.board.take();
        for e in &late {
            if let Some(id) = event_id(&slot(e.slot), &e.req) {
                if truncated.snapshot().contains(&id) {
                    ctx.violate("truncated-ran", format!("the handler ran (late) for a request whose body was truncated: {} body bytes", e.req.body.len()));
                }
            }
        }
        trip::run(ctx, &cli, &lab, &[c], &Via::Single, "canary");
        watch(ctx, &lab, "bodies");
    }
    "one case = one transfer with distinct sizes/content/fragmentation, or one truncation at a distinct point (k of n bytes, FIN or RST, reading mode); delivered bodies are compared byte for byte on both sides"
}
fn set_buf(s: &std::net::TcpStream, n: i32) {
    use std::os::fd::AsRawFd;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const libc::c_void, 4);
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_SNDBUF, &n as *const _ as *const libc::c_void, 4);
    }
}
fn raw_fragments(ctx: &Ctx, lab: &Lab, r: &mut Rng) {
    for attempt in 0..3 {
        let mut c = match Conn::connect(lab.addr()) {
            Ok(c) => c,
            Err(_) => continue,
        };
        let slow = r.chance(1, 3);
        if slow {
            set_buf(&c.s, 32768);
        }
        let mut ok = true;
        let mut why = String::new();
        for _ in 0..3 {
            let id = next_id();
            let n = r.below(2);
            let (la, lb) = (size(r, 200_000), if slow { r.range(20_000, 400_000) } else { size(r, 100_000) });
            let (a, b) = (content(r, la), content(r, lb));
            let status = crate::status::any_final(r);
            lab.board.plan.lock().unwrap().insert(id, RespVal { status, header: Vals::Absent, body: b.clone() });
            let m = slot(n).method.to_string();
            let msg = if r.chance(1, 3) {
                ctx.count("chunked_requests", 1);
                chunked_message(&format!("{} /t{}/{} HTTP/1.1", m, n, id), &[], &a, r).0
            } else {
                http_request(&m, &format!("/t{}/{}", n, id), &[], &a)
            };
            c.send_fragmented(&msg, r, 8);
            if slow {
                // Read the response late and in small pieces.
                std::thread::sleep(Duration::from_millis(5));
                let mut tmp = vec![0u8; 1 + r.below(2000)];
                let _ = c.s.set_read_timeout(Some(Duration::from_secs(15)));
                for i in 0..20 {
                    match c.s.read(&mut tmp) {
                        Ok(k) if k > 0 => c.buf.extend_from_slice(&tmp[..k]),
                        _ => break,
                    }
                    if i % 8 == 0 {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                    if c.buf.len() > lb {
                        break;
                    }
                }
            }
            let rc = c.response(false);
            lab.board.plan.lock().unwrap().remove(&id);
            let ev = lab.take_events(id);
            match rc {
                Recv::Msg(m) => {
                    ctx.eval(&format!("frag {} {} {} {}", la, lb, slow, id));
                    ctx.count("raw_transfers", 1);
                    if m.status() != status || m.body != b {
                        ctx.violate("response-body-altered", format!("raw client: status {} body {} bytes (sent {}), equal: {}", m.status(), m.body.len(), lb, m.body == b));
                    }
                    if ev.len() != 1 || ev[0].req.body != a {
                        ctx.violate(
                            "body-altered",
                            format!("fragmented request body of {} bytes: handler runs {}, received {} bytes", la, ev.len(), ev.first().map(|e| e.req.body.len()).unwrap_or(0)),
                        );
                    }
                }
                o => {
                    ok = false;
                    why = format!("body {} bytes, response {} bytes, slow reader {}: {}", la, lb, slow, o.describe());
                    break;
                }
            }
        }
        if ok {
            return;
        }
        if attempt == 2 {
            ctx.violate("no-answer", format!("fragmented transfer: {}", why));
        }
    }
}
fn truncate_request(ctx: &Ctx, lab: &Lab, r: &mut Rng, log: &Log<u64>) {
    let n = r.below(4);
    let len = match r.below(4) {
        0 => r.range(1, 20),
        1 => r.range(1000, 1100),
        2 => r.range(8000, 8300),
        _ => r.range(1, 100_000),
    };
    let k = match r.below(4) {
        0 => 0,
        1 => len - 1,
        _ => r.below(len),
    };
    let mode = r.below(3);
    let id = next_id();
    let mut c = match Conn::connect(lab.addr()) {
        Ok(c) => c,
        Err(_) => return,
    };
    let m = slot(n).method.to_string();
    if r.chance(1, 3) {
        // A good request first on the same connection.
        let id0 = next_id();
        c.send(&http_request(&m, &format!("/t{}/{}", n, id0), &[], b"first"));
        if !matches!(c.response(false), Recv::Msg(_)) {
            ctx.count("truncation_prelude_failed", 1);
        }
        lab.take_events(id0);
    }
    let body = content(r, len);
    let (msg, cut, how) = if r.chance(1, 3) {
        let (msg, head) = chunked_message(&format!("{} /t{}/{} HTTP/1.1", m, n, id), &[], &body, r);
        let last = msg.len() - 1;
        let cut = if r.chance(1, 3) { last - r.below((last - head).min(12)) } else { r.range(head, last) };
        ctx.count("truncated_chunked", 1);
        let how = format!("chunked, {} of {} bytes", cut - head, msg.len() - head);
        (msg, cut, how)
    } else {
        let msg = http_request(&m, &format!("/t{}/{}", n, id), &[], &body);
        let cut = msg.len() - len + k;
        (msg, cut, format!("{} of {} bytes", k, len))
    };
    log.push(id);
    if r.chance(1, 2) {
        c.send_fragmented(&msg[..cut], r, 3);
    } else {
        c.send(&msg[..cut]);
    }
    if r.chance(1, 2) {
        std::thread::sleep(Duration::from_millis(3));
    }
    match mode {
        0 => {
            c.fin();
            let (b, _) = c.drain(Duration::from_secs(5));
            if let Some(Ok((m, _))) = parse_head(&b) {
                if m.status() < 400 {
                    ctx.violate("truncated-answered", format!("a request with a truncated body ({}) was answered {}", how, m.status()));
                }
            }
        }
        1 => drop(c),
        _ => c.reset(),
    }
    if mode != 0 {
        std::thread::sleep(Duration::from_millis(10));
    }
    ctx.eval(&format!("trunc {} {} {}", n, how, mode));
    ctx.count(["truncated_fin", "truncated_close", "truncated_rst"][mode], 1);
    if !lab.take_events(id).is_empty() {
        ctx.violate(
            "truncated-ran",
            format!("the handler ran although the body was truncated ({}, {}; reading mode {:?})", how, ["FIN", "close", "RST"][mode], slot(n).read),
        );
    }
}
/// The client's side: slow or fragmenting servers deliver exactly; truncating ones yield errors.
fn fake_server_bodies(ctx: &Ctx, cli: &Exec, ph: &htrpc::pool::RpcClientPoolHandle, r: &mut Rng) {
    let (la, lb) = (size(r, 300_000), size(r, 300_000).max(1));
    let a = content(r, la);
    let b = content(r, lb);
    let trunc = r.chance(1, 2);
    let k = match r.below(3) {
        0 => 0,
        1 => lb - 1,
        _ => r.below(lb),
    };
    let rst_ = r.chance(1, 3);
    let in_chunks = r.chance(1, 3);
    if in_chunks {
        ctx.count("chunked_responses", 1);
    }
    let got: Log<Vec<u8>> = Log::default();
    let g2 = got.clone();
    let b2 = b.clone();
    let seed = r.next();
    let fake = Fake::start(move |_, mut c| {
        let mut r = Rng::new(seed);
        if r.chance(1, 2) {
            set_buf(&c.s, 32768);
            std::thread::sleep(Duration::from_millis(5));
        }
        if let Recv::Msg(m) = c.request() {
            g2.push(m.body);
            let (msg, head) = if in_chunks {
                chunked_message("HTTP/1.1 200 OK", &[], &b2, &mut r)
            } else {
                let msg = http_response(200, &[], &b2);
                let head = msg.len() - b2.len();
                (msg, head)
            };
            if trunc {
                let cut = if in_chunks {
                    let last = msg.len() - 1;
                    if r.chance(1, 3) { last - r.below((last - head).min(12)) } else { r.range(head, last) }
                } else {
                    head + k
                };
                c.send_fragmented(&msg[..cut], &mut r, 3);
                if rst_ {
                    std::thread::sleep(Duration::from_millis(2));
                    c.reset();
                }
                return;
            }
            c.send_fragmented(&msg, &mut r, 8);
            let _ = c.drain(Duration::from_secs(5));
        }
    });
    let pooled = r.chance(1, 2);
    let id = next_id();
    let req = id_req(id, a.clone());
    let fut = if pooled { pool_call(ph, fake.addr, 0, req) } else { call(fake.addr, 0, req) };
    let o = cli.run(fut, WATCHDOG);
    ctx.eval(&format!("fake {} {} {} {} {} {}", la, lb, trunc, k, rst_, in_chunks));
    let gs = got.snapshot();
    if !gs.is_empty() && gs[0] != a {
        ctx.violate("client-body-altered", format!("client sent {} body bytes, the server received {} (equal: false)", la, gs[0].len()));
    }
    match o {
        Out::Ok(resp) => {
            ctx.count("client_bodies_ok", 1);
            if trunc {
                ctx.violate("truncated-accepted", format!("a truncated response (of {} body bytes, {}, chunked {}) was accepted as success with {} bytes", lb, if rst_ { "RST" } else { "FIN" }, in_chunks, resp.body.len()));
            } else if resp.body != b {
                ctx.violate("response-body-altered", format!("server sent {} bytes, the caller got {} (differs)", lb, resp.body.len()));
            }
        }
        Out::Err(e) => {
            if !trunc {
                ctx.count("fake_unexpected_errors", 1);
                if ctx.counter("fake_unexpected_errors") >= 4 {
                    ctx.violate("client-failed", format!("calls to a slow but correct server keep failing: {}", e.to_string().lines().next().unwrap_or("")));
                }
            } else {
                ctx.count("client_truncations_detected", 1);
            }
        }
        o => {
            ctx.count("fake_stalls", 1);
            if ctx.counter("fake_stalls") >= 3 {
                ctx.violate("client-stalled", format!("calls do not finish ({}), truncated={} body {} response {}", o.describe(), trunc, la, lb));
            }
        }
    }
}

/// One request of a keep-alive sequence.
#[derive(Clone, Debug)]
struct Step {
    kind: &'static str,
    method: String,
    target: String,
    headers: Vec<(String, Vec<u8>)>,
    body: Vec<u8>,
    status: u16,
    /// What the handler answers, if it runs.
    resp_status: u16,
    /// Expected handler run: slot, id.
    run: Option<(usize, u64)>,
    resp: Option<Vec<u8>>,
    head: bool,
    no_length: bool,
    /// The body in chunked framing, if it is sent so.
    chunks: Option<Vec<u8>>,
}
const SEQ_SLOTS: usize = 12;
fn seq_slots() {
    // 0 PUT All, 1 POST Skip, 2 PUT Part, 3 HEAD, 4 GET All, 5 query+header typed (bad args)
    for n in 0..SEQ_SLOTS {
        let mut sc = id_schema(n);
        sc.method = [
            HttpMethod::Put,
            HttpMethod::Post,
            HttpMethod::Put,
            HttpMethod::Head,
            HttpMethod::Get,
            HttpMethod::Put,
            HttpMethod::Delete,
            HttpMethod::Post,
            HttpMethod::Options,
            HttpMethod::Patch,
            HttpMethod::Trace,
            HttpMethod::Connect,
        ][n];
        sc.read = match n {
            1 | 6 | 9 => ReadMode::Skip,
            2 => ReadMode::Part(10),
            7 => ReadMode::Part(1500),
            _ => ReadMode::All,
        };
        if n == 5 {
            sc.query = Sect::Struct(vec![Field { name: "q", ty: Ty::U8, opt: false }]);
            sc.header = Sect::Struct(vec![Field { name: "x-n", ty: Ty::I32, opt: true }]);
        }
        set_slot(n, sc);
    }
}
fn smuggle(r: &mut Rng, len: usize) -> Vec<u8> {
    // Body that consists of complete requests to registered procedures with recognisable ids.
    let one = format!(
        "PUT /t0/{} HTTP/1.1\r\nContent-Length: 0\r\n\r\n",
        0xE711_0000_0000_0000u64 + r.below(1000) as u64
    );
    let mut v = Vec::new();
    while v.len() < len {
        v.extend_from_slice(one.as_bytes());
    }
    v
}
fn step(r: &mut Rng) -> Step {
    let id = next_id() >> 1;
    let blen = if r.chance(1, 8) { r.below(150_000) } else { *r.pick(EDGES) };
    let body = match r.below(4) {
        0 => vec![],
        1 => smuggle(r, blen),
        _ => content(r, blen),
    };
    let mut s = Step {
        kind: "ok",
        method: "PUT".into(),
        target: format!("/t0/{}", id),
        headers: vec![],
        body,
        status: 200,
        resp_status: 200,
        run: Some((0, id)),
        resp: Some(content(r, 0)),
        head: false,
        no_length: false,
        chunks: None,
    };
    let rl = *r.pick(EDGES);
    s.resp = Some(content(r, rl));
    match r.below(14) {
        0 => {
            s.resp_status = crate::status::any_final(r);
            s.status = s.resp_status;
        }
        1 | 2 => {
            let n = *r.pick(&[0usize, 0, 4, 8, 10, 11]);
            s.method = slot(n).method.to_string();
            s.target = format!("/t{}/{}", n, id);
            s.run = Some((n, id));
        }
        3..=5 => {
            let n = *r.pick(&[1usize, 2, 6, 7, 9]);
            s.resp_status = crate::status::any_final(r);
            s.status = s.resp_status;
            s.kind = "body not read";
            s.method = slot(n).method.to_string();
            s.target = format!("/t{}/{}", n, id);
            s.run = Some((n, id));
        }
        6 => {
            s.kind = "404";
            s.target = format!("/nope/{}", id);
            s.status = 404;
            s.run = None;
            s.resp = None;
        }
        7 => {
            s.kind = "405";
            s.method = "DELETE".into();
            s.status = 405;
            s.run = None;
            s.resp = None;
        }
        8 => {
            s.kind = "400 path";
            s.target = "/t0/notanumber".into();
            s.status = 400;
            s.run = None;
            s.resp = None;
        }
        9 => {
            s.kind = "400 query";
            s.target = format!("/t5/{}?q={}", id, *r.pick(&["256", "-1", "x", ""]));
            s.status = 400;
            s.run = None;
            s.resp = None;
        }
        10 => {
            s.kind = "400 header";
            s.target = format!("/t5/{}?q=1", id);
            s.headers = vec![("X-N".into(), b" abc".to_vec())];
            s.status = 400;
            s.run = None;
            s.resp = None;
        }
        11 => {
            s.kind = "head";
            s.resp_status = crate::status::any_final(r);
            s.status = s.resp_status;
            s.method = "HEAD".into();
            s.target = format!("/t3/{}", id);
            s.run = Some((3, id));
            s.head = true;
        }
        12 => {
            s.kind = "head refused";
            s.method = "HEAD".into();
            s.target = r.pick(&[format!("/nope/{}", id), format!("/t0/{}", id), "/t3/abc".to_owned()]).clone();
            s.status = if s.target.starts_with("/nope") {
                404
            } else if s.target.starts_with("/t0") {
                405
            } else {
                400
            };
            s.run = None;
            s.resp = None;
            s.head = true;
        }
        _ => {
            s.kind = "no length";
            s.method = "GET".into();
            s.target = format!("/t4/{}", id);
            s.run = Some((4, id));
            s.body = vec![];
            s.no_length = true;
        }
    }
    if !s.no_length && r.chance(1, 4) {
        s.chunks = Some(chunked(&s.body, r));
    }
    s
}
fn step_bytes(s: &Step) -> Vec<u8> {
    let mut v = format!("{} {} HTTP/1.1\r\nHost: x\r\n", s.method, s.target).into_bytes();
    for (k, x) in &s.headers {
        v.extend_from_slice(k.as_bytes());
        v.push(b':');
        v.extend_from_slice(x);
        v.extend_from_slice(b"\r\n");
    }
    if let Some(c) = &s.chunks {
        v.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
        v.extend_from_slice(c);
        return v;
    }
    if !s.no_length {
        v.extend_from_slice(format!("Content-Length: {}\r\n", s.body.len()).as_bytes());
    }
    v.extend_from_slice(b"\r\n");
    v.extend_from_slice(&s.body);
    v
}
/// Runs a sequence on one connection. Err = (signature, description) of the first discrepancy.
fn run_sequence(ctx: &Ctx, lab: &Lab, steps: &[Step], r: &mut Rng) -> Result<(), (String, String)> {
    let mut c = Conn::connect(lab.addr()).map_err(|e| ("connect".to_owned(), e.to_string()))?;
    let hist = |i: usize| {
        steps[..=i]
            .iter()
            .map(|s| format!("{} {} body {}{}", s.kind, s.method, s.body.len(), if s.chunks.is_some() { " (chunked)" } else { "" }))
            .collect::<Vec<_>>()
            .join("; ")
    };
    for (i, s) in steps.iter().enumerate() {
        if let (Some((_, id)), Some(b)) = (s.run, &s.resp) {
            lab.board.plan.lock().unwrap().insert(id, RespVal { status: s.resp_status, header: Vals::Absent, body: b.clone() });
        }
        let msg = step_bytes(s);
        let sent = match r.below(4) {
            0 => c.send_fragmented(&msg, r, 4),
            1 => {
                // head first, body later
                let bl = s.chunks.as_ref().map_or(s.body.len(), |c| c.len());
                let cut = msg.len() - bl + r.below(bl + 1).min(20);
                let cut = cut.min(msg.len());
                let a = c.send(&msg[..cut]);
                std::thread::sleep(Duration::from_millis(2));
                a && c.send(&msg[cut..])
            }
            _ => c.send(&msg),
        };
        let rc = c.response(s.head);
        let ev = s.run.map(|(_, id)| lab.take_events(id)).unwrap_or_default();
        if let Some((_, id)) = s.run {
            lab.board.plan.lock().unwrap().remove(&id);
        }
        let m = match rc {
            Recv::Msg(m) => m,
            o => return Err(("no-response".into(), format!("request {} ({}; sent completely {}) got {}; history: {}", i, s.kind, sent, o.describe(), hist(i)))),
        };
        ctx.count("responses", 1);
        ctx.count(&format!("kind: {}", s.kind), 1);
        if s.chunks.is_some() {
            ctx.count("chunked", 1);
        }
        if m.status() != s.status {
            return Err(("wrong-status".into(), format!("request {} ({} {} {}) answered {} instead of {}; history: {}", i, s.kind, s.method, s.target, m.status(), s.status, hist(i))));
        }
        if let Some((n, _)) = s.run {
            if ev.len() != 1 || ev[0].slot != n {
                return Err(("run-count".into(), format!("request {} ({}) ran its handler {} times; history: {}", i, s.kind, ev.len(), hist(i))));
            }
            let want: &[u8] = match slot(n).read {
                ReadMode::All => &s.body,
                ReadMode::Skip => &[],
                ReadMode::Part(k) => &s.body[..s.body.len().min(k)],
            };
            if ev[0].req.body != want {
                return Err(("body-altered".into(), format!("request {} ({}) delivered another body ({} bytes instead of {}); history: {}", i, s.kind, ev[0].req.body.len(), want.len(), hist(i))));
            }
        }
        if !s.head {
            if let Some(b) = &s.resp {
                if m.body != *b {
                    return Err(("wrong-response".into(), format!("request {} ({}) got a response of {} bytes that is not its own ({} bytes); history: {}", i, s.kind, m.body.len(), b.len(), hist(i))));
                }
            } else if let Err(e) = problem_ok(&m, s.status) {
                return Err(("bad-problem".into(), format!("request {} ({}): {}; history: {}", i, s.kind, e, hist(i))));
            }
        }
        if r.chance(1, 6) {
            std::thread::sleep(Duration::from_millis(2));
            let k = c.peek_now();
            if k > 0 {
                return Err(("extra-bytes".into(), format!("{} unsolicited bytes after the response to request {} ({}): {:?}; history: {}", k, i, s.kind, String::from_utf8_lossy(&c.buf[..k.min(100)]), hist(i))));
            }
        }
    }
    c.fin();
    let (b, _) = c.drain(Duration::from_secs(5));
    if !b.is_empty() {
        return Err(("extra-bytes".into(), format!("{} unsolicited bytes after the last response: {:?}; history: {}", b.len(), String::from_utf8_lossy(&b[..b.len().min(100)]), hist(steps.len() - 1))));
    }
    Ok(())
}

pub fn c09(ctx: &Ctx) -> &'static str {
    seq_slots();
    let slots: Vec<usize> = (0..SEQ_SLOTS).collect();
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        let mut r = ctx.rng("round", round);
        let lab = Lab::start(r.range(1, 3), &slots);
        let base = r.next();
        par(8, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            for _ in 0..6 {
                if !ctx.go_on() {
                    return;
                }
                // mostly short, sometimes hundreds of requests on one connection
                let len = if r.chance(1, 40) { *r.pick(&[140usize, 300, 1100]) } else { r.range(2, 14) };
                ctx.max("longest_sequence", len as u64);
                let steps: Vec<Step> = (0..len).map(|_| step(&mut r)).collect();
                let key = steps.iter().map(|s| format!("{}:{}:{}{}", s.kind, s.method, s.body.len(), if s.chunks.is_some() { "c" } else { "" })).collect::<Vec<_>>().join(",");
                if t == 0 && round <= 3 {
                    ctx.sample(json!(key));
                }
                judge_sequence(ctx, &lab, &steps, &mut r, &key);
            }
        });
        trip::pause(10);
        for e in lab.board.take() {
            match event_id(&slot(e.slot), &e.req) {
                Some(id) if id >> 48 == 0xE711 => ctx.violate("smuggled", format!("bytes of a request body were executed as a request: handler of slot {} id {:x}", e.slot, id)),
                x => ctx.violate("stray-handler-run", format!("a handler ran for no request: {:?} slot {}", x, e.slot)),
            }
        }
        watch(ctx, &lab, "keep-alive sequences");
    }
    "one case = one connection with a distinct sequence of (kind, method, body size) requests, each sent after the previous response; statuses, bodies, handler runs and the absence of extra bytes are compared per request"
}
/// Timing-free discrepancies are confirmed by repeating the very same sequence on a fresh server.
fn judge_sequence(ctx: &Ctx, lab: &Lab, steps: &[Step], r: &mut Rng, key: &str) {
    let mut seed = r.clone();
    match run_sequence(ctx, lab, steps, r) {
        Ok(()) => ctx.eval(key),
        Err((sig, d)) if sig == "no-response" || sig == "connect" => {
            let mut fails = 0;
            for _ in 0..2 {
                let slots: Vec<usize> = (0..SEQ_SLOTS).collect();
                let l2 = Lab::start(1, &slots);
                if run_sequence(ctx, &l2, steps, &mut seed.clone()).is_err() {
                    fails += 1;
                }
            }
            seed.next();
            if fails == 2 {
                ctx.violate(&sig, d);
            } else {
                eprintln!("unreproduced: {} {}", sig, d);
                ctx.count("unreproduced", 1);
                if ctx.counter("unreproduced") >= 4 {
                    ctx.violate("no-response-sometimes", d);
                }
            }
        }
        Err((sig, d)) => ctx.violate(&sig, d),
    }
}

pub fn c19(ctx: &Ctx) -> &'static str {
    let cli = Exec::new(2);
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        let mut r = ctx.rng("round", round);
        // 0..5 HEAD procedures, 6 PUT, 7 GET with the same entry point as a HEAD one
        for n in 0..6 {
            let mut sc = id_schema(n);
            sc.method = HttpMethod::Head;
            let h = match r.below(3) {
                0 => Sect::Absent,
                1 => Sect::Map,
                _ => Sect::Struct(vec![
                    Field { name: "etag", ty: Ty::Str, opt: false },
                    Field { name: "x-n", ty: gen::ty(&mut r), opt: true },
                ]),
            };
            sc.resp = if n % 2 == 0 {
                RespShape::Num(h)
            } else {
                RespShape::Named(vec![(*r.pick(&[200, 204, 404, 500, 304]), h), (201, Sect::Absent)])
            };
            sc.read = *r.pick(&[ReadMode::All, ReadMode::Skip]);
            set_slot(n, sc);
        }
        let mut sc = id_schema(6);
        sc.method = HttpMethod::Put;
        set_slot(6, sc);
        let mut sc = id_schema(7);
        sc.method = HttpMethod::Get;
        sc.ep = entry_point(&[Some("t0"), None]);
        set_slot(7, sc);
        let slots: Vec<usize> = (0..8).collect();
        let lab = Lab::start(r.range(1, 3), &slots);
        let pool = htrpc::pool::RpcClientPool::with_pool_size(1);
        let ph = pool.handle();
        let pexec = Exec::new(1);
        {
            use fibers::Spawn;
            pexec.spawn_pool(pool);
        }
        let gen_resp = |r: &mut Rng, n: usize| {
            let (status, s) = match &slot(n).resp {
                RespShape::Num(s) => (r.pick(crate::status::TABLE).0, s.clone()),
                RespShape::Named(v) => r.pick(v).clone(),
            };
            let header = match &s {
                Sect::Absent => Vals::Absent,
                Sect::Map => Vals::Map(vec![("x-m".into(), gen::string(r, Alpha::HeaderOk))]),
                Sect::Struct(f) => Vals::Struct(
                    f.iter()
                        .map(|f| if f.opt && r.chance(1, 2) { None } else { Some(gen::val(r, f.ty, Alpha::HeaderOk)) })
                        .collect(),
                ),
            };
            let len = if r.chance(1, 10) { r.below(300_000) } else { *r.pick(EDGES) };
            RespVal { status, header, body: content(r, len) }
        };
        // The real client, single and pooled (interleaved with other calls on the same connection).
        for pooled in [false, true] {
            let mut ev = 0;
            for k in 0..24 {
                if !ctx.go_on() && ctx.violation_count() > 0 {
                    break;
                }
                let n = if pooled && k % 3 == 2 { 6 } else { r.below(6) };
                let id = next_id();
                let resp = if n == 6 {
                    RespVal { status: 200, header: Vals::Absent, body: r.bytes(20) }
                } else {
                    gen_resp(&mut r, n)
                };
                lab.board.plan.lock().unwrap().insert(id, resp.clone());
                let blen = *r.pick(&[0, 0, 10, 2000]);
                let req = id_req(id, r.bytes(blen));
                let mut ok = None;
                for _ in 0..3 {
                    let f = if pooled { pool_call(&ph, lab.addr(), n, req.clone()) } else { call(lab.addr(), n, req.clone()) };
                    match cli.run(f, WATCHDOG) {
                        Out::Ok(x) => {
                            ok = Some(Ok(x));
                            break;
                        }
                        o => ok = Some(Err(o.describe())),
                    }
                }
                ev += 1;
                match ok.unwrap() {
                    Err(e) => ctx.violate("head-call-failed", format!("HEAD call (pooled {}) with handler response {} {:?} body {} failed 3 times: {}", pooled, resp.status, resp.header, resp.body.len(), e)),
                    Ok(got) => {
                        let mut want = resp.clone();
                        if n != 6 {
                            want.body = vec![];
                        }
                        ctx.eval(&format!("client {} {} {:?} {}", n, want.status, want.header, resp.body.len()));
                        if let Err((sig, d)) = trip::resp_eq(&want, &got) {
                            ctx.violate(&format!("head-{}", sig), format!("HEAD call (pooled {}): {}", pooled, d));
                        }
                    }
                }
            }
            ctx.count("client_head_calls", ev);
        }
        // Raw: HEAD responses interleaved with others on one connection.
        let base = r.next();
        par(4, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            for _ in 0..6 {
                if !ctx.go_on() {
                    return;
                }
                let plan: Vec<(usize, u64, RespVal)> = (0..r.range(3, 12))
                    .map(|_| {
                        let n = if r.chance(2, 3) { r.below(6) } else { r.range(6, 7) };
                        let resp = if n >= 6 {
                            let k = *r.pick(EDGES);
                            RespVal { status: 200, header: Vals::Absent, body: content(&mut r, k) }
                        } else {
                            gen_resp(&mut r, n)
                        };
                        (n, next_id(), resp)
                    })
                    .collect();
                let mut bad = None;
                for _ in 0..2 {
                    bad = head_sequence(ctx, &lab, &plan, &mut r);
                    match &bad {
                        Some((s, _)) if s == "no-response" => continue,
                        _ => break,
                    }
                }
                if let Some((s, d)) = bad {
                    ctx.violate(&s, d);
                }
            }
        });
        lab.board.take();
        watch(ctx, &lab, "HEAD");
    }
    "one case = one HEAD call with a distinct (procedure shape, status, headers, supplied body size), by the real client (single and pooled) or raw and interleaved with other requests on one connection"
}
fn head_sequence(ctx: &Ctx, lab: &Lab, plan: &[(usize, u64, RespVal)], r: &mut Rng) -> Option<(String, String)> {
    let mut c = match Conn::connect(lab.addr()) {
        Ok(c) => c,
        Err(e) => return Some(("no-response".into(), e.to_string())),
    };
    for (i, (n, id, resp)) in plan.iter().enumerate() {
        lab.board.plan.lock().unwrap().insert(*id, resp.clone());
        let head = *n < 6;
        let refused = head && r.chance(1, 5);
        let ep = if *n == 7 { 0 } else { *n };
        let target = if refused { r.pick(&["/nope", "/t6/5", "/t0/x"]).to_string() } else { format!("/t{}/{}", ep, id) };
        let bl = *r.pick(&[0, 0, 5, 3000]);
        c.send(&http_request(&slot(*n).method.to_string(), &target, &[], &r.bytes(bl)));
        let m = match c.response(head) {
            Recv::Msg(m) => m,
            o => {
                return Some((
                    if matches!(o, Recv::Malformed(..)) { "out-of-step".into() } else { "no-response".into() },
                    format!("message {} ({}): {}; previous handler body sizes {:?}", i, slot(*n).method, o.describe(), plan[..i].iter().map(|p| (p.0, p.2.body.len())).collect::<Vec<_>>()),
                ))
            }
        };
        ctx.eval(&format!("raw {} {} {} {}", n, refused, resp.status, resp.body.len()));
        ctx.count("raw_head_sequence_messages", 1);
        if refused {
            let want = match &target[..] {
                "/nope" => 404,
                "/t6/5" => 405,
                _ => 400,
            };
            if m.status() != want {
                return Some(("head-refusal-status".into(), format!("HEAD {} answered {} instead of {}", target, m.status(), want)));
            }
        } else {
            if m.status() != resp.status {
                return Some(("head-status".into(), format!("{} answered {} instead of {}", slot(*n).method, m.status(), resp.status)));
            }
            if let Vals::Map(kv) = &resp.header {
                if m.header("x-m") != Some(kv[0].1.as_bytes()) {
                    return Some(("head-header".into(), format!("header {:?} arrived as {:?}", kv[0].1, m.header_str("x-m"))));
                }
            }
            if !head && m.body != resp.body {
                return Some(("out-of-step".into(), format!("the request after a HEAD got a wrong body ({} instead of {} bytes)", m.body.len(), resp.body.len())));
            }
        }
        if head {
            std::thread::sleep(Duration::from_millis(if r.chance(1, 3) { 3 } else { 0 }));
            let k = c.peek_now();
            if k > 0 {
                return Some(("head-body".into(), format!("{} body bytes follow the response to HEAD {} (handler supplied {})", k, target, resp.body.len())));
            }
        }
    }
    c.fin();
    let (b, _) = c.drain(Duration::from_secs(3));
    if !b.is_empty() {
        return Some(("head-body".into(), format!("{} bytes follow the last response", b.len())));
    }
    None
}

/// Strict checks on a request emitted by the client.
pub fn strict_request(m: &Msg, method: &str) -> Result<(), String> {
    if m.start.0 != method {
        return Err(format!("method {:?} instead of {:?}", m.start.0, method));
    }
    if m.start.2 != "HTTP/1.1" {
        return Err(format!("version {:?}", m.start.2));
    }
    let t = &m.start.1;
    if !t.starts_with('/') {
        return Err(format!("target {:?} is not in origin form", t));
    }
    if !t.bytes().all(|b| (0x21..=0x7e).contains(&b) && b != b'#') {
        return Err(format!("illegal character in target {:?}", t));
    }
    strict_len(m).map(|_| ())
}

pub fn c22(ctx: &Ctx) -> &'static str {
    let cli = Exec::new(3);
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        let mut r = ctx.rng("round", round);
        // --- requests emitted by the client
        let nslots = NSLOT;
        for n in 0..nslots {
            let ep = crate::c_args::tagged_ep(&mut r, n, 5);
            let mut sc = crate::c_args::path_schema(&mut r, n, &ep);
            if r.chance(1, 6) {
                sc.method = HttpMethod::Head;
            }
            sc.query = match r.below(4) {
                0 => Sect::Absent,
                1 => Sect::Map,
                _ => Sect::Struct(vec![
                    Field { name: "a b", ty: Ty::Str, opt: false },
                    Field { name: "日", ty: gen::ty(&mut r), opt: true },
                ]),
            };
            sc.header = match r.below(4) {
                0 => Sect::Absent,
                1 => Sect::Map,
                _ => Sect::Struct(vec![
                    Field { name: "x-a", ty: Ty::Str, opt: true },
                    Field { name: "x-b", ty: gen::ty(&mut r), opt: false },
                ]),
            };
            set_slot(n, sc);
        }
        let log: Log<(usize, Result<Msg, String>)> = Log::default();
        let (l2, l3) = (log.clone(), Arc::new(()));
        let _ = l3;
        let fake = Fake::start(move |i, mut c| {
            c.timeout = Duration::from_secs(30);
            loop {
                match c.request() {
                    Recv::Msg(m) => {
                        let head = m.start.0 == "HEAD";
                        l2.push((i, Ok(m)));
                        let resp = http_response(200, &[], b"");
                        std::thread::sleep(Duration::from_micros(200));
                        let k = c.peek_now();
                        if k > 0 {
                            l2.push((i, Err(format!("{} bytes follow the request before the response", k))));
                        }
                        let _ = head;
                        if !c.send(&resp) {
                            return;
                        }
                    }
                    Recv::Closed(b) => {
                        if !b.is_empty() {
                            l2.push((i, Err(format!("{} stray bytes at the end of the connection: {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(200)])))));
                        }
                        return;
                    }
                    Recv::Malformed(e, b) => {
                        l2.push((i, Err(format!("malformed request ({}): {:?}", e, String::from_utf8_lossy(&b[..b.len().min(300)])))));
                        return;
                    }
                    Recv::Timeout(_) => return,
                }
            }
        });
        let pool = htrpc::pool::RpcClientPool::with_pool_size(4);
        let ph = pool.handle();
        let pexec = Exec::new(1);
        {
            use fibers::Spawn;
            pexec.spawn_pool(pool);
        }
        let mut expected = std::collections::HashMap::new();
        let mut without_body: std::collections::HashMap<String, usize> = Default::default();
        let mut pend = Vec::new();
        for _ in 0..96 {
            let n = r.below(nslots);
            let sc = slot(n);
            let path: Vec<Val> = sc.path.tys().iter().map(|t| gen::val(&mut r, *t, Alpha::Any)).collect();
            let query = match &sc.query {
                Sect::Absent => Vals::Absent,
                Sect::Map => Vals::Map(vec![(gen::string(&mut r, Alpha::Any), gen::string(&mut r, Alpha::Any))]),
                Sect::Struct(f) => Vals::Struct(f.iter().map(|f| if f.opt && r.chance(1, 2) { None } else { Some(gen::val(&mut r, f.ty, Alpha::Any)) }).collect()),
            };
            let a = if r.chance(1, 6) { Alpha::Any } else { Alpha::HeaderOk };
            let header = match &sc.header {
                Sect::Absent => Vals::Absent,
                Sect::Map => Vals::Map(vec![(if a == Alpha::Any { gen::string(&mut r, a) } else { "x-k".into() }, gen::string(&mut r, a))]),
                Sect::Struct(f) => Vals::Struct(f.iter().map(|f| if f.opt && r.chance(1, 2) { None } else { Some(gen::val(&mut r, f.ty, a)) }).collect()),
            };
            let id = next_id();
            let blen = *r.pick(EDGES);
            let body = if r.chance(1, 5) {
                *without_body.entry(sc.method.to_string()).or_insert(0) += 1;
                Vec::new()
            } else {
                let body = id_body(id, &content(&mut r, blen));
                expected.insert(id, (n, body.len()));
                body
            };
            let req = ReqVal { path, query, header, body };
            let f = if r.chance(1, 2) { pool_call(&ph, fake.addr, n, req) } else { call(fake.addr, n, req) };
            pend.push(cli.start(f));
        }
        let mut oks = 0;
        for p in &pend {
            if let Out::Ok(_) = p.wait(WATCHDOG) {
                oks += 1;
            }
        }
        ctx.count("client_calls_ok", oks);
        drop(pexec);
        drop(ph);
        trip::pause(5);
        for (_, m) in log.snapshot() {
            match m {
                Err(e) => ctx.violate("request-malformed", e),
                Ok(m) => {
                    ctx.count("client_requests_parsed", 1);
                    if m.body.is_empty() {
                        ctx.eval(&format!("req {} {} 0", m.start.0, m.start.1));
                        ctx.count("client_requests_without_body", 1);
                        let left = without_body.entry(m.start.0.clone()).or_insert(0);
                        if *left == 0 {
                            ctx.violate("request-framing", format!("a request without body that no call sent: {:?}", String::from_utf8_lossy(&m.raw_head)));
                        } else {
                            *left -= 1;
                        }
                        if let Err(e) = strict_request(&m, &m.start.0) {
                            ctx.violate("request-malformed", format!("{}: {:?}", e, String::from_utf8_lossy(&m.raw_head)));
                        }
                        continue;
                    }
                    match call_id(&m.body).and_then(|id| expected.get(&id)) {
                        None => ctx.violate("request-framing", format!("a request whose body starts with no known id: {:?}", String::from_utf8_lossy(&m.raw_head))),
                        Some((n, len)) => {
                            ctx.eval(&format!("req {} {} {}", m.start.0, m.start.1, len));
                            if m.body.len() != *len {
                                ctx.violate("request-framing", format!("content length {} but the body has {} bytes", m.body.len(), len));
                            }
                            if let Err(e) = strict_request(&m, &slot(*n).method.to_string()) {
                                ctx.violate("request-malformed", format!("{}: {:?}", e, String::from_utf8_lossy(&m.raw_head)));
                            }
                            if round <= 2 {
                                ctx.sample(json!({"client_request_head": String::from_utf8_lossy(&m.raw_head)}));
                            }
                        }
                    }
                }
            }
        }
        drop(fake);
        // --- responses emitted by the server
        seq_slots();
        let mut sc = id_schema(12);
        sc.method = HttpMethod::Post;
        sc.resp = RespShape::Num(Sect::Map);
        set_slot(12, sc);
        let mut sc = id_schema(13);
        sc.resp = RespShape::Named(crate::status::TABLE.iter().map(|t| (t.0, if t.0 % 2 == 0 { Sect::Map } else { Sect::Absent })).collect());
        set_slot(13, sc);
        let slots: Vec<usize> = (0..14).collect();
        let lab = Lab::start(r.range(1, 3), &slots);
        let base = r.next();
        par(6, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            for _ in 0..6 {
                if !ctx.go_on() {
                    return;
                }
                server_stream(ctx, &lab, &mut r);
            }
        });
        lab.board.take();
        watch(ctx, &lab, "wire format");
    }
    let _ = (METHODS, Instant::now());
    "one case = one distinct message on the wire: each request the client emitted (random schemas, arguments, bodies, single and pooled) and each response of the server (all statuses, refusals, HEAD), parsed by a strict independent parser over the whole byte stream"
}
fn server_stream(ctx: &Ctx, lab: &Lab, r: &mut Rng) {
    let mut c = match Conn::connect(lab.addr()) {
        Ok(c) => c,
        Err(_) => return,
    };
    for _ in 0..r.range(2, 10) {
        let (mut s, mut resp) = (step(r), None);
        if r.chance(1, 2) {
            let n = r.range(12, 13);
            let id = next_id();
            let status = r.pick(crate::status::TABLE).0;
            let header = if n == 12 || status % 2 == 0 {
                Vals::Map((0..r.below(4)).map(|i| (format!("x-{}", i), gen::string(r, Alpha::HeaderOk))).collect())
            } else {
                Vals::Absent
            };
            s = Step { kind: "status", method: slot(n).method.to_string(), target: format!("/t{}/{}", n, id), headers: vec![], body: vec![], status, resp_status: status, run: Some((n, id)), resp: None, head: false, no_length: false, chunks: None };
            let k = *r.pick(EDGES);
            resp = Some(RespVal { status, header, body: content(r, k) });
        } else if let Some(b) = &s.resp {
            resp = Some(RespVal { status: s.resp_status, header: Vals::Absent, body: b.clone() });
        }
        if let (Some((_, id)), Some(x)) = (s.run, &resp) {
            lab.board.plan.lock().unwrap().insert(id, x.clone());
        }
        if !c.send(&step_bytes(&s)) {
            return;
        }
        match c.response(s.head) {
            Recv::Msg(m) => {
                ctx.eval(&format!("resp {} {} {:?} {}", s.kind, m.status(), resp.as_ref().map(|x| &x.header), m.body.len()));
                ctx.count("server_responses_parsed", 1);
                if m.start.0 != "HTTP/1.1" {
                    ctx.violate("response-malformed", format!("version {:?}", m.start.0));
                }
                if m.status() != s.status {
                    ctx.violate("response-status", format!("{}: {} instead of {}", s.kind, m.status(), s.status));
                }
                if let (false, Some(x)) = (s.head, &resp) {
                    if strict_len(&m) != Ok(x.body.len()) || m.body != x.body {
                        ctx.violate("response-framing", format!("handler body {} bytes, content length {:?}, {} bytes read", x.body.len(), m.header_str("content-length"), m.body.len()));
                    }
                }
            }
            Recv::Malformed(e, b) => {
                ctx.violate("response-malformed", format!("{} ({}): {:?}", e, s.kind, String::from_utf8_lossy(&b[..b.len().min(300)])));
                return;
            }
            o => {
                ctx.count("no_response", 1);
                if ctx.counter("no_response") > 3 {
                    ctx.violate("no-response", format!("{}: {}", s.kind, o.describe()));
                }
                return;
            }
        }
    }
    c.fin();
    let (b, _) = c.drain(Duration::from_secs(3));
    if !b.is_empty() {
        ctx.violate("stray-bytes", format!("{} bytes that belong to no response: {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(200)])));
    }
}
