//! C08 (hostile clients), C16 (misbehaving servers), C20 (stalled peers).
use crate::c_args::{par, plain_schema, METHODS};
use crate::c_body::{id_req, id_schema};
use crate::ctx::Ctx;
use crate::dynp::*;
use crate::gen::{self, Alpha};
use crate::lab::*;
use crate::net::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::trip::next_id;
use fibers::Spawn;
use htrpc::types::HttpMethod;
use serde_json::json;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------- C08

fn hostile_slots() {
    for n in 0..6 {
        let mut sc = id_schema(n);
        sc.method = [HttpMethod::Put, HttpMethod::Get, HttpMethod::Head, HttpMethod::Post, HttpMethod::Put, HttpMethod::Delete][n];
        match n {
            1 => {
                sc.id_in_path = false;
                sc.ep = entry_point(&[Some("t1"), None, Some("x"), None]);
                sc.path = PathSect::Tuple(vec![Ty::Str, Ty::I8]);
                sc.query = Sect::Struct(vec![
                    Field { name: "a", ty: Ty::Str, opt: true },
                    Field { name: "n", ty: Ty::U16, opt: true },
                ]);
            }
            3 => {
                sc.query = Sect::Map;
                sc.header = Sect::Struct(vec![Field { name: "x-num", ty: Ty::F64, opt: true }, Field { name: "x-raw", ty: Ty::Bytes, opt: true }]);
            }
            4 => {
                // everything variable: catches whatever has one segment
                sc.id_in_path = false;
                sc.ep = entry_point(&[None]);
                sc.path = PathSect::Tuple(vec![Ty::Str]);
                sc.header = Sect::Map;
                sc.read = ReadMode::Skip;
            }
            5 => {
                sc.id_in_path = false;
                sc.ep = entry_point(&[]);
                sc.path = PathSect::Absent;
                sc.read = ReadMode::Part(5);
            }
            _ => {}
        }
        set_slot(n, sc);
    }
}
const TARGETS: &[&str] = &[
    "", "*", "/", "//", "///", "////a", "/.", "/..", "/../..", "/./.", "//t0/1", "/t0", "/t0/", "/t0//", "/t0/1/", "/t0/1//2", "http:", "http://",
    "http://h", "http://h/t0/1", "http://[::1", "http://a:b@c:99999/", "https:///x", "data:x", "data:,x", "mailto:a@b", "javascript:1", "a:b", "a:b/c", ":",
    "::", "x", "t0/1", "host:80", "localhost:443", "[::1]:80", "?", "/?", "?a=b", "/?a", "/t1/x/x/1?", "/t1/x/x/1?a", "/t1/x/x/1?=", "/t1/x/x/1?&&", "/t1/x/x/1?a=%",
    "/t1/x/x/1?n=99999999999999999999", "/t1/x/x/999", "/t1/%/x/1", "/t1/%zz/x/1", "/t1/%ff/x/1", "/t1/%c3%28/x/1", "/t1/%00/x/1", "/t1/%2f/x/%2e", "#", "/#", "/t0/1#f", "#/t0/1",
    "/%", "/%2", "/%2f%2f", "\\", "/\\", "\\\\host\\x", "/;", "/t0;a/1", "/\"", "/<>", "/{}", "/|", "/^", "/`", "/~", "file:///etc/passwd", "blob:x", "about:blank", "ws://x", "unix:/x", "//[", "//]", "//:80", "//@", "//u:p@h:0/p",
    "/t0/18446744073709551616", "/t0/-1", "/t0/1?%", "/?%", "cannot-be-a-base:x?q#f", "http:/t0/1", "http:t0/1", "HTTP://X",
];

fn valid_request(r: &mut Rng) -> Vec<u8> {
    let id = next_id();
    let blen = *r.pick(&[0usize, 1, 8, 100, 3000]);
    let body = r.bytes(blen);
    match r.below(4) {
        0 => http_request("PUT", &format!("/t0/{}", id), &[("Host", "x")], &body),
        1 => http_request("GET", &format!("/t1/{}/x/{}?a={}&n=1", gen::pct_random(r, "aé b".as_bytes(), b""), r.below(127), "v"), &[], b""),
        2 => http_request("HEAD", &format!("/t2/{}", id), &[], b""),
        _ => http_request("POST", &format!("/t3/{}?k=v&k2=", id), &[("X-Num", "1.5"), ("x-raw", "abc")], &body),
    }
}
fn target(r: &mut Rng) -> Vec<u8> {
    match r.below(7) {
        5 | 6 => {
            // long, with characters of several bytes at any offset
            let n = *r.pick(&[40usize, 70, 130, 260, 500, 1030, 2050, 4100, 7000]);
            let mut t = String::from(*r.pick(&["/", "/t0/", "/t1/", "/t1/a/x/1?a=", "/t3/1?", "", "http://h/", "/t1/x/x/1#"]));
            let dense = r.range(1, 4);
            while t.len() < n {
                if r.chance(1, 12) {
                    t.push_str(*r.pick(&["/", "?", "&", "=", "%41", "%c3%a9", "%ff", "%", ";", ",", "+"]));
                } else if r.chance(1, dense) {
                    t.push(*r.pick(&['\u{e9}', '\u{3b1}', '\u{20ac}', '\u{3042}', '\u{1f600}', '\u{10ffff}', '\u{301}', '\u{7ff}', '\u{feff}']));
                } else {
                    t.push((b'a' + r.below(26) as u8) as char);
                }
            }
            t.into_bytes()
        }
        0 | 1 | 2 => r.pick(TARGETS).as_bytes().to_vec(),
        3 => {
            let mut t = String::new();
            for _ in 0..r.range(1, 6) {
                t.push_str(*r.pick(&["/", "t0", "t1", "x", "..", ".", "%", "%2f", "%zz", ":", "//", "?", "#", "@", "1", "a=b", "&", "=", "[", "]", "http:", "\\", "%c3%28", "%00", "é"]));
            }
            t.into_bytes()
        }
        _ => {
            let n = r.range(1, 12);
            (0..n).map(|_| { let b = r.next() as u8; if b == b' ' || b == b'\r' || b == b'\n' { b'_' } else { b } }).collect()
        }
    }
}
/// A hostile byte sequence and how it was made.
fn hostile_bytes(r: &mut Rng) -> (&'static str, Vec<u8>) {
    match r.below(16) {
        0 => {
            let n = r.range(0, 300);
            ("random bytes", r.bytes(n))
        }
        1 | 2 | 3 | 4 => {
            let m = r.pick(&["GET", "PUT", "POST", "HEAD", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH"]).to_string();
            let mut v = format!("{} ", m).into_bytes();
            v.extend(target(r));
            v.extend_from_slice(b" HTTP/1.1\r\n");
            match r.below(5) {
                0 => v.extend_from_slice(b"\r\n"),
                1 => v.extend_from_slice(b"Content-Length: 3\r\n\r\nabc"),
                2 => v.extend_from_slice(b"Content-Length: 100\r\n\r\nabc"),
                3 => v.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n"),
                _ => v.extend_from_slice(b"Content-Length: 0\r\nHost: x\r\n\r\n"),
            }
            ("strange target", v)
        }
        5 | 6 | 7 => {
            let mut v = valid_request(r);
            for _ in 0..r.range(1, 6) {
                if v.is_empty() {
                    break;
                }
                let i = r.below(v.len());
                match r.below(5) {
                    0 => v[i] ^= 1 << r.below(8),
                    1 => v[i] = *r.pick(&[0u8, b'\r', b'\n', b' ', b'%', b':', 0x7f, 0x80, 0xff, b'/']),
                    2 => {
                        v.remove(i);
                    }
                    3 => {
                        let b = r.next() as u8;
                        v.insert(i, b);
                    }
                    _ => {
                        let j = r.below(v.len());
                        let (a, b) = (i.min(j), i.max(j));
                        let part = v[a..b].to_vec();
                        let at = r.below(v.len());
                        for (k, x) in part.into_iter().take(200).enumerate() {
                            v.insert(at + k, x);
                        }
                    }
                }
            }
            ("mutated request", v)
        }
        8 => {
            let v = valid_request(r);
            let k = r.below(v.len() + 1);
            ("prefix", v[..k].to_vec())
        }
        9 => {
            let n = *r.pick(&[2_000usize, 8_000, 8_097, 20_000, 200_000]);
            let mut v = b"GET /".to_vec();
            v.extend(vec![b'a'; n]);
            if r.chance(1, 2) {
                v.extend_from_slice(b" HTTP/1.1\r\n\r\n");
            }
            ("oversized target", v)
        }
        10 => {
            let mut v = b"PUT /t0/1 HTTP/1.1\r\n".to_vec();
            for i in 0..*r.pick(&[10usize, 33, 100, 1000]) {
                v.extend_from_slice(format!("X-{}: {}\r\n", i, "v".repeat(r.below(30))).as_bytes());
            }
            v.extend_from_slice(b"\r\n");
            ("many headers", v)
        }
        11 => {
            let cl = *r.pick(&["-1", "abc", "18446744073709551615", "18446744073709551616", "1e3", "0x10", "", " ", "3 3", "+3", "99999999999999999999999999", "9223372036854775808"]);
            let mut v = format!("{} /t{}/1 HTTP/1.1\r\nContent-Length: {}\r\n\r\n", r.pick(&["PUT", "POST", "GET"]), r.below(6), cl).into_bytes();
            v.extend_from_slice(b"abc");
            ("bad content-length", v)
        }
        12 => {
            let ch = *r.pick(&["zz\r\n", "-1\r\n", "ffffffffffffffffffff\r\n", "3\r\nab", "3\r\nabcX", "0\r\n", "3;x=y\r\nabc\r\n0\r\n\r\n", "\r\n", "3\r\nabc\r\n", "7fffffffffffffff\r\nabc"]);
            let v = format!("PUT /t0/1 HTTP/1.1\r\nTransfer-Encoding: {}\r\n\r\n{}", r.pick(&["chunked", "gzip", "identity", "chunked, chunked", ""]), ch);
            ("transfer encodings", v.into_bytes())
        }
        13 => {
            let mut v = format!("POST /t3/{} HTTP/1.1\r\n", next_id()).into_bytes();
            for _ in 0..r.range(1, 4) {
                v.extend_from_slice(r.pick(&[&b"x-num"[..], b"x-raw", b"content-length", b"content-type", b"X-NUM", b"host", b"", b"\xff\xfe", b"a b"]));
                v.extend_from_slice(b":");
                let n = r.below(8);
                let val = match r.below(4) {
                    3 => {
                        let mut t = String::new();
                        let n = *r.pick(&[30usize, 70, 140, 300, 1100, 4000]);
                        while t.len() < n {
                            t.push(*r.pick(&['a', '\u{e9}', '\u{20ac}', '\u{1f600}', '1']));
                        }
                        t.into_bytes()
                    }
                    0 => r.bytes(n),
                    1 => gen::string(r, Alpha::Any).into_bytes(),
                    _ => b"nan".to_vec(),
                };
                v.extend(val.into_iter().filter(|b| *b != b'\n'));
                v.extend_from_slice(b"\r\n");
            }
            v.extend_from_slice(b"\r\n");
            ("strange headers", v)
        }
        14 => {
            let l = *r.pick(&["GET", "GET /", "GET / HTTP/9.9\r\n\r\n", "get / http/1.1\r\n\r\n", " / HTTP/1.1\r\n\r\n", "\r\n\r\n\r\n", "GET  / HTTP/1.1\r\n\r\n", "GET\t/\tHTTP/1.1\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\x16\x03\x01\x02\x00", "GET / HTTP/1.1\n\n", "GET / HTTP/1.1\r\n: x\r\n\r\n", "GET / HTTP/1.1\r\nA\r\n\r\n", "BREW / HTTP/1.1\r\n\r\n", "GET / HTTP/1.0\r\nConnection: close\r\n\r\n"]);
            ("strange request line", l.as_bytes().to_vec())
        }
        _ => {
            let mut v = Vec::new();
            for _ in 0..r.range(2, 4) {
                v.extend(valid_request(r));
            }
            ("several requests at once", v)
        }
    }
}
fn canary_bytes(id: u64, body: &[u8]) -> Vec<u8> {
    http_request("PUT", &format!("/t0/{}", id), &[("Host", "canary")], body)
}
/// One well-formed request; Ok only if it was answered correctly.
fn canary(c: &mut Conn, what: &str) -> Result<(), String> {
    let id = next_id();
    if !c.send(&canary_bytes(id, b"canary body")) {
        return Err(format!("{}: cannot send", what));
    }
    match c.response(false) {
        Recv::Msg(m) if m.status() == 200 && m.body == id.to_le_bytes() => Ok(()),
        Recv::Msg(m) => Err(format!("{}: answered {} {:?}", what, m.status(), String::from_utf8_lossy(&m.body))),
        o => Err(format!("{}: {}", what, o.describe())),
    }
}
fn fd_count() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

/// One round: a fresh server, standing connections, a crowd of hostile ones, canaries in between.
/// Returns what went wrong, if anything.
fn hostile_round(ctx: &Ctx, seed: u64, crowd: usize) -> Option<(String, String)> {
    let mut r = Rng::new(seed);
    let lab = Lab::start(*r.pick(&[1usize, 1, 2, 4]), &[0, 1, 2, 3, 4, 5]);
    let mut standing: Vec<Conn> = Vec::new();
    for i in 0..2 {
        match Conn::connect(lab.addr()) {
            Ok(mut c) => {
                if i == 0 {
                    if let Err(e) = canary(&mut c, "first request") {
                        return Some(("canary-failed".into(), e));
                    }
                }
                standing.push(c);
            }
            Err(e) => return Some(("cannot-connect".into(), e.to_string())),
        }
    }
    let inputs: Log<(String, String)> = Log::default();
    let seeds: Vec<u64> = (0..4).map(|_| r.next()).collect();
    let addr = lab.addr();
    par(4, |t| {
        let mut r = Rng::new(seeds[t]);
        for _ in 0..crowd / 4 {
            let mut c = match Conn::connect(addr) {
                Ok(c) => c,
                Err(_) => return, // the canaries decide
            };
            c.timeout = Duration::from_millis(300);
            let parts = r.range(1, 2);
            let mut n = 0;
            for _ in 0..parts {
                let (kind, b) = hostile_bytes(&mut r);
                inputs.push((kind.to_string(), String::from_utf8_lossy(&b[..b.len().min(160)]).into_owned()));
                ctx.eval(&format!("{} {:x}", kind, crate::rng::fnv(&b)));
                ctx.count(kind, 1);
                n += b.len();
                let ok = if r.chance(1, 3) { c.send_fragmented(&b, &mut r, 4) } else { c.send(&b) };
                if !ok {
                    break;
                }
            }
            let _ = n;
            match r.below(5) {
                0 => c.reset(),
                1 => drop(c),
                2 => {
                    c.fin();
                    let _ = c.drain(Duration::from_millis(100));
                }
                3 => {
                    let _ = c.drain(Duration::from_millis(10));
                    c.reset();
                }
                _ => {
                    let _ = c.drain(Duration::from_millis(30));
                }
            }
        }
    });
    let tail = || {
        let v = inputs.snapshot();
        format!("{:?}", v.iter().rev().take(12).collect::<Vec<_>>())
    };
    let ps = library_panics();
    if let Some(p) = ps.iter().find(|p| !p.contains("harness") && !p.contains("dynp.rs")) {
        return Some(("panic".into(), format!("{}; last inputs {}", p, tail())));
    }
    for (i, c) in standing.iter_mut().enumerate() {
        if let Err(e) = canary(c, "standing connection") {
            return Some(("canary-failed".into(), format!("standing connection {} after the crowd: {}; inputs {}", i, e, tail())));
        }
        ctx.count("canaries_answered", 1);
    }
    for i in 0..3 {
        match Conn::connect(lab.addr()) {
            Ok(mut c) => {
                if let Err(e) = canary(&mut c, "new connection") {
                    return Some(("canary-failed".into(), format!("new connection {}: {}; inputs {}", i, e, tail())));
                }
                ctx.count("canaries_answered", 1);
            }
            Err(e) => return Some(("cannot-connect".into(), format!("{}; inputs {}", e, tail()))),
        }
    }
    if !lab.server.healthy() {
        return Some(("server-ended".into(), format!("the server ended; inputs {}", tail())));
    }
    if r.chance(1, 8) {
        ctx.sample(json!({"crowd": crowd, "inputs": inputs.snapshot().into_iter().take(5).collect::<Vec<_>>()}));
    }
    None
}
/// Closed hostile connections must not stay open inside the server: it would run out of them.
fn leak_round(ctx: &Ctx, seed: u64, crowd: usize) -> Option<(String, String)> {
    let mut r = Rng::new(seed);
    let lab = Lab::start(2, &[0, 1, 2, 3, 4, 5]);
    if let Ok(mut c) = Conn::connect(lab.addr()) {
        let _ = canary(&mut c, "warm-up");
    }
    std::thread::sleep(Duration::from_millis(50));
    let before = fd_count();
    for _ in 0..crowd {
        if let Ok(mut c) = Conn::connect(lab.addr()) {
            let (_, b) = hostile_bytes(&mut r);
            c.send(&b);
            if r.chance(1, 2) {
                c.reset();
            } else {
                c.fin();
            }
        }
    }
    let t0 = Instant::now();
    let mut after = fd_count();
    while t0.elapsed() < Duration::from_secs(10) && after > before + crowd / 10 + 8 {
        std::thread::sleep(Duration::from_millis(20));
        after = fd_count();
    }
    ctx.count("leak_rounds", 1);
    ctx.eval_trivial();
    if after > before + crowd / 2 {
        return Some(("connections-leaked".into(), format!("{} of {} connections that their clients closed are still held open by the server", after - before, crowd)));
    }
    None
}
/// A server in a process of its own that may open only a few descriptors (`htmon child-server N`).
pub fn child_server(limit: u64) -> ! {
    use std::io::{Read, Write};
    hostile_slots();
    let lab = Lab::start(if limit % 2 == 0 { 1 } else { 2 }, &[0, 1, 2, 3, 4, 5]);
    unsafe {
        let l = libc::rlimit { rlim_cur: fd_count() as u64 + limit, rlim_max: 4096 };
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    println!("READY {}", lab.addr());
    let _ = std::io::stdout().flush();
    std::thread::spawn(|| {
        // ends with its parent
        let mut b = [0; 16];
        while matches!(std::io::stdin().read(&mut b), Ok(n) if n > 0) {}
        std::process::exit(0);
    });
    loop {
        if !lab.server.healthy() || !library_panics().is_empty() {
            println!("ENDED");
            let _ = std::io::stdout().flush();
            std::thread::sleep(Duration::from_secs(600));
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}
struct Child {
    p: std::process::Child,
    addr: SocketAddr,
    ended: Arc<std::sync::atomic::AtomicBool>,
}
impl Drop for Child {
    fn drop(&mut self) {
        let _ = self.p.kill();
        let _ = self.p.wait();
    }
}
impl Child {
    fn start(limit: u64) -> Option<Child> {
        use std::io::BufRead;
        use std::process::{Command, Stdio};
        let mut p = Command::new(std::env::current_exe().ok()?)
            .args(["child-server", &limit.to_string()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let mut out = std::io::BufReader::new(p.stdout.take()?);
        let mut line = String::new();
        let _ = out.read_line(&mut line);
        let addr = line.trim().strip_prefix("READY ").and_then(|a| a.parse().ok());
        let ended = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let e = ended.clone();
        let child = Child { p, addr: addr.unwrap_or(([127, 0, 0, 1], 1).into()), ended };
        addr?;
        std::thread::spawn(move || {
            // a line or the end of the output: the server is gone
            let mut line = String::new();
            let _ = out.read_line(&mut line);
            e.store(true, Ordering::SeqCst);
        });
        Some(child)
    }
    fn gone(&self) -> bool {
        self.ended.load(Ordering::SeqCst)
    }
}
/// More connections than the server process can open: it has to survive and to serve again as soon
/// as there are descriptors; connections it already has are served all the time.
fn flood_round(ctx: &Ctx, seed: u64) -> Option<(String, String)> {
    let mut r = Rng::new(seed);
    let limit = r.range(8, 80) as u64;
    let child = match Child::start(limit) {
        Some(c) => c,
        None => {
            ctx.count("flood_rounds_impossible", 1);
            return None;
        }
    };
    let mut standing = match Conn::connect(child.addr) {
        Ok(c) => c,
        Err(e) => return Some(("cannot-connect".into(), e.to_string())),
    };
    if let Err(e) = canary(&mut standing, "first request") {
        return Some(("canary-failed".into(), e));
    }
    for cycle in 0..r.range(1, 3) {
        let n = limit as usize + r.range(1, 40);
        let mut crowd = Vec::new();
        for _ in 0..n {
            match Conn::connect(child.addr) {
                Ok(mut c) => {
                    if r.chance(1, 3) {
                        c.send(b"GET /t1/");
                    }
                    crowd.push(c);
                }
                Err(_) => break,
            }
        }
        std::thread::sleep(Duration::from_millis(r.below(250) as u64));
        for _ in 0..2 {
            if let Err(e) = canary(&mut standing, "standing connection while there are too many") {
                let sig = if child.gone() { "server-ended" } else { "canary-failed" };
                return Some((sig.into(), format!("{} connections to a server that can hold about {}: {}", n, limit, e)));
            }
        }
        ctx.eval(&format!("flood {} {} {}", limit, n, cycle));
        ctx.count("flood_connections", n as u64);
        drop(crowd);
        let t0 = Instant::now();
        let mut last = String::new();
        loop {
            if child.gone() {
                return Some(("server-ended".into(), format!("the server ended after {} connections were opened at once (it can hold about {})", n, limit)));
            }
            match Conn::connect(child.addr) {
                Ok(mut c) => match canary(&mut c, "new connection after the crowd left") {
                    Ok(()) => break,
                    Err(e) => last = e,
                },
                Err(e) => last = e.to_string(),
            }
            if t0.elapsed() > WATCHDOG {
                return Some(("canary-failed".into(), format!("{} connections were opened at once and closed again: {}", n, last)));
            }
            std::thread::sleep(Duration::from_millis(50));
        }
    }
    ctx.count("flood_rounds", 1);
    None
}
fn twice<F: Fn(u64) -> Option<(String, String)>>(ctx: &Ctx, seed: u64, f: F) {
    if let Some((sig, d)) = f(seed) {
        if sig == "panic" {
            ctx.violate(&sig, d);
            return;
        }
        // Reproduce before believing it.
        for _ in 0..2 {
            if let Some((s2, d2)) = f(seed) {
                ctx.violate(&s2, d2);
                return;
            }
        }
        eprintln!("[{}] unreproduced: {} {}", ctx.id, sig, d);
        ctx.count("unreproduced_failures", 1);
        if ctx.counter("unreproduced_failures") >= 4 {
            ctx.violate(&sig, format!("repeatedly, though not reproducibly: {}", d));
        }
    }
}
pub fn c08(ctx: &Ctx) -> &'static str {
    hostile_slots();
    // Every strange target with every method, one connection each, on one server.
    let lab = Lab::start(1, &[0, 1, 2, 3, 4, 5]);
    let mut standing = Conn::connect(lab.addr()).expect("connect");
    for t in TARGETS {
        for m in &["GET", "PUT", "POST", "HEAD", "CONNECT", "OPTIONS"] {
            if !ctx.within(0.6) {
                break;
            }
            let mut c = match Conn::connect(lab.addr()) {
                Ok(c) => c,
                Err(_) => break,
            };
            c.send(format!("{} {} HTTP/1.1\r\nContent-Length: 2\r\n\r\nab", m, t).as_bytes());
            c.fin();
            let (_, ended) = c.drain(Duration::from_secs(10));
            ctx.eval(&format!("target {} {}", m, t));
            ctx.count("targets", 1);
            if !ended {
                ctx.count("target_no_end", 1);
            }
            let ps = library_panics();
            if !ps.is_empty() {
                ctx.violate("panic", format!("{} {:?}: {:?}", m, t, ps));
                return C08_RULE;
            }
        }
        if let Err(e) = canary(&mut standing, "standing connection") {
            let tt = t.to_string();
            twice(ctx, 0, |_| {
                let lab = Lab::start(1, &[0, 1, 2, 3, 4, 5]);
                let mut st = Conn::connect(lab.addr()).ok()?;
                for m in &["GET", "PUT", "POST", "HEAD", "CONNECT", "OPTIONS"] {
                    let mut c = Conn::connect(lab.addr()).ok()?;
                    c.send(format!("{} {} HTTP/1.1\r\nContent-Length: 2\r\n\r\nab", m, tt).as_bytes());
                    c.fin();
                    let _ = c.drain(Duration::from_secs(2));
                }
                canary(&mut st, "standing connection").err().map(|e| ("canary-failed".to_string(), format!("after target {:?}: {}", tt, e)))
            });
            eprintln!("[C08] {}", e);
            standing = match Conn::connect(lab.addr()) {
                Ok(c) => c,
                Err(_) => break,
            };
        }
    }
    watch(ctx, &lab, "strange targets");
    drop(standing);
    drop(lab);
    let mut round = 0;
    while ctx.go_on() {
        round += 1;
        let seed = ctx.rng("round", round).next();
        if round % 8 == 4 {
            twice(ctx, seed, |s| leak_round(ctx, s, 120));
        } else if round % 4 == 2 {
            twice(ctx, seed, |s| flood_round(ctx, s));
        } else {
            twice(ctx, seed, |s| hostile_round(ctx, s, 64));
        }
    }
    C08_RULE
}
const C08_RULE: &str = "a case is one hostile byte sequence sent to a live server (distinct by content; random bytes, mutated, truncated or oversized requests, strange targets, bad framing, abrupt FIN/RST), or a crowd of more connections than the server process can open; panics, the end of the server future, and wrong or missing answers to well-formed requests on standing and new connections are violations";

// ---------------------------------------------------------------------------------------- C16

#[derive(Clone, Debug)]
enum End {
    Fin,
    Rst,
    Keep,
}
#[derive(Clone, Debug)]
struct Bad {
    kind: &'static str,
    slot: usize,
    /// Bytes sent after the request has been read (or before, see `early`).
    bytes: Vec<u8>,
    end: End,
    /// Expected outcome: Some(resp) success with exactly that, None error.
    want: Option<RespVal>,
    /// Neither is required, only an end.
    free: bool,
    chunked: bool,
    /// The server does not read the request at all.
    unread: bool,
    frags: usize,
    seed: u64,
    body: usize,
}
fn resp_val(status: u16, body: &[u8]) -> RespVal {
    RespVal { status, header: Vals::Absent, body: body.to_vec() }
}
fn bad_slots() {
    // 0: numeric response; 1: named alternatives; 2: HEAD; 3: required typed header; 4: map headers
    for n in 0..5 {
        let mut sc = id_schema(n);
        match n {
            1 => sc.resp = RespShape::Named(vec![(200, Sect::Absent), (404, Sect::Absent)]),
            2 => sc.method = HttpMethod::Head,
            3 => sc.resp = RespShape::Num(Sect::Struct(vec![Field { name: "x-n", ty: Ty::U32, opt: false }])),
            4 => sc.resp = RespShape::Num(Sect::Map),
            _ => {}
        }
        set_slot(n, sc);
    }
}
/// Plays one misbehaviour; returns the result and the time it took after the peer's last action.
fn play(cli: &Exec, ph: &htrpc::pool::RpcClientPoolHandle, b: &Bad, pooled: bool) -> (Out<RespVal, htrpc::Error>, Duration, bool) {
    let acted: Arc<Mutex<Option<Instant>>> = Arc::new(Mutex::new(None));
    let a2 = acted.clone();
    let b2 = b.clone();
    let hold: Arc<Mutex<Vec<Conn>>> = Arc::new(Mutex::new(Vec::new()));
    let h2 = hold.clone();
    let fake = Fake::start(move |_, mut c| {
        let mut r = Rng::new(b2.seed);
        if !b2.unread {
            if let Recv::Msg(_) = c.request() {
            } else {
                return;
            }
        }
        if b2.frags == 0 {
            c.send(&b2.bytes);
        } else if b2.frags >= b2.bytes.len() {
            for x in &b2.bytes {
                c.send(&[*x]);
                std::thread::sleep(Duration::from_micros(100));
            }
        } else {
            c.send_fragmented(&b2.bytes, &mut r, b2.frags);
        }
        *a2.lock().unwrap() = Some(Instant::now());
        match b2.end {
            End::Fin => drop(c),
            End::Rst => {
                // let the data arrive first
                std::thread::sleep(Duration::from_millis(1));
                c.reset();
            }
            End::Keep => h2.lock().unwrap().push(c),
        }
    });
    let id = next_id();
    let req = id_req(id, vec![b'q'; b.body]);
    let f = if pooled { pool_call(ph, fake.addr, b.slot, req) } else { call(fake.addr, b.slot, req) };
    let o = cli.run(f, WATCHDOG);
    let t = acted.lock().unwrap().map(|t| t.elapsed()).unwrap_or_default();
    let acted = acted.lock().unwrap().is_some();
    (o, t, acted)
}
fn verdict(b: &Bad, o: &Out<RespVal, htrpc::Error>) -> Option<(String, String)> {
    let desc = format!("{}: {:?} ... end {:?}", b.kind, String::from_utf8_lossy(&b.bytes[..b.bytes.len().min(120)]), b.end);
    match (o, &b.want) {
        (Out::Stalled, _) => Some(("stalled".into(), format!("{}: the call does not end", desc))),
        (Out::Vanished, _) => Some(("vanished".into(), format!("{}: the call vanished", desc))),
        (_, _) if b.free => None,
        (Out::Ok(r), Some(w)) => {
            let same = r.status == w.status && r.body == w.body && (matches!(w.header, Vals::Absent) || r.header == w.header);
            if same {
                None
            } else {
                Some(("wrong-success".into(), format!("{}: got {} with {} body bytes instead of {} with {}", desc, r.status, r.body.len(), w.status, w.body.len())))
            }
        }
        (Out::Ok(r), None) => Some(("success-from-nothing".into(), format!("{}: reported success {} with {} body bytes", desc, r.status, r.body.len()))),
        (Out::Err(_), None) => None,
        (Out::Err(e), Some(_)) => Some(("valid-refused".into(), format!("{}: {}", desc, e.to_string().lines().next().unwrap_or("")))),
    }
}
fn bad_case(r: &mut Rng) -> Bad {
    let blen = *r.pick(&[0usize, 1, 5, 100, 1023, 1024, 1025, 5000, 40_000]);
    let body: Vec<u8> = r.bytes(blen);
    let n = *r.pick(&[0usize, 0, 1, 2, 3, 4]);
    let status = if n == 1 { *r.pick(&[200u16, 404]) } else { crate::status::any_final(r) };
    let hs: Vec<(&str, &str)> = if n == 3 { vec![("X-N", "42"), ("Server", "z")] } else if r.chance(1, 2) { vec![("Server", "fake"), ("X-Y", "")] } else { vec![] };
    let in_chunks = n != 2 && r.chance(1, 4);
    let status = if in_chunks && n != 1 && (status == 204 || status == 205 || status == 304) { 200 } else { status };
    let (valid, head_len) = if in_chunks {
        chunked_message(&format!("HTTP/1.1 {} X", status), &hs, &body, r)
    } else {
        let v = http_response(status, &hs, &body);
        let h = v.len() - body.len();
        (v, h)
    };
    let full = if n == 2 { valid[..head_len].to_vec() } else { valid.clone() };
    let mut b = Bad {
        kind: if in_chunks { "valid, chunked, fragmented" } else { "valid, fragmented" },
        slot: n,
        bytes: full.clone(),
        end: match r.below(3) {
            0 => End::Fin,
            _ => End::Keep,
        },
        want: Some(resp_val(status, if n == 2 { b"" } else { &body })),
        free: false,
        chunked: in_chunks,
        unread: false,
        frags: *r.pick(&[0usize, 1, 3, 10, 40]),
        seed: r.next(),
        body: *r.pick(&[0usize, 10, 3000]),
    };
    if n == 3 {
        b.want.as_mut().unwrap().header = Vals::Struct(vec![Some(Val::U32(42))]);
    }
    match r.below(13) {
        12 => {
            b.kind = "no body by its status";
            b.slot = 0;
            let status = *r.pick(&[204u16, 304]);
            b.bytes = format!("HTTP/1.1 {} X\r\nServer: z\r\n\r\n", status).into_bytes();
            b.want = Some(resp_val(status, b""));
        }
        0 | 1 => {
            if full.len() < 400 && r.chance(1, 2) {
                b.frags = full.len();
            }
        }
        2 | 3 | 4 | 5 => {
            b.kind = if in_chunks { "prefix of a chunked response then close" } else { "prefix then close" };
            let k = match r.below(4) {
                0 => 0,
                1 => full.len() - 1,
                2 => head_len.saturating_sub(r.below(6)).min(full.len() - 1),
                _ => r.below(full.len()),
            };
            b.bytes = full[..k].to_vec();
            b.want = None;
            b.end = if r.chance(1, 2) { End::Fin } else { End::Rst };
        }
        6 => {
            b.kind = "garbage then close";
            let m = r.range(1, 200);
            let mut g = r.bytes(m);
            if g[0] == b'H' || g[0] == b'\r' || g[0] == b'\n' {
                g[0] = b'x';
            }
            b.bytes = g;
            b.want = None;
            b.end = if r.chance(1, 2) { End::Fin } else { End::Rst };
        }
        7 => {
            b.kind = "malformed response";
            let m = *r.pick(&[
                "HTTP/1.1 abc OK\r\nContent-Length: 0\r\n\r\n",
                "HTTP/1.1 20 OK\r\nContent-Length: 0\r\n\r\n",
                "HTTP/1.1 \r\n\r\n",
                "HTTP/x.y 200 OK\r\nContent-Length: 0\r\n\r\n",
                "HTTX/1.1 200 OK\r\nContent-Length: 0\r\n\r\n",
                "200 OK\r\nContent-Length: 0\r\n\r\n",
                "HTTP/1.1 200 OK\r\nNo colon here\r\nContent-Length: 0\r\n\r\n",
                "HTTP/1.1 200 OK\r\nBad\x01Name: x\r\nContent-Length: 0\r\n\r\n",
                "HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\n",
                "HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n",
                "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999\r\n\r\n",
                "HTTP/1.1 200 OK\r\nContent-Length: 1x\r\n\r\nab",
                "PUT /t0/1 HTTP/1.1\r\nContent-Length: 0\r\n\r\n",
                "<html></html>",
                "\0\0\0\0",
                "HTTP/1.1200OK\r\n\r\n",
                "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nxyz\r\nabc\r\n0\r\n\r\n",
                "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n\r\nabc\r\n0\r\n\r\n",
                "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-3\r\nabc\r\n0\r\n\r\n",
                "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcdef\r\n0\r\n\r\n",
                "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\nzz\r\n",
                "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffffffffffff\r\nabc\r\n0\r\n\r\n",
                "HTTP/1.1 200 OK\r\nTransfer-Encoding: gzip\r\n\r\nabc",
            ]);
            b.slot = 0;
            b.bytes = m.as_bytes().to_vec();
            b.want = None;
            b.end = if r.chance(1, 2) { End::Fin } else { End::Rst };
        }
        8 => {
            b.kind = "undecodable response";
            let (s, m) = match r.below(4) {
                0 => (1, http_response(201, &[], b"x")),
                1 => (3, http_response(200, &[("X-N", "abc")], b"x")),
                2 => (3, http_response(200, &[("X-N", "4294967296")], b"x")),
                _ => (3, http_response(200, &[("X-M", "1")], b"x")),
            };
            b.slot = s;
            b.bytes = m;
            b.want = None;
            b.end = if r.chance(1, 3) { End::Keep } else { End::Fin };
        }
        9 => {
            b.kind = "closes without reading";
            b.unread = true;
            b.bytes = vec![];
            b.want = None;
            b.body = *r.pick(&[10usize, 1000, 3_000_000]);
            b.end = if r.chance(1, 2) { End::Fin } else { End::Rst };
        }
        10 => {
            b.kind = "no length, ends with the connection";
            if n == 2 || n == 3 {
                b.slot = 0;
            }
            let status = if b.slot == 1 || status == 204 || status == 205 || status == 304 { 200 } else { status };
            let mut m = format!("HTTP/1.1 {} X\r\nServer: z\r\n\r\n", status).into_bytes();
            m.extend_from_slice(&body);
            b.bytes = m;
            b.want = Some(resp_val(status, &body));
            b.end = End::Fin;
        }
        _ => {
            b.kind = "corrupted byte";
            let mut m = full.clone();
            let k = r.below(m.len());
            m[k] = if r.chance(1, 2) { m[k] ^ (1 << r.below(8)) } else { r.next() as u8 };
            b.bytes = m;
            b.free = true;
            b.want = None;
            b.end = if r.chance(1, 2) { End::Fin } else { End::Rst };
        }
    }
    b
}
fn judge_bad(ctx: &Ctx, cli: &Exec, ph: &htrpc::pool::RpcClientPoolHandle, b: &Bad, pooled: bool) {
    let (o, t, acted) = play(cli, ph, b, pooled);
    ctx.eval(&format!("{} {} {:?} {} {} {:x}", b.kind, b.slot, b.end, pooled, b.frags, crate::rng::fnv(&b.bytes)));
    ctx.count(b.kind, 1);
    ctx.count(if o.is_ok() { "calls_ok" } else { "calls_err" }, 1);
    if t > Duration::from_secs(3) && acted {
        ctx.count("slow_ends", 1);
    }
    let mut bad = verdict(b, &o);
    // a success must reflect what was on the wire
    if let (Out::Ok(r), true) = (&o, b.free) {
        let digits: String = String::from_utf8_lossy(&b.bytes).chars().skip(9).take(3).collect();
        if digits.parse::<u16>().ok() != Some(r.status) {
            ctx.violate("invented-status", format!("wire {:?}, caller got status {}", String::from_utf8_lossy(&b.bytes[..b.bytes.len().min(60)]), r.status));
        }
        if !b.bytes.ends_with(&r.body) {
            // more bytes than the (corrupted) length may follow
            let mut wire = b.bytes.iter();
            let found = if b.chunked {
                // the framing lies between the parts of the body
                r.body.iter().all(|x| wire.any(|y| x == y))
            } else {
                b.bytes.windows(r.body.len().max(1)).any(|w| w == &r.body[..])
            };
            if !found && !r.body.is_empty() {
                ctx.violate("invented-body", format!("wire {:?}", String::from_utf8_lossy(&b.bytes[..b.bytes.len().min(60)])));
            }
        }
    }
    if let Some((sig, d)) = bad.take() {
        if sig == "wrong-success" || sig == "success-from-nothing" {
            ctx.violate(&sig, d);
            return;
        }
        let mut again = 0;
        for _ in 0..2 {
            let cli = Exec::new(1);
            let pool = htrpc::pool::RpcClientPool::new();
            let ph = pool.handle();
            cli.spawn_pool(pool);
            let (o, _, _) = play(&cli, &ph, b, pooled);
            if verdict(b, &o).is_some() {
                again += 1;
            }
        }
        if again == 2 {
            ctx.violate(&sig, d);
        } else {
            eprintln!("[C16] unreproduced {}: {}", sig, d);
            ctx.count("unreproduced_failures", 1);
            if ctx.counter("unreproduced_failures") >= 5 {
                ctx.violate(&sig, format!("repeatedly, not in isolation: {}", d));
            }
        }
    }
    report_panics(ctx, "a misbehaving server");
}
pub fn c16(ctx: &Ctx) -> &'static str {
    bad_slots();
    // 1. every prefix of two small responses, closed with FIN and RST
    let msgs: Vec<(usize, Vec<u8>)> = vec![
        (0, http_response(200, &[("Server", "x")], b"hello")),
        (2, http_response(200, &[("X-Y", "x")], b"")),
        (1, http_response(404, &[], b"")),
        (0, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0A;x=y\r\n0123456789\r\n0\r\nX-T: 1\r\n\r\n".to_vec()),
    ];
    let jobs: Mutex<Vec<(Bad, bool)>> = Mutex::new(Vec::new());
    for (n, m) in &msgs {
        for k in 0..m.len() {
            for end in &[End::Fin, End::Rst] {
                jobs.lock().unwrap().push((
                    Bad { kind: "every prefix", slot: *n, bytes: m[..k].to_vec(), end: end.clone(), want: None, free: false, chunked: false, unread: false, frags: 0, seed: 1, body: 4 },
                    k % 2 == 0,
                ));
            }
        }
    }
    let total = jobs.lock().unwrap().len();
    let done = AtomicUsize::new(0);
    par(6, |t| {
        let cli = Exec::new(1 + t % 2);
        let mut pool = htrpc::pool::RpcClientPool::new();
        pool.set_suspended_duration(Duration::from_millis(0));
        let ph = pool.handle();
        cli.spawn_pool(pool);
        loop {
            let j = jobs.lock().unwrap().pop();
            match j {
                Some((b, pooled)) if ctx.within(0.8) => {
                    judge_bad(ctx, &cli, &ph, &b, pooled);
                    done.fetch_add(1, Ordering::SeqCst);
                }
                _ => break,
            }
        }
        let mut i = 0;
        while ctx.go_on() {
            i += 1;
            let mut r = ctx.rng("case", (t as u64) << 32 | i);
            let b = bad_case(&mut r);
            if i == 1 {
                ctx.sample(json!({"kind": b.kind, "bytes": String::from_utf8_lossy(&b.bytes[..b.bytes.len().min(200)]), "end": format!("{:?}", b.end), "expects_success": b.want.is_some()}));
            }
            let pooled = r.chance(1, 2);
            judge_bad(ctx, &cli, &ph, &b, pooled);
            if i % 40 == 1 {
                refused(ctx, &cli, &ph, pooled);
            }
        }
    });
    ctx.count("prefixes_total", total as u64);
    ctx.count("prefixes_done", done.load(Ordering::SeqCst) as u64);
    "a case is one call against a scripted peer (distinct by behaviour, bytes sent, way of closing and client kind); every call has to end by itself, with an error unless the complete, valid response was sent, and with exactly that response otherwise"
}
fn refused(ctx: &Ctx, cli: &Exec, ph: &htrpc::pool::RpcClientPoolHandle, pooled: bool) {
    let addr = free_addr();
    let req = id_req(next_id(), vec![]);
    let f = |req: ReqVal| if pooled { pool_call(ph, addr, 0, req) } else { call(addr, 0, req) };
    let o = cli.run(f(req.clone()), WATCHDOG);
    ctx.count("refused", 1);
    ctx.eval_trivial();
    match o {
        Out::Err(_) => {}
        Out::Ok(_) => ctx.violate("success-from-nothing", "a call to a port nobody listens on succeeded".into()),
        o => {
            let again = cli.run(f(req), WATCHDOG);
            if !matches!(again, Out::Err(_)) {
                ctx.violate("stalled", format!("a call to a port nobody listens on does not end: {}", o.describe()));
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- C20

fn stall_slots() {
    for n in 0..4 {
        let mut sc = id_schema(n);
        sc.method = [HttpMethod::Put, HttpMethod::Get, HttpMethod::Post, HttpMethod::Put][n];
        if n == 2 {
            sc.read = ReadMode::Part(4);
        }
        set_slot(n, sc);
    }
}
struct Stalled {
    kind: &'static str,
    conn: Conn,
    /// Bytes that complete the request.
    rest: Vec<u8>,
    id: u64,
    gate: Option<fibers::sync::oneshot::Sender<()>>,
    expect: usize,
}
fn server_stall_round(ctx: &Ctx, seed: u64) -> Option<(String, String)> {
    let mut r = Rng::new(seed);
    let threads = *r.pick(&[1usize, 1, 2, 4]);
    let lab = Lab::start(threads, &[0, 1, 2, 3]);
    let n = if r.chance(1, 12) { *r.pick(&[150usize, 300, 700, 1300]) } else { *r.pick(&[1usize, 3, 8, 20, 60]) };
    ctx.max("most_stalled_at_once", n as u64);
    let big = *r.pick(&[1_000_000usize, 4_000_000]);
    let mut stalled: Vec<Stalled> = Vec::new();
    let mut key = String::new();
    let mut standing = Conn::connect(lab.addr()).ok()?;
    if let Err(e) = canary(&mut standing, "before the stalls") {
        return Some(("call-failed".into(), e));
    }
    let mut bigs = 0;
    for _ in 0..n {
        let id = next_id();
        let mut conn = match Conn::connect(lab.addr()) {
            Ok(c) => c,
            Err(e) => return Some(("not-accepted".into(), format!("connection refused while {} others are stalled: {}", stalled.len(), e))),
        };
        let blen = r.range(1, 5000);
        let body = r.bytes(blen);
        let slot_n = *r.pick(&[0usize, 2]);
        let m = if slot_n == 0 { "PUT" } else { "POST" };
        let full = http_request(m, &format!("/t{}/{}", slot_n, id), &[("X", "y")], &body);
        let hl = full.len() - body.len();
        let (kind, sent, rest, gate, expect) = match r.below(6) {
            0 => ("silent", vec![], full.clone(), None, 8),
            1 => {
                let k = r.range(1, hl - 1);
                ("half a head", full[..k].to_vec(), full[k..].to_vec(), None, 8)
            }
            2 => {
                let k = hl + r.below(body.len());
                ("half a body", full[..k].to_vec(), full[k..].to_vec(), None, 8)
            }
            3 if bigs < 6 => {
                bigs += 1;
                lab.board.plan.lock().unwrap().insert(id, RespVal { status: 200, header: Vals::Absent, body: vec![b'z'; big] });
                ("unread response", full.clone(), vec![], None, big)
            }
            _ => {
                let g = lab.board.gate(id);
                ("unfinished handler", full.clone(), vec![], Some(g), 8)
            }
        };
        conn.send(&sent);
        if n < 100 {
            key.push_str(kind);
        }
        ctx.count(kind, 1);
        stalled.push(Stalled { kind, conn, rest, id, gate, expect });
        // interleave progress checks
        if r.chance(1, 3) && (n < 100 || r.chance(1, 10)) {
            if let Err(e) = canary(&mut standing, "standing connection") {
                return Some(("blocked".into(), format!("with {} stalled ({:?}...) on {} thread(s): {}", stalled.len(), stalled.iter().map(|s| s.kind).take(20).collect::<Vec<_>>(), threads, e)));
            }
            ctx.count("progress_checks", 1);
        }
    }
    let kinds: Vec<String> = stalled.iter().map(|s| s.kind.to_string()).take(20).chain(std::iter::once(format!("{} in all", n))).collect();
    for i in 0..4 {
        let res = match i {
            0 => canary(&mut standing, "standing connection"),
            _ => Conn::connect(lab.addr()).map_err(|e| e.to_string()).and_then(|mut c| canary(&mut c, "new connection")),
        };
        if let Err(e) = res {
            return Some(("blocked".into(), format!("with stalled {:?} on {} thread(s): {}", kinds, threads, e)));
        }
        ctx.count("progress_checks", 1);
    }
    // requests that run other handlers while theirs are unfinished, through the real client
    let cli = Exec::new(1);
    let ids: Vec<u64> = (0..5).map(|_| next_id()).collect();
    let pend: Vec<_> = ids.iter().map(|i| cli.start(call(lab.addr(), 3, id_req(*i, vec![1; 100])))).collect();
    for p in pend {
        match p.wait(WATCHDOG) {
            Out::Ok(_) => ctx.count("progress_checks", 1),
            o => return Some(("blocked".into(), format!("call with stalled {:?} on {} thread(s): {}", kinds, threads, o.describe()))),
        }
    }
    ctx.eval(&format!("server {} {} {}", threads, key, n));
    // every stalled exchange completes once its peer goes on
    r.shuffle(&mut stalled);
    for s in stalled.iter_mut() {
        if r.chance(1, 8) {
            continue; // abandoned
        }
        s.conn.send(&s.rest);
        if let Some(g) = s.gate.take() {
            let _ = g.send(());
        }
        match s.conn.response(false) {
            Recv::Msg(m) if m.status() == 200 && m.body.len() == s.expect && (s.expect != 8 || m.body == s.id.to_le_bytes()) => {
                ctx.count("stalled_completed", 1);
            }
            o => return Some(("stalled-lost".into(), format!("{}: after going on: {}", s.kind, o.describe()))),
        }
    }
    if !lab.server.healthy() {
        return Some(("server-ended".into(), "the server ended".into()));
    }
    None
}
/// A listener whose backlog is full: connects to it neither succeed nor fail.
pub struct Deaf {
    pub addr: SocketAddr,
    fd: i32,
    _fill: Vec<std::net::TcpStream>,
}
impl Deaf {
    pub fn start(ip: [u8; 4]) -> Option<Deaf> {
        for _ in 0..5 {
            let addr = free_addr_on(ip);
            unsafe {
                let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
                if fd < 0 {
                    return None;
                }
                let sa = libc::sockaddr_in {
                    sin_family: libc::AF_INET as u16,
                    sin_port: addr.port().to_be(),
                    sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(ip) },
                    sin_zero: [0; 8],
                };
                if libc::bind(fd, &sa as *const _ as *const libc::sockaddr, std::mem::size_of_val(&sa) as u32) != 0 || libc::listen(fd, 0) != 0 {
                    libc::close(fd);
                    continue;
                }
                let mut fill = Vec::new();
                for _ in 0..8 {
                    match std::net::TcpStream::connect_timeout(&addr, Duration::from_millis(150)) {
                        Ok(s) => fill.push(s),
                        Err(_) => return Some(Deaf { addr, fd, _fill: fill }),
                    }
                }
                libc::close(fd);
            }
        }
        None
    }
    /// Accepts and drops everything queued; returns how many connections were waiting.
    pub fn drain(&self) -> usize {
        unsafe {
            let fl = libc::fcntl(self.fd, libc::F_GETFL);
            libc::fcntl(self.fd, libc::F_SETFL, fl | libc::O_NONBLOCK);
            let mut n = 0;
            loop {
                let c = libc::accept(self.fd, std::ptr::null_mut(), std::ptr::null_mut());
                if c < 0 {
                    return n;
                }
                n += 1;
                libc::close(c);
            }
        }
    }
}
impl Drop for Deaf {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.fd);
        }
    }
}
/// Client side: calls that wait (for a connection, or for a response) must not hold up others.
fn client_stall_round(ctx: &Ctx, seed: u64) -> Option<(String, String)> {
    let mut r = Rng::new(seed);
    let threads = *r.pick(&[1usize, 1, 2]);
    let cli = Exec::new(threads);
    let psize = *r.pick(&[0usize, 1, 2, 100]);
    let mut pool = htrpc::pool::RpcClientPool::with_pool_size(psize);
    pool.set_connect_timeout(Duration::from_secs(60));
    let ph = pool.handle();
    cli.spawn_pool(pool);
    // answers requests with an empty body, never answers the others
    let held: Arc<Mutex<HashMap<u64, ()>>> = Arc::default();
    let h2 = held.clone();
    let fake = Fake::start(move |_, mut c| {
        c.timeout = Duration::from_secs(40);
        while let Recv::Msg(m) = c.request() {
            let id: u64 = m.start.1.rsplit('/').next().unwrap_or("").parse().unwrap_or(0);
            if m.body == b"hold" {
                h2.lock().unwrap().insert(id, ());
                // until the client goes away
                let _ = c.drain(Duration::from_secs(40));
                return;
            }
            if !c.send(&http_response(200, &[], &id.to_le_bytes())) {
                return;
            }
        }
    });
    let other = Lab::start(1, &[0, 1, 2, 3]);
    let deaf = if r.chance(1, 2) { Deaf::start(crate::rt::loopback(0, 1)) } else { None };
    let n = *r.pick(&[1usize, 2, 5, 30, 30, 200]);
    let mut waiting = Vec::new();
    let mut kinds = Vec::new();
    let mut held_ids = Vec::new();
    for _ in 0..n {
        let id = next_id();
        match (&deaf, r.below(3)) {
            (Some(d), 0) => {
                waiting.push(cli.start(pool_call(&ph, d.addr, 0, id_req(id, vec![]))));
                kinds.push("connecting");
            }
            _ => {
                held_ids.push(id);
                waiting.push(cli.start(pool_call(&ph, fake.addr, 0, id_req(id, b"hold".to_vec()))));
                kinds.push("waiting for a response");
            }
        }
    }
    let t0 = Instant::now();
    while held_ids.iter().any(|i| !held.lock().unwrap().contains_key(i)) && t0.elapsed() < Duration::from_secs(10) {
        std::thread::sleep(Duration::from_millis(1));
    }
    ctx.count("client_waiting_calls", waiting.len() as u64);
    for i in 0..6 {
        let id = next_id();
        let to_fake = i % 2 == 0;
        let addr = if to_fake { fake.addr } else { other.addr() };
        match cli.run(pool_call(&ph, addr, 0, id_req(id, vec![])), WATCHDOG) {
            Out::Ok(resp) => {
                ctx.count("client_progress_checks", 1);
                if resp.body != id.to_le_bytes() {
                    ctx.violate("wrong-response", format!("call got {:?} instead of its own response", resp.body));
                }
            }
            o => {
                return Some((
                    "client-blocked".into(),
                    format!("a call to {} does not complete while {} pooled calls wait ({:?}, pool size {}, {} thread(s)): {}", if to_fake { "the same address" } else { "another address" }, n, kinds.first(), psize, threads, o.describe()),
                ))
            }
        }
    }
    ctx.eval(&format!("client {} {} {} {:?} {}", threads, psize, n, kinds, deaf.is_some()));
    // none of the waiting calls may have "succeeded"
    for w in &waiting {
        if let Some(Out::Ok(_)) = w.try_get() {
            ctx.violate("wrong-response", "a call that was never answered succeeded".into());
        }
    }
    None
}
pub fn c20(ctx: &Ctx) -> &'static str {
    stall_slots();
    let mut i = 0u64;
    while ctx.go_on() {
        i += 1;
        let seed = ctx.rng("round", i).next();
        if i % 3 == 0 {
            twice(ctx, seed, |s| client_stall_round(ctx, s));
        } else {
            twice(ctx, seed, |s| server_stall_round(ctx, s));
        }
        if i <= 3 {
            ctx.sample(json!({"round": i, "seed": seed, "counters": "see observed"}));
        }
        report_panics(ctx, "stalled peers");
    }
    let _ = (METHODS, plain_schema as fn(usize) -> Schema);
    "a case is one set of stalled connections, unfinished handlers or waiting pooled calls (distinct by kinds, order, number, threads); requests on other connections have to be answered correctly while they last, and the stalled ones once their peers go on"
}
