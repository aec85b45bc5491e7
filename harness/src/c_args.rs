//! C01 path, C02 query, C03 headers, C07 malformed arguments.
use crate::ctx::Ctx;
use crate::dynp::*;
use crate::gen::{self, Alpha};
use crate::lab::*;
use crate::net::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::trip::{self, next_id, Case, Via};
use htrpc::types::HttpMethod;
use std::collections::HashMap;

pub const METHODS: &[HttpMethod] = &[
    HttpMethod::Get,
    HttpMethod::Put,
    HttpMethod::Post,
    HttpMethod::Delete,
    HttpMethod::Options,
    HttpMethod::Patch,
    HttpMethod::Trace,
    HttpMethod::Connect,
];
pub const LITS: &[&str] = &[
    "foo", "bar", "a b", "日本", "50%", "x?y", "#", "%41", "a+b", "v1.0", "~u", "a:b", "@", "(x)", "a/b", "é", "=", "&",
];

/// Runs f(thread index) on n harness threads at once and waits for all.
pub fn par<F: Fn(usize) + Sync>(n: usize, f: F) {
    std::thread::scope(|s| {
        for i in 0..n {
            let f = &f;
            s.spawn(move || {
                mark_harness();
                f(i)
            });
        }
    });
}

/// Random entry point with at least one literal unique to the slot.
pub fn tagged_ep(r: &mut Rng, n: usize, max: usize) -> Vec<Option<String>> {
    let len = r.range(1, max);
    let mut v: Vec<Option<String>> = (0..len)
        .map(|_| if r.chance(2, 5) { Some(r.pick(LITS).to_string()) } else { None })
        .collect();
    let at = r.below(len + 1);
    v.insert(at, Some(format!("t{}", n)));
    v
}
pub fn ep_of(v: &[Option<String>]) -> htrpc::types::EntryPoint {
    let s: Vec<Option<&str>> = v.iter().map(|x| x.as_deref()).collect();
    entry_point(&s)
}
pub fn plain_schema(n: usize) -> Schema {
    Schema {
        method: HttpMethod::Put,
        ep: entry_point(&[Some(&format!("t{}", n))]),
        path: PathSect::Absent,
        query: Sect::Absent,
        header: Sect::Absent,
        resp: RespShape::Num(Sect::Absent),
        read: ReadMode::All,
        id_in_path: false,
    }
}
/// Can the value appear as this path segment?
pub fn path_ok(v: &Val, first: bool, nsegs: usize) -> bool {
    match v {
        Val::Str(s) | Val::NewStr(s) => {
            s != "." && s != ".." && !s.contains(&['\t', '\r', '\n'][..]) && !(s.is_empty() && first && nsegs > 1)
        }
        _ => true,
    }
}
pub fn path_schema(r: &mut Rng, n: usize, ep: &[Option<String>]) -> Schema {
    let nv = ep.iter().filter(|s| s.is_none()).count();
    let tys: Vec<Ty> = (0..nv).map(|_| gen::ty(r)).collect();
    let path = if nv == 0 {
        match r.below(5) {
            0 => PathSect::Absent,
            1 => PathSect::Unit,
            2 => PathSect::UnitStruct,
            _ => PathSect::Tuple(vec![]),
        }
    } else if r.chance(1, 2) {
        PathSect::Tuple(tys)
    } else {
        PathSect::TupleStruct(tys)
    };
    Schema {
        method: *r.pick(METHODS),
        ep: ep_of(ep),
        path,
        ..plain_schema(n)
    }
}
/// Target path written by the harness' own encoder.
pub fn raw_path(r: &mut Rng, ep: &[Option<String>], vals: &[Val]) -> String {
    let mut it = vals.iter();
    let mut s = String::new();
    for seg in ep {
        s.push('/');
        let b = match seg {
            Some(l) => l.clone().into_bytes(),
            None => gen::text(it.next().unwrap()),
        };
        s.push_str(&gen::pct_random(r, &b, b"-._~!$&'()*+,;=:@"));
    }
    if ep.is_empty() {
        s.push('/');
    }
    s
}
/// Upper bound of the encoded length of a text.
fn est(b: &[u8]) -> usize {
    b.iter().map(|c| if c.is_ascii_alphanumeric() { 1 } else { 3 }).sum()
}
/// Room for the arguments in a request head that has to be accepted (the limit is 8096 bytes).
const ROOM: usize = 7400;
/// Sometimes stretches one of the texts so that the head becomes (nearly) as large as it may be.
fn stretch(r: &mut Rng, v: &mut Val, used: usize) {
    if let Val::Str(s) | Val::NewStr(s) = v {
        let left = ROOM.saturating_sub(used + 1);
        if left < 100 {
            return;
        }
        let n = if r.chance(1, 3) { left } else { r.range(left / 3, left) };
        s.clear();
        while s.len() < n {
            s.push((b'a' + r.below(26) as u8) as char);
        }
    }
}
fn is_dot(v: &Val) -> bool {
    matches!(v, Val::Str(s) | Val::NewStr(s) if s == "." || s == "..")
}

pub fn c01(ctx: &Ctx) -> &'static str {
    let cli = Exec::new(3);
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        if round % 8 == 1 {
            crate::shapes::run(ctx, &cli, crate::shapes::Part::Path, ctx.rng("shapes", round).next());
        }
        let mut r = ctx.rng("round", round);
        let nslots = r.range(4, NSLOT);
        let mut eps: Vec<Vec<Option<String>>> = Vec::new();
        for n in 0..nslots {
            let mut ep = tagged_ep(&mut r, n, 6);
            if n == nslots - 1 {
                // one entry point of variables only
                ep = vec![None; r.range(1, 4)];
            }
            let sc = path_schema(&mut r, n, &ep);
            set_slot(n, sc);
            eps.push(ep);
        }
        let slots: Vec<usize> = (0..nslots).collect();
        let lab = Lab::start(r.range(1, 3), &slots);
        for _ in 0..4 {
            let mut cases = Vec::new();
            for _ in 0..48 {
                let n = r.below(nslots);
                let sc = slot(n);
                let mut path: Vec<Val> = sc.path.tys().iter().map(|t| gen::val(&mut r, *t, Alpha::Any)).collect();
                if r.chance(1, 20) && !path.is_empty() {
                    let i = r.below(path.len());
                    let used = path.iter().enumerate().filter(|x| x.0 != i).map(|x| est(&gen::text(x.1)) + 1).sum::<usize>() + 40;
                    stretch(&mut r, &mut path[i], used);
                }
                let mut must = true;
                let mut len = 40;
                let mut it = path.iter();
                for (i, s) in eps[n].iter().enumerate() {
                    if s.is_none() {
                        let v = it.next().unwrap();
                        must &= path_ok(v, i == 0, eps[n].len());
                        len += est(&gen::text(v)) + 1;
                    }
                }
                must &= len < ROOM;
                ctx.max("longest_path", if must { len as u64 } else { 0 });
                let key = format!("{:?} {:?}", eps[n], path);
                cases.push(Case {
                    slot: n,
                    req: ReqVal {
                        path,
                        query: Vals::Absent,
                        header: Vals::Absent,
                        body: id_body(next_id(), b""),
                    },
                    resp: None,
                    must,
                    key,
                });
            }
            if round <= 4 {
                trip::sample_case(ctx, &cases[0]);
            }
            trip::run(ctx, &cli, &lab, &cases, &Via::Single, "client round trip");
        }
        // Paths written by another HTTP client.
        let base = ctx.rng("raw", round).next();
        par(6, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            let mut conn = None;
            for _ in 0..20 {
                let n = r.below(nslots);
                let sc = slot(n);
                let path: Vec<Val> = sc.path.tys().iter().map(|t| gen::val(&mut r, *t, Alpha::Any)).collect();
                if path.iter().any(is_dot) {
                    continue;
                }
                let bad = r.chance(1, 4) && !path.is_empty();
                let mut target = raw_path(&mut r, &eps[n], &path);
                if bad {
                    // a malformed escape inside one of the variable segments
                    let vi: Vec<usize> = eps[n].iter().enumerate().filter(|s| s.1.is_none()).map(|s| s.0).collect();
                    let at = *r.pick(&vi);
                    let mut segs: Vec<String> = target[1..].split('/').map(|s| s.to_owned()).collect();
                    let m = *r.pick(&["%", "%4", "%zz", "%ff", "%c3%28", "%ed%a0%80", "%C3", "x%", "%g1", "%1g", "%-1", "% 1"]);
                    let m = m.replace(' ', "");
                    segs[at] = if r.chance(1, 2) { format!("{}{}", segs[at], m) } else { m };
                    target = format!("/{}", segs.join("/"));
                    if at == 0 && segs.len() > 1 && segs[0].is_empty() {
                        continue;
                    }
                }
                let req = ReqVal {
                    path: if bad { vec![] } else { path.clone() },
                    query: Vals::Absent,
                    header: Vals::Absent,
                    body: id_body(next_id(), b""),
                };
                raw_expect(ctx, &lab, &mut conn, n, &target, &[], &req, !bad, "percent-encoded path", &mut r);
            }
        });
        watch(ctx, &lab, "raw paths");
        let ev = lab.board.take();
        if let Some(e) = ev.first() {
            ctx.violate("stray-handler-run", format!("a handler ran without being called: {:?}", e.req));
        }
    }
    "one case = one call or raw request with a distinct (entry point, argument tuple); values mix reserved, escaped, non-ASCII, control and boundary numeric values; equality judged on the values the handler logged"
}

/// Sends one raw request on `conn` (opened on demand) and judges the outcome.
/// `good`: the handler of slot n must run exactly once with `req`, answer 200 with the id as body.
/// Otherwise: 400 problem, no handler run.
pub fn raw_expect(
    ctx: &Ctx,
    lab: &Lab,
    conn: &mut Option<Conn>,
    n: usize,
    target: &str,
    headers: &[(String, Vec<u8>)],
    req: &ReqVal,
    good: bool,
    what: &str,
    r: &mut Rng,
) {
    let id = event_id(&slot(n), req).unwrap();
    let msg = raw_request(slot(n).method, target, headers, &req.body);
    let mut got = None;
    for attempt in 0..3 {
        if conn.is_none() || attempt > 0 {
            *conn = Conn::connect(lab.addr()).ok();
        }
        let c = match conn.as_mut() {
            Some(c) => c,
            None => continue,
        };
        let sent = if r.chance(1, 3) { c.send_fragmented(&msg, r, 3) } else { c.send(&msg) };
        let rc = c.response(false);
        let events = lab.take_events(id);
        match rc {
            Recv::Msg(m) => {
                got = Some((m, events));
                break;
            }
            other => {
                *conn = None;
                ctx.count("raw_retries", 1);
                if attempt == 2 {
                    ctx.violate(
                        "no-answer",
                        format!("{}: {} -> {} (sent completely: {}) for {:?}", what, target, other.describe(), sent, String::from_utf8_lossy(&msg[..msg.len().min(400)])),
                    );
                    return;
                }
            }
        }
    }
    let (m, events) = match got {
        Some(x) => x,
        None => {
            ctx.count("raw_connect_failures", 1);
            return;
        }
    };
    ctx.eval(&format!("raw {} {} {:?}", slot(n).method, target, headers));
    let desc = || format!("{}: {} {} headers {:?} (entry point {:?})", what, slot(n).method, target, headers.iter().map(|h| (h.0.clone(), String::from_utf8_lossy(&h.1).into_owned())).collect::<Vec<_>>(), slot(n).ep);
    if good {
        ctx.count("raw_ok", 1);
        if m.status() != 200 {
            ctx.violate("raw-refused", format!("{} answered {} instead of 200: {}", desc(), m.status(), String::from_utf8_lossy(&m.body)));
            return;
        }
        if m.body != id.to_le_bytes() {
            ctx.violate("raw-wrong-response", format!("{}: response of another request", desc()));
        }
        if events.len() != 1 {
            ctx.violate("raw-run-count", format!("{}: handler ran {} times", desc(), events.len()));
            return;
        }
        if events[0].slot != n {
            ctx.violate("wrong-handler", format!("{}: ran handler of {:?}", desc(), slot(events[0].slot).ep));
        } else if let Err((sig, d)) = trip::req_eq(req, &events[0].req, slot(n).read == ReadMode::All) {
            ctx.violate(&format!("raw-{}", sig), format!("{}: {}", desc(), d));
        }
    } else {
        ctx.count("raw_malformed", 1);
        if !events.is_empty() {
            ctx.violate("malformed-ran", format!("{}: handler ran with {:?}", desc(), events[0].req));
        }
        if m.status() != 400 {
            ctx.violate("malformed-not-400", format!("{} answered {} instead of 400", desc(), m.status()));
        } else if let Err(e) = problem_ok(&m, 400) {
            ctx.violate("malformed-no-problem", format!("{}: {}", desc(), e));
        }
    }
}
pub fn raw_request(method: HttpMethod, target: &str, headers: &[(String, Vec<u8>)], body: &[u8]) -> Vec<u8> {
    let mut v = format!("{} {} HTTP/1.1\r\n", method, target).into_bytes();
    let mut cl = false;
    for (k, val) in headers {
        if k.eq_ignore_ascii_case("content-length") {
            cl = true;
        }
        v.extend_from_slice(k.as_bytes());
        v.extend_from_slice(b":");
        v.extend_from_slice(val);
        v.extend_from_slice(b"\r\n");
    }
    if !cl {
        v.extend_from_slice(format!("Content-Length: {}\r\n", body.len()).as_bytes());
    }
    v.extend_from_slice(b"\r\n");
    v.extend_from_slice(body);
    v
}
/// Is the response a well-formed RFC 7807 problem with this status?
pub fn problem_ok(m: &Msg, status: u16) -> Result<(), String> {
    if m.header("content-type") != Some(b"application/problem+json") {
        return Err(format!("content-type {:?}", m.header_str("content-type")));
    }
    let v: serde_json::Value =
        serde_json::from_slice(&m.body).map_err(|e| format!("problem body is not JSON ({}): {:?}", e, String::from_utf8_lossy(&m.body)))?;
    if v["status"].as_u64() != Some(status as u64) {
        return Err(format!("problem status member {} but expected {}", v["status"], status));
    }
    if !v["type"].is_string() || !v["title"].is_string() {
        return Err(format!("problem without type or title: {}", v));
    }
    Ok(())
}

fn fields(r: &mut Rng, names: &[&'static str], max: usize, tyf: fn(&mut Rng) -> Ty) -> Vec<Field> {
    let mut ns: Vec<&'static str> = names.to_vec();
    r.shuffle(&mut ns);
    let n = r.below(max + 1);
    ns.truncate(n);
    ns.into_iter()
        .map(|name| Field {
            name,
            ty: tyf(r),
            opt: r.chance(2, 5),
        })
        .collect()
}
fn hty(r: &mut Rng) -> Ty {
    if r.chance(1, 8) {
        Ty::Bytes
    } else {
        gen::ty(r)
    }
}
fn sect_vals(r: &mut Rng, s: &Sect, a: Alpha, header: bool) -> Vals {
    match s {
        Sect::Absent => Vals::Absent,
        Sect::Struct(fs) => Vals::Struct(
            fs.iter()
                .map(|f| if f.opt && r.chance(2, 5) { None } else { Some(gen::val(r, f.ty, a)) })
                .collect(),
        ),
        Sect::Map => {
            let n = if r.chance(1, 8) { r.below(28) } else { r.below(8) };
            let mut v: Vec<(String, String)> = Vec::new();
            for _ in 0..n {
                let k = if header {
                    let k = if r.chance(1, 10) { format!("x-{}", r.below(1000)) } else { r.pick(gen::HEADER_NAMES).to_string() };
                    if r.chance(1, 3) {
                        k.to_uppercase()
                    } else {
                        k
                    }
                } else if r.chance(1, 6) {
                    (r.next() as i64 >> r.below(64)).to_string()
                } else if r.chance(1, 2) {
                    r.pick(gen::QUERY_NAMES).to_string()
                } else {
                    gen::string(r, a)
                };
                if v.iter().any(|x| x.0.eq_ignore_ascii_case(&k)) {
                    continue;
                }
                let val = gen::string(r, a);
                v.push((k, val));
            }
            Vals::Map(v)
        }
    }
}
fn pairs(s: &Sect, v: &Vals) -> Vec<(String, Vec<u8>)> {
    match (s, v) {
        (Sect::Struct(fs), Vals::Struct(vs)) => fs
            .iter()
            .zip(vs)
            .filter_map(|(f, v)| v.as_ref().map(|v| (f.name.to_owned(), gen::text(v))))
            .collect(),
        (_, Vals::Map(m)) => m.iter().map(|(k, v)| (k.clone(), v.clone().into_bytes())).collect(),
        _ => vec![],
    }
}
/// Query string in the harness' own encoding.
fn raw_query(r: &mut Rng, pairs: &[(String, Vec<u8>)]) -> String {
    let mut o = String::new();
    for (i, (k, v)) in pairs.iter().enumerate() {
        if i > 0 {
            o.push('&');
        }
        if r.chance(1, 10) {
            o.push('&');
        }
        let enc = |r: &mut Rng, b: &[u8]| {
            let mut s = gen::pct_random(r, b, b"-._~!$'()*,;:@/?");
            if r.chance(1, 2) {
                s = s.replace("%20", "+");
            }
            s
        };
        o.push_str(&enc(r, k.as_bytes()));
        if !(v.is_empty() && r.chance(1, 3)) {
            o.push('=');
        }
        o.push_str(&enc(r, v));
    }
    o
}

pub fn c02(ctx: &Ctx) -> &'static str {
    let cli = Exec::new(3);
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        if round % 8 == 1 {
            crate::shapes::run(ctx, &cli, crate::shapes::Part::Query, ctx.rng("shapes", round).next());
        }
        let mut r = ctx.rng("round", round);
        let nslots = r.range(4, NSLOT);
        for n in 0..nslots {
            let mut sc = plain_schema(n);
            sc.method = *r.pick(METHODS);
            sc.path = match r.below(3) {
                0 => PathSect::Absent,
                1 => PathSect::Tuple(vec![]),
                _ => PathSect::Unit,
            };
            sc.query = if r.chance(1, 5) {
                Sect::Map
            } else {
                Sect::Struct(fields(&mut r, gen::QUERY_NAMES, 6, gen::ty))
            };
            if r.chance(1, 4) {
                sc.header = Sect::Struct(vec![Field { name: "x-a", ty: Ty::Str, opt: true }]);
            }
            if r.chance(1, 3) {
                sc.ep = entry_point(&[Some(&format!("t{}", n)), None]);
                sc.path = PathSect::Tuple(vec![Ty::Str]);
            }
            set_slot(n, sc);
        }
        let slots: Vec<usize> = (0..nslots).collect();
        let lab = Lab::start(r.range(1, 3), &slots);
        for _ in 0..4 {
            let mut cases = Vec::new();
            for _ in 0..48 {
                let n = r.below(nslots);
                let sc = slot(n);
                let mut query = sect_vals(&mut r, &sc.query, Alpha::Any, false);
                let header = sect_vals(&mut r, &sc.header, Alpha::HeaderOk, true);
                let hlen = header_size(&sc.header, &header).0 + 40;
                let qlen = |q: &Vals| pairs(&sc.query, q).iter().map(|p| est(p.0.as_bytes()) + est(&p.1) + 2).sum::<usize>();
                if r.chance(1, 20) {
                    let used = hlen + qlen(&query);
                    match &mut query {
                        Vals::Struct(fs) => {
                            if let Some(Some(v)) = fs.first_mut() {
                                stretch(&mut r, v, used);
                            }
                        }
                        Vals::Map(m) if r.chance(1, 2) => {
                            // very many parameters
                            let mut left = ROOM.saturating_sub(used + 1) / 30;
                            left = if left > 0 { r.range(1, left) } else { 0 };
                            for i in 0..left {
                                m.push((format!("many {}", i), r.below(100000).to_string()));
                            }
                        }
                        Vals::Map(m) => {
                            if let Some(x) = m.first_mut() {
                                let mut v = Val::Str(String::new());
                                stretch(&mut r, &mut v, used);
                                if let Val::Str(s) = v {
                                    x.1 = s;
                                }
                            }
                        }
                        _ => {}
                    }
                }
                let path: Vec<Val> = sc.path.tys().iter().map(|_| Val::Str("p".into())).collect();
                let len = hlen + qlen(&query);
                ctx.max("longest_query", if len < ROOM { len as u64 } else { 0 });
                let key = format!("{:?} {:?}", sc.query, query);
                cases.push(Case {
                    slot: n,
                    req: ReqVal { path, query, header, body: id_body(next_id(), b"") },
                    resp: None,
                    must: len < ROOM,
                    key,
                });
            }
            if round <= 4 {
                trip::sample_case(ctx, &cases[0]);
            }
            trip::run(ctx, &cli, &lab, &cases, &Via::Single, "client round trip");
        }
        let base = ctx.rng("raw", round).next();
        par(6, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            let mut conn = None;
            for _ in 0..20 {
                let n = r.below(nslots);
                let sc = slot(n);
                let query = sect_vals(&mut r, &sc.query, Alpha::Any, false);
                let mut ps = pairs(&sc.query, &query);
                if let Sect::Struct(fs) = &sc.query {
                    // unknown parameters
                    for _ in 0..r.below(3) {
                        let k = if r.chance(1, 2) { gen::string(&mut r, Alpha::Any) } else { r.pick(gen::QUERY_NAMES).to_string() };
                        if fs.iter().all(|f| f.name != k) {
                            let v = if r.chance(1, 2) && !fs.is_empty() {
                                // values that look like known names
                                format!("{}=1&{}", fs[0].name, fs[0].name)
                            } else {
                                gen::string(&mut r, Alpha::Any)
                            };
                            ps.push((k, v.into_bytes()));
                        }
                    }
                    if r.chance(1, 15) {
                        // very many unknown parameters
                        for i in 0..r.range(10, 250) {
                            let k = format!("u{}", i);
                            if fs.iter().all(|f| f.name != k) {
                                ps.push((k, r.below(100).to_string().into_bytes()));
                            }
                        }
                    }
                }
                r.shuffle(&mut ps);
                let q = raw_query(&mut r, &ps);
                // a pair ("","") may be written as nothing at all: then a map would not see it
                if matches!(sc.query, Sect::Map) && ps.iter().any(|p| p.0.is_empty() && p.1.is_empty()) {
                    continue;
                }
                if let Sect::Struct(fs) = &sc.query {
                    if fs.iter().any(|f| f.name.is_empty()) && ps.iter().any(|p| p.0.is_empty() && p.1.is_empty()) {
                        continue;
                    }
                }
                if q.len() > 5000 {
                    continue;
                }
                let mut target = format!("/t{}", n);
                let path: Vec<Val> = sc.path.tys().iter().map(|_| Val::Str("p".into())).collect();
                if !path.is_empty() {
                    target.push_str("/p");
                }
                if !q.is_empty() || r.chance(1, 2) {
                    target = format!("{}?{}", target, q);
                }
                let header = match &sc.header {
                    Sect::Struct(_) => Vals::Struct(vec![None]),
                    _ => Vals::Absent,
                };
                let req = ReqVal { path, query, header, body: id_body(next_id(), b"") };
                raw_expect(ctx, &lab, &mut conn, n, &target, &[], &req, true, "query of another client", &mut r);
            }
        });
        watch(ctx, &lab, "raw queries");
        if let Some(e) = lab.board.take().first() {
            ctx.violate("stray-handler-run", format!("a handler ran without being called: {:?}", e.req));
        }
    }
    "one case = one call or raw request with a distinct (query schema, query values); raw requests permute parameters, add unknown ones and use random equivalent encodings; equality judged on the values the handler logged"
}

fn header_ok(name: &str, v: &[u8]) -> bool {
    let tok = !name.is_empty() && name.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
    let val = v.iter().all(|b| *b == b'\t' || (*b >= 0x20 && *b != 0x7f));
    let edge = matches!(v.first(), Some(b' ') | Some(b'\t')) || matches!(v.last(), Some(b' ') | Some(b'\t'));
    tok && val && !edge
}
fn trim_edges(v: &mut Vals) {
    // HTTP ignores blanks around a value; keep them out of the workload.
    let t = |s: &mut String| *s = s.trim_matches(|c| c == ' ' || c == '\t').to_owned();
    match v {
        Vals::Struct(fs) => {
            for f in fs.iter_mut().flatten() {
                match f {
                    Val::Str(s) | Val::NewStr(s) => t(s),
                    Val::Bytes(b) => {
                        while matches!(b.first(), Some(b' ') | Some(b'\t')) {
                            b.remove(0);
                        }
                        while matches!(b.last(), Some(b' ') | Some(b'\t')) {
                            b.pop();
                        }
                    }
                    _ => {}
                }
            }
        }
        Vals::Map(m) => m.iter_mut().for_each(|x| t(&mut x.1)),
        _ => {}
    }
}
fn header_size(s: &Sect, v: &Vals) -> (usize, usize, bool) {
    let ps = pairs(s, v);
    (
        ps.iter().map(|p| p.0.len() + p.1.len() + 4).sum(),
        ps.len(),
        ps.iter().all(|p| header_ok(&p.0, &p.1)),
    )
}

pub fn c03(ctx: &Ctx) -> &'static str {
    let cli = Exec::new(3);
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        if round % 8 == 1 {
            crate::shapes::run(ctx, &cli, crate::shapes::Part::Header, ctx.rng("shapes", round).next());
        }
        let mut r = ctx.rng("round", round);
        let nslots = r.range(4, NSLOT);
        let sect = |r: &mut Rng| match r.below(6) {
            0 => Sect::Absent,
            1 => Sect::Map,
            2 => Sect::Struct(fields(r, gen::HEADER_NAMES, 27, hty)),
            _ => Sect::Struct(fields(r, gen::HEADER_NAMES, 8, hty)),
        };
        for n in 0..nslots {
            let mut sc = plain_schema(n);
            sc.method = *r.pick(METHODS);
            if r.chance(1, 2) {
                sc.path = PathSect::Tuple(vec![]);
            }
            sc.header = sect(&mut r);
            let rs = sect(&mut r);
            sc.resp = if r.chance(1, 3) {
                RespShape::Named(vec![(*r.pick(&[200, 201, 404, 500]), rs)])
            } else {
                RespShape::Num(rs)
            };
            set_slot(n, sc);
        }
        let slots: Vec<usize> = (0..nslots).collect();
        let lab = Lab::start(r.range(1, 3), &slots);
        for _ in 0..4 {
            let mut cases = Vec::new();
            for _ in 0..48 {
                let n = r.below(nslots);
                let sc = slot(n);
                let hostile = r.chance(1, 5);
                let a = if hostile { Alpha::Any } else { Alpha::HeaderOk };
                let mut header = sect_vals(&mut r, &sc.header, a, true);
                let (rs, status) = match &sc.resp {
                    RespShape::Num(s) => (s.clone(), 200),
                    RespShape::Named(v) => (v[0].1.clone(), v[0].0),
                };
                let ra = if hostile && r.chance(1, 2) { Alpha::Any } else { Alpha::HeaderOk };
                let mut rh = sect_vals(&mut r, &rs, ra, true);
                trim_edges(&mut header);
                trim_edges(&mut rh);
                for (s, v) in [(&sc.header, &mut header), (&rs, &mut rh)] {
                    if r.chance(1, 25) {
                        let used = header_size(s, v).0 + 40;
                        match v {
                            Vals::Struct(fs) => {
                                if let Some(Some(v)) = fs.first_mut() {
                                    stretch(&mut r, v, used);
                                }
                            }
                            Vals::Map(m) => {
                                if let Some(x) = m.first_mut() {
                                    let mut v = Val::Str(x.1.clone());
                                    stretch(&mut r, &mut v, used);
                                    if let Val::Str(s) = v {
                                        x.1 = s;
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                if hostile {
                    if let Vals::Map(m) = &mut header {
                        if let Some(x) = m.first_mut() {
                            x.0 = r.pick(&["", "a b", "x:y", "x\r\nevil: 1", "é", "x\0", "(x)", "x\ny", " x", "x "]).to_string();
                        }
                    }
                    if let Vals::Map(m) = &mut rh {
                        if let Some(x) = m.first_mut() {
                            x.0 = r.pick(&["", "a b", "x:y", "x\r\nevil: 1", "é", "x\0", "(x)", "x\ny", " x", "x "]).to_string();
                        }
                    }
                }
                let (l1, n1, ok1) = header_size(&sc.header, &header);
                let (l2, n2, ok2) = header_size(&rs, &rh);
                let must = ok1 && ok2 && l1 < ROOM && l2 < ROOM && n1 < 29 && n2 < 29;
                if must {
                    ctx.max("most_headers", n1.max(n2) as u64);
                    ctx.max("longest_headers", l1.max(l2) as u64);
                }
                let key = format!("{:?} {:?} {:?} {:?}", sc.header, header, rs, rh);
                let id = next_id();
                cases.push(Case {
                    slot: n,
                    req: ReqVal { path: vec![], query: Vals::Absent, header, body: id_body(id, b"") },
                    resp: Some(RespVal { status, header: rh, body: id_body(id, b"r") }),
                    must,
                    key,
                });
            }
            if round <= 4 {
                trip::sample_case(ctx, &cases[0]);
            }
            trip::run(ctx, &cli, &lab, &cases, &Via::Single, "client round trip");
        }
        // Raw clients: any letter case, order, unknown headers, blanks around values.
        let base = ctx.rng("raw", round).next();
        lab.board.plan.lock().unwrap().clear();
        par(6, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            let mut conn = None;
            for _ in 0..20 {
                let n = r.below(nslots);
                let sc = slot(n);
                let mut header = sect_vals(&mut r, &sc.header, Alpha::HeaderOk, true);
                trim_edges(&mut header);
                let mut ps = pairs(&sc.header, &header);
                if let Sect::Struct(fs) = &sc.header {
                    for _ in 0..r.below(4) {
                        let k = *r.pick(gen::HEADER_NAMES);
                        if fs.iter().all(|f| f.name != k) {
                            ps.push((k.to_owned(), gen::string(&mut r, Alpha::HeaderOk).into_bytes()));
                        }
                    }
                }
                if ps.iter().map(|p| p.0.len() + p.1.len() + 8).sum::<usize>() > 6000 {
                    continue;
                }
                let body = id_body(next_id(), b"");
                ps.push(("content-length".into(), body.len().to_string().into_bytes()));
                r.shuffle(&mut ps);
                let hs: Vec<(String, Vec<u8>)> = ps
                    .into_iter()
                    .map(|(k, v)| {
                        let k: String = k
                            .chars()
                            .map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c })
                            .collect();
                        let mut w = r.pick(&["", " ", "  ", "\t", " \t "]).as_bytes().to_vec();
                        w.extend_from_slice(&v);
                        w.extend_from_slice(r.pick(&["", "", " ", "\t"]).as_bytes());
                        (k, w)
                    })
                    .collect();
                let req = ReqVal { path: vec![], query: Vals::Absent, header, body };
                let rs = match &sc.resp {
                    RespShape::Num(s) => s.clone(),
                    RespShape::Named(v) => v[0].1.clone(),
                };
                // answer 200 with headers the raw client can compare
                if let RespShape::Num(_) = sc.resp {
                    let mut rh = sect_vals(&mut r, &rs, Alpha::HeaderOk, true);
                    trim_edges(&mut rh);
                    let id = event_id(&slot(n), &req).unwrap();
                    lab.board.plan.lock().unwrap().insert(
                        id,
                        RespVal { status: 200, header: rh.clone(), body: req.body[..8].to_vec() },
                    );
                    let want = pairs(&rs, &rh);
                    raw_headers(ctx, &lab, &mut conn, n, &hs, &req, &want, &mut r);
                }
            }
        });
        lab.board.plan.lock().unwrap().clear();
        watch(ctx, &lab, "raw headers");
        lab.board.take();
    }
    // Hostile response headers must never show up as additional headers or body on the wire: see
    // also the strict parse of every raw response above.
    injection(ctx);
    "one case = one call or raw request with a distinct (header schemas, header values) in both directions; raw requests vary letter case, order, blanks and unknown headers; a fifth of the calls carry names or values that must not be sendable; equality judged on what handler and caller received, and on raw response heads"
}
fn raw_headers(ctx: &Ctx, lab: &Lab, conn: &mut Option<Conn>, n: usize, hs: &[(String, Vec<u8>)], req: &ReqVal, want: &[(String, Vec<u8>)], r: &mut Rng) {
    let id = event_id(&slot(n), req).unwrap();
    let msg = raw_request(slot(n).method, &format!("/t{}", n), hs, &req.body);
    let mut res = None;
    for attempt in 0..3 {
        if conn.is_none() {
            *conn = Conn::connect(lab.addr()).ok();
        }
        let c = match conn.as_mut() {
            Some(c) => c,
            None => continue,
        };
        if r.chance(1, 3) {
            c.send_fragmented(&msg, r, 3);
        } else {
            c.send(&msg);
        }
        match c.response(false) {
            Recv::Msg(m) => {
                res = Some(m);
                break;
            }
            o => {
                *conn = None;
                if attempt == 2 {
                    ctx.violate("no-answer", format!("raw request with headers {:?}: {}", String::from_utf8_lossy(&msg), o.describe()));
                }
            }
        }
    }
    let m = match res {
        Some(m) => m,
        None => return,
    };
    let events = lab.take_events(id);
    ctx.eval(&format!("raw {:?} {:?}", hs, want));
    ctx.count("raw_header_requests", 1);
    if m.status() != 200 {
        ctx.violate("raw-refused", format!("raw headers {:?} for schema {:?} answered {}: {}", String::from_utf8_lossy(&msg), slot(n).header, m.status(), String::from_utf8_lossy(&m.body)));
        return;
    }
    match events.last() {
        None => ctx.violate("not-run", "200 without running the handler".into()),
        Some(e) => {
            if let Err((sig, d)) = trip::req_eq(req, &e.req, true) {
                ctx.violate(&format!("raw-{}", sig), format!("raw request {:?}: {}", String::from_utf8_lossy(&msg), d));
            }
        }
    }
    // The response head must hold exactly the planned headers (plus framing).
    let mut a: Vec<(String, Vec<u8>)> = want.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect();
    let mut b: Vec<(String, Vec<u8>)> = m
        .headers
        .iter()
        .map(|(k, v)| (k.to_lowercase(), v.clone()))
        .filter(|h| h.0 != "content-length")
        .collect();
    a.sort();
    b.sort();
    let same = a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && text_eq(&x.1, &y.1));
    if !same {
        ctx.violate("response-header-wire", format!("handler returned headers {:?} but the response carries {:?}", a, b));
    }
    if m.body != req.body[..8] {
        ctx.violate("raw-wrong-response", "body of another response".into());
    }
}
/// Equal texts, or texts denoting the same single-precision number.
fn text_eq(a: &[u8], b: &[u8]) -> bool {
    let f = |x: &[u8]| std::str::from_utf8(x).ok().and_then(|s| s.parse::<f32>().ok());
    a == b || matches!((f(a), f(b)), (Some(x), Some(y)) if x == y && a.iter().chain(b).any(|c| *c == b'.' || *c == b'0'))
}
/// Header values and names built to smuggle: the receiving side must see nothing of the payload
/// unless it received the exact value.
fn injection(ctx: &Ctx) {
    let cli = Exec::new(1);
    let payloads = [
        "v\r\nx-injected: 1",
        "v\nx-injected: 1",
        "v\rx-injected: 1",
        "v\r\n\r\nGET /t0 HTTP/1.1\r\ncontent-length: 0\r\n\r\n",
        "\r\nx-injected: 1",
        "v\r\n x-injected",
        "v\0x-injected",
        "\nx-injected: 1",
    ];
    let names = ["x\r\nx-injected: 1\r\ny", "x: 1\r\nx-injected", "x\nx-injected", "x-injected: 1\r\nz", "x-a:x-injected", "x-injected "];
    // What the client emits, seen by an independent server.
    for (i, p) in payloads.iter().chain(names.iter()).enumerate() {
        let is_name = i >= payloads.len();
        let mut sc = plain_schema(0);
        sc.header = if i % 2 == 0 || is_name { Sect::Map } else { Sect::Struct(vec![Field { name: "x-a", ty: Ty::Str, opt: i % 4 == 1 }]) };
        let map = matches!(sc.header, Sect::Map);
        set_slot(0, sc);
        let log: Log<(Vec<u8>, bool)> = Log::default();
        let l2 = log.clone();
        let fake = Fake::start(move |_, mut c| {
            c.timeout = std::time::Duration::from_secs(5);
            match c.request() {
                Recv::Msg(m) => {
                    l2.push((m.raw_head.clone(), true));
                    c.send(&http_response(200, &[], b""));
                    let (rest, _) = c.drain(std::time::Duration::from_millis(200));
                    if !rest.is_empty() {
                        l2.push((rest, false));
                    }
                }
                Recv::Malformed(_, b) | Recv::Closed(b) | Recv::Timeout(b) => {
                    if !b.is_empty() {
                        l2.push((b, false));
                    }
                }
            }
        });
        let h = if map {
            Vals::Map(vec![if is_name { (p.to_string(), "v".into()) } else { ("x-a".into(), p.to_string()) }])
        } else {
            Vals::Struct(vec![Some(Val::Str(p.to_string()))])
        };
        let o = cli.run(
            call(fake.addr, 0, ReqVal { path: vec![], query: Vals::Absent, header: h, body: vec![1; 8] }),
            WATCHDOG,
        );
        trip::pause(20);
        ctx.eval(&format!("inject {} {}", is_name, p));
        for (b, _) in log.snapshot() {
            if String::from_utf8_lossy(&b).contains("x-injected") || String::from_utf8_lossy(&b).contains("GET /t0") {
                ctx.violate(
                    "injection",
                    format!("header {} {:?} put these bytes on the wire: {:?}", if is_name { "name" } else { "value" }, p, String::from_utf8_lossy(&b)),
                );
            }
        }
        if let Out::Ok(_) = o {
            ctx.violate("unsendable-sent", format!("a call with the illegal header {:?} succeeded", p));
        }
        if matches!(o, Out::Stalled | Out::Vanished) {
            ctx.count("inject_stalled", 1);
        }
        // The same from a handler's response.
        let mut sc = plain_schema(1);
        sc.resp = RespShape::Num(Sect::Map);
        set_slot(1, sc);
        let lab = Lab::start(1, &[1]);
        let id = next_id();
        lab.board.plan.lock().unwrap().insert(
            id,
            RespVal {
                status: 200,
                header: Vals::Map(vec![if is_name { (p.to_string(), "v".into()) } else { ("x-a".into(), p.to_string()) }]),
                body: vec![],
            },
        );
        if let Ok(mut c) = Conn::connect(lab.addr()) {
            c.send(&http_request("PUT", "/t1", &[], &id_body(id, b"")));
            c.fin();
            let (b, _) = c.drain(std::time::Duration::from_secs(3));
            let t = String::from_utf8_lossy(&b).into_owned();
            if t.contains("x-injected") || t.contains("GET /t0") {
                ctx.violate("response-injection", format!("response header {:?} put these bytes on the wire: {:?}", p, t));
            }
            ctx.eval(&format!("inject-resp {} {}", is_name, p));
        }
    }
}

const EDGES: &[&str] = &[
    ".0", ".", "e0", "E0", "L", "u8", "f", "_", ",", ";", ";x", "\u{0}", " ", "\t", "+", "-", "%", "\"", "'", "0x", "0b", "0o", "#", "$", "(", ")", "\u{a0}", "\u{feff}", "\u{3000}", "n", "=", "&",
    ",000", "k", "true", "null", "NaN", "/", "\\", "٣",
];

/// What Rust's own parsers say.
fn unparsable(t: Ty, s: &str) -> bool {
    match t {
        Ty::Bool => s != "true" && s != "false",
        Ty::I8 => s.parse::<i8>().is_err(),
        Ty::I16 => s.parse::<i16>().is_err(),
        Ty::I32 => s.parse::<i32>().is_err(),
        Ty::I64 => s.parse::<i64>().is_err(),
        Ty::U8 => s.parse::<u8>().is_err(),
        Ty::U16 => s.parse::<u16>().is_err(),
        Ty::U32 | Ty::NewU32 => s.parse::<u32>().is_err(),
        Ty::U64 => s.parse::<u64>().is_err(),
        Ty::F32 => s.parse::<f32>().is_err(),
        Ty::F64 => s.parse::<f64>().is_err(),
        _ => false,
    }
}

/// Texts that no value of the type has.
fn bad_text(r: &mut Rng, t: Ty) -> Option<Vec<u8>> {
    let generic: &[&str] = &["abc", "", "1x", "0x10", "1 2", "--1", "1_000", "١", "nope", "true1", "1.2.3", " 7", "7 ", "1.0", "5.0", "0.0", "1e3", "1.", "+", "-", "1,000", "1;x", "null", "true", "NaN"];
    let s: &str = match t {
        Ty::Bool => *r.pick(&["True", "FALSE", "1", "0", "yes", "ture", "", "t", "true ", "truefalse", "tru"]),
        Ty::I8 => *r.pick(&["128", "-129", "256", "1.5", "99999999999999999999", "1e1"]),
        Ty::I16 => *r.pick(&["32768", "-32769", "65536", "1.0"]),
        Ty::I32 => *r.pick(&["2147483648", "-2147483649", "4294967296"]),
        Ty::I64 => *r.pick(&["9223372036854775808", "-9223372036854775809", "1.0"]),
        Ty::U8 => *r.pick(&["256", "-1", "257", "1.0", "65536"]),
        Ty::U16 => *r.pick(&["65536", "-1", "4294967296"]),
        Ty::U32 | Ty::NewU32 => *r.pick(&["4294967296", "-1", "18446744073709551616"]),
        Ty::U64 => *r.pick(&["18446744073709551616", "-1", "1e3"]),
        Ty::F32 | Ty::F64 => *r.pick(&["abc", "1,5", "1.2.3", "--1", "0x1p3", "", "1e", "1 "]),
        Ty::Str | Ty::NewStr => {
            return Some(r.pick(&[&b"\xff"[..], b"\xc3\x28", b"a\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\x80", b"ok\xfe"]).to_vec())
        }
        Ty::Bytes => return None,
    };
    if r.chance(1, 2) {
        // nearly a number or a truth value
        let base = gen::text(&gen::val(r, t, Alpha::Any));
        let base = String::from_utf8(base).unwrap_or_default();
        let edge = if r.chance(1, 2) { *r.pick(EDGES) } else { *r.pick(&EDGES[..9]) };
        let s = match r.below(8) {
            0 => format!("{}{}", edge, base),
            1 => base.chars().flat_map(|c| vec![c, '_']).collect(),
            2 => base.replace('-', "\u{2212}"),
            3 => base.chars().map(|c| c.to_digit(10).map_or(c, |d| std::char::from_u32(0xff10 + d).unwrap())).collect(),
            4 => format!("{}{}", base, base),
            _ => format!("{}{}", base, edge),
        };
        if unparsable(t, &s) {
            return Some(s.into_bytes());
        }
    }
    let s = if !matches!(t, Ty::Bool | Ty::F32 | Ty::F64) && r.chance(1, 2) { *r.pick(generic) } else { s };
    Some(s.as_bytes().to_vec())
}

pub fn c07(ctx: &Ctx) -> &'static str {
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        let mut r = ctx.rng("round", round);
        let nslots = NSLOT;
        let mut eps = Vec::new();
        for n in 0..nslots {
            let ep = tagged_ep(&mut r, n, 4);
            let mut sc = path_schema(&mut r, n, &ep);
            sc.query = if r.chance(1, 6) { Sect::Absent } else { Sect::Struct(fields(&mut r, gen::QUERY_NAMES, 4, gen::ty)) };
            sc.header = if r.chance(1, 6) { Sect::Absent } else { Sect::Struct(fields(&mut r, gen::HEADER_NAMES, 4, hty)) };
            set_slot(n, sc);
            eps.push(ep);
        }
        let slots: Vec<usize> = (0..nslots).collect();
        let lab = Lab::start(r.range(1, 3), &slots);
        let base = r.next();
        par(8, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            let mut conn = None;
            for i in 0..60 {
                if !ctx.go_on() {
                    break;
                }
                let n = r.below(nslots);
                let sc = slot(n);
                let mut path: Vec<Val>;
                loop {
                    path = sc.path.tys().iter().map(|t| gen::val(&mut r, *t, Alpha::Any)).collect();
                    if !path.iter().any(is_dot) {
                        break;
                    }
                }
                let query = sect_vals(&mut r, &sc.query, Alpha::Any, false);
                let mut header = sect_vals(&mut r, &sc.header, Alpha::HeaderOk, true);
                trim_edges(&mut header);
                let mut qp = pairs(&sc.query, &query);
                let mut hp = pairs(&sc.header, &header);
                let mut segs: Vec<(Vec<u8>, bool)> = Vec::new();
                {
                    let mut it = path.iter();
                    for s in &eps[n] {
                        match s {
                            Some(l) => segs.push((l.clone().into_bytes(), false)),
                            None => segs.push((gen::text(it.next().unwrap()), true)),
                        }
                    }
                }
                let mut kind = "valid";
                if i % 3 != 2 {
                    // one mutation
                    for _ in 0..10 {
                        match r.below(8) {
                            0 => {
                                let vs: Vec<usize> = segs.iter().enumerate().filter(|s| s.1 .1).map(|s| s.0).collect();
                                if vs.is_empty() {
                                    continue;
                                }
                                let k = r.below(vs.len());
                                let ty = sc.path.tys()[k];
                                if let Some(b) = bad_text(&mut r, ty) {
                                    segs[vs[k]].0 = b;
                                    kind = "bad path value";
                                    break;
                                }
                            }
                            x @ (1 | 2 | 3) => {
                                if let Sect::Struct(fs) = &sc.query {
                                    if fs.is_empty() {
                                        continue;
                                    }
                                    let f = r.pick(fs).clone();
                                    let at = qp.iter().position(|p| p.0 == f.name);
                                    match (x, at) {
                                        (1, Some(at)) if !f.opt => {
                                            qp.remove(at);
                                            kind = "missing query parameter";
                                            break;
                                        }
                                        (2, Some(at)) => {
                                            let d = if r.chance(1, 2) { qp[at].clone() } else { (f.name.to_owned(), gen::text(&gen::val(&mut r, f.ty, Alpha::Any))) };
                                            let to = r.below(qp.len() + 1);
                                            if d.0.is_empty() && d.1.is_empty() {
                                                continue;
                                            }
                                            if qp[at].0.is_empty() && qp[at].1.is_empty() {
                                                continue;
                                            }
                                            qp.insert(to, d);
                                            kind = "duplicate query parameter";
                                            break;
                                        }
                                        (3, at) => {
                                            // form decoding replaces invalid UTF-8, so strings cannot be malformed
                                            if matches!(f.ty, Ty::Str | Ty::NewStr) {
                                                continue;
                                            }
                                            if let Some(b) = bad_text(&mut r, f.ty) {
                                                if f.name.is_empty() && b.is_empty() {
                                                    continue;
                                                }
                                                match at {
                                                    Some(at) => qp[at].1 = b,
                                                    None => qp.push((f.name.to_owned(), b)),
                                                }
                                                kind = "bad query value";
                                                break;
                                            }
                                        }
                                        _ => continue,
                                    }
                                }
                            }
                            x => {
                                if let Sect::Struct(fs) = &sc.header {
                                    if fs.is_empty() {
                                        continue;
                                    }
                                    let f = r.pick(fs).clone();
                                    let at = hp.iter().position(|p| p.0 == f.name);
                                    match (x, at) {
                                        (4, Some(at)) if !f.opt => {
                                            hp.remove(at);
                                            kind = "missing header";
                                            break;
                                        }
                                        (5, Some(at)) => {
                                            let d = hp[at].clone();
                                            hp.insert(r.below(hp.len() + 1), d);
                                            kind = "duplicate header";
                                            break;
                                        }
                                        (6 | 7, at) => {
                                            if let Some(b) = bad_text(&mut r, f.ty) {
                                                if b.first() == Some(&b' ') || b.last() == Some(&b' ') || b.iter().any(|b| *b < 32 || *b == 127) {
                                                    continue;
                                                }
                                                match at {
                                                    Some(at) => hp[at].1 = b,
                                                    None => hp.push((f.name.to_owned(), b)),
                                                }
                                                kind = "bad header value";
                                                break;
                                            }
                                        }
                                        _ => continue,
                                    }
                                }
                            }
                        }
                    }
                }
                if kind != "duplicate query parameter" {
                    r.shuffle(&mut qp);
                }
                r.shuffle(&mut hp);
                // A pair ("","") is not distinguishable from nothing.
                if qp.iter().any(|p| p.0.is_empty() && p.1.is_empty()) {
                    continue;
                }
                let mut target = String::new();
                for (b, _) in &segs {
                    target.push('/');
                    target.push_str(&gen::pct_random(&mut r, b, b"-._~!$&'()*+,;=:@"));
                }
                let q = raw_query(&mut r, &qp);
                if !q.is_empty() {
                    target = format!("{}?{}", target, q);
                }
                let hs: Vec<(String, Vec<u8>)> = hp
                    .into_iter()
                    .map(|(k, v)| {
                        let mut w = b" ".to_vec();
                        w.extend_from_slice(&v);
                        (k, w)
                    })
                    .collect();
                if target.len() + hs.iter().map(|h| h.0.len() + h.1.len() + 4).sum::<usize>() > 6000 {
                    continue;
                }
                let blen = *r.pick(&[0, 0, 1, 100, 1015, 1016, 1017, 3000, 9000]);
                let body = id_body(next_id(), &r.bytes(blen));
                let req = ReqVal { path, query, header, body };
                ctx.count(&format!("kind: {}", kind), 1);
                if t == 0 && i < 3 && round <= 2 {
                    ctx.sample(serde_json::json!({"kind": kind, "target": target, "headers": format!("{:?}", hs.iter().map(|h| (&h.0, String::from_utf8_lossy(&h.1))).collect::<Vec<_>>()), "schema": format!("{:?}", sc)}));
                }
                raw_expect(ctx, &lab, &mut conn, n, &target, &hs, &req, kind == "valid", kind, &mut r);
            }
        });
        watch(ctx, &lab, "malformed arguments");
        let mut stray: HashMap<usize, usize> = HashMap::new();
        for e in lab.board.take() {
            *stray.entry(e.slot).or_default() += 1;
        }
        if !stray.is_empty() {
            ctx.violate("stray-handler-run", format!("handlers ran outside their requests: {:?}", stray));
        }
    }
    "one case = one raw request with a distinct target and headers, either valid or with exactly one missing, duplicated, unparsable or out-of-range argument, several per connection; the handler log tells whether the handler ran"
}
