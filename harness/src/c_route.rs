//! C06 routing, C21 conflicting registrations.
use crate::c_args::{par, plain_schema, problem_ok, METHODS};
use crate::ctx::Ctx;
use crate::dynp::*;
use crate::gen;
use crate::lab::*;
use crate::net::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::trip::{self, next_id};
use htrpc::types::{EntryPoint, HttpMethod};
use serde_json::json;
use std::sync::Arc;

pub type Ep = Vec<Option<String>>;

/// Reference matcher: does the entry point match these (decoded) segments?
pub fn matches(ep: &Ep, segs: &[String]) -> bool {
    ep.len() == segs.len() && ep.iter().zip(segs).all(|(e, s)| e.as_ref().map(|e| e == s).unwrap_or(true))
}
pub enum Expect {
    Run(usize),
    NotFound,
    MethodNotAllowed,
}
/// Constant before variable at the leftmost difference, among those of the right method.
pub fn reference(table: &[(HttpMethod, Ep)], method: HttpMethod, segs: &[String]) -> Expect {
    let mut any = false;
    let mut best: Option<usize> = None;
    // "/" has one empty segment; it is also the path of the entry point without segments.
    let root = segs.len() == 1 && segs[0].is_empty();
    for (i, (m, ep)) in table.iter().enumerate() {
        let hit = matches(ep, segs) || (root && ep.is_empty());
        if !hit {
            continue;
        }
        any = true;
        if *m != method {
            continue;
        }
        best = Some(match best {
            None => i,
            Some(b) => {
                let a = &table[b].1;
                let mut pick = b;
                for (x, y) in a.iter().zip(ep) {
                    match (x.is_some(), y.is_some()) {
                        (true, false) => break,
                        (false, true) => {
                            pick = i;
                            break;
                        }
                        _ => {}
                    }
                }
                pick
            }
        });
    }
    match best {
        Some(i) => Expect::Run(i),
        None if any => Expect::MethodNotAllowed,
        None => Expect::NotFound,
    }
}

const SEGS: &[&str] = &["a", "b", "c", "A", "aa", "ab", "", "foo", "foo bar", "é", "%", "a/b", "1", "x=y", "~", "日本", "a+b", "_", "*", ":a", "{a}", "<a>", "**", "?", "#", "-", "a;b", "...", "null", "$1", "\u{e9}", "e\u{301}"];
fn seg_name(r: &mut Rng) -> String {
    // mostly few names, so that routes overlap
    if r.chance(3, 4) {
        r.pick(&SEGS[..3]).to_string()
    } else {
        r.pick(SEGS).to_string()
    }
}
fn gen_ep(r: &mut Rng) -> Ep {
    let len = match r.below(12) {
        0 => 0,
        1..=2 => 1,
        3..=6 => 2,
        7..=9 => 3,
        10 => 4,
        _ => r.range(5, 12),
    };
    (0..len).map(|_| if r.chance(2, 5) { None } else { Some(seg_name(r)) }).collect()
}
fn to_ep(ep: &Ep) -> EntryPoint {
    crate::c_args::ep_of(ep)
}
fn schema(n: usize, m: HttpMethod, ep: &Ep) -> Schema {
    let vars = ep.iter().filter(|s| s.is_none()).count();
    let mut sc = plain_schema(n);
    sc.method = m;
    sc.ep = to_ep(ep);
    sc.path = PathSect::Tuple(vec![Ty::Str; vars]);
    sc
}
/// Entry points an empty-leading-segment client cannot express are still routable by raw clients.
fn target(r: &mut Rng, segs: &[String]) -> String {
    let mut t = String::new();
    for s in segs {
        t.push('/');
        t.push_str(&gen::pct_random(r, s.as_bytes(), b"-._~!$&'()*+,;=:@"));
    }
    if segs.is_empty() {
        t.push('/');
    }
    t
}
pub const ALL_METHODS: &[HttpMethod] = &[
    HttpMethod::Get,
    HttpMethod::Head,
    HttpMethod::Post,
    HttpMethod::Put,
    HttpMethod::Delete,
    HttpMethod::Options,
    HttpMethod::Trace,
    HttpMethod::Patch,
];

const NEAR: &[&str] = &[
    ";x", ";", ";v=1", ".", ".json", ".html", "~", "*", "_", ":", ":1", "@", ",", "=", "!", "$", "&", "+", " ", "\u{0}", "/", "?", "#", "\\", "%", "%20", "%2f", "\"", "'", "|",
    "\u{feff}", "\u{301}", "0", "s", "-", "\u{3000}", "\t",
];

/// Segments derived from the table: an instance of some entry point, then perturbed.
fn probe(r: &mut Rng, table: &[(HttpMethod, Ep)]) -> (HttpMethod, Vec<String>) {
    let (m, ep) = r.pick(table).clone();
    let mut segs: Vec<String> = ep.iter().map(|s| s.clone().unwrap_or_else(|| seg_name(r))).collect();
    let mut m = m;
    match r.below(10) {
        6 => {
            // nearly the literal: conventions of other frameworks must not apply
            if !segs.is_empty() {
                let at = r.below(segs.len());
                let old = segs[at].clone();
                segs[at] = match r.below(6) {
                    0 => format!("{}{}", r.pick(NEAR), old),
                    1 => old.chars().rev().collect(),
                    2 => old.chars().take(old.chars().count().saturating_sub(1)).collect(),
                    _ => format!("{}{}", old, r.pick(NEAR)),
                };
                if segs[at] == "." || segs[at] == ".." {
                    segs[at] = old;
                }
            }
        }
        0 => {
            let at = r.below(segs.len() + 1);
            segs.insert(at, seg_name(r));
        }
        1 => {
            if !segs.is_empty() {
                let at = r.below(segs.len());
                segs.remove(at);
            }
        }
        2 => {
            if !segs.is_empty() {
                let at = r.below(segs.len());
                segs[at] = r.pick(SEGS).to_string();
            }
        }
        3 => segs.push(String::new()),
        4 => m = *r.pick(ALL_METHODS),
        5 => {
            if !segs.is_empty() {
                let at = r.below(segs.len());
                segs[at] = segs[at].to_uppercase();
            }
        }
        _ => {}
    }
    if segs.is_empty() {
        segs.push(String::new());
    }
    (m, segs)
}

/// Sends the probe and compares with the expectation; None on transport trouble.
fn check_probe(ctx: &Ctx, lab: &Lab, conn: &mut Option<Conn>, r: &mut Rng, table: &[(HttpMethod, Ep)], m: HttpMethod, segs: &[String]) -> bool {
    let want = reference(table, m, segs);
    let mut t = target(r, segs);
    match r.below(6) {
        0 => t.push_str("?x=1"),
        1 => t.push('?'),
        _ => {}
    }
    if r.chance(1, 12) {
        // absolute form, as sent to proxies: the path is what follows the authority
        let host = *r.pick(&["http://127.0.0.1:80", "http://example.com", "HTTP://foo", "http://h.example:8080"]);
        t = format!("{}{}", host, t);
        ctx.count("absolute_form", 1);
    }
    let id = next_id();
    for attempt in 0..3 {
        if conn.is_none() {
            *conn = Conn::connect(lab.addr()).ok();
        }
        let c = match conn.as_mut() {
            Some(c) => c,
            None => continue,
        };
        c.send(&http_request(&m.to_string(), &t, &[], &id_body(id, b"")));
        let rc = c.response(m == HttpMethod::Head);
        let ev = lab.take_events(id);
        let msg = match rc {
            Recv::Msg(x) => x,
            o => {
                *conn = None;
                if attempt == 2 {
                    ctx.violate("no-response", format!("{} {}: {} (table {:?})", m, t, o.describe(), table));
                    return false;
                }
                continue;
            }
        };
        ctx.eval(&format!("{} {:?} {:?}", m, segs, table));
        let d = || format!("{} {} (segments {:?}) with table {:?}", m, t, segs, table);
        match want {
            Expect::Run(i) => {
                ctx.count("routed", 1);
                if msg.status() != 200 {
                    ctx.violate("not-routed", format!("{}: answered {} instead of running entry {}", d(), msg.status(), i));
                } else if ev.len() != 1 || ev[0].slot != i {
                    ctx.violate("misrouted", format!("{}: ran {:?} instead of {}", d(), ev.iter().map(|e| e.slot).collect::<Vec<_>>(), i));
                } else {
                    // the variables it received are the segments at its variable positions
                    let vars: Vec<&String> = table[i].1.iter().zip(segs).filter(|x| x.0.is_none()).map(|x| x.1).collect();
                    let got: Vec<&String> = ev[0].req.path.iter().filter_map(|v| if let Val::Str(s) = v { Some(s) } else { None }).collect();
                    if vars != got {
                        ctx.violate("wrong-variables", format!("{}: variables {:?} instead of {:?}", d(), got, vars));
                    }
                }
            }
            Expect::NotFound | Expect::MethodNotAllowed => {
                let code = if matches!(want, Expect::NotFound) { 404 } else { 405 };
                ctx.count(if code == 404 { "not_found" } else { "method_not_allowed" }, 1);
                if !ev.is_empty() {
                    ctx.violate("unmatched-ran", format!("{}: ran entry {}", d(), ev[0].slot));
                }
                if msg.status() != code {
                    ctx.violate("wrong-refusal", format!("{}: answered {} instead of {}", d(), msg.status(), code));
                } else if m != HttpMethod::Head {
                    if let Err(e) = problem_ok(&msg, code) {
                        ctx.violate("bad-problem", format!("{}: {}", d(), e));
                    }
                }
            }
        }
        return true;
    }
    ctx.count("no_connection", 1);
    false
}

pub fn c06(ctx: &Ctx) -> &'static str {
    let cli = Exec::new(2);
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        let mut r = ctx.rng("round", round);
        let mut table: Vec<(HttpMethod, Ep)> = Vec::new();
        let want = r.range(2, NSLOT);
        let nm = r.range(1, 4);
        while table.len() < want {
            let ep = gen_ep(&mut r);
            let m = METHODS[r.below(nm)];
            if table.iter().any(|t| t.0 == m && t.1 == ep) {
                if r.chance(1, 20) {
                    break;
                }
                continue;
            }
            // "/" is an instance of both [] and [_] / [""]: precedence between those is not defined
            let root = |e: &Ep| e.is_empty() || (e.len() == 1 && (e[0].is_none() || e[0].as_deref() == Some("")));
            if root(&ep) && table.iter().any(|t| root(&t.1)) {
                continue;
            }
            table.push((m, ep));
        }
        for (n, (m, ep)) in table.iter().enumerate() {
            set_slot(n, schema(n, *m, ep));
        }
        if round <= 4 {
            ctx.sample(json!(format!("{:?}", table)));
        }
        let mut slots: Vec<usize> = (0..table.len()).collect();
        r.shuffle(&mut slots);
        let lab = Lab::start(1, &slots);
        let base = r.next();
        par(6, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            let mut conn = None;
            for _ in 0..40 {
                if !ctx.go_on() {
                    return;
                }
                let (m, segs) = probe(&mut r, &table);
                check_probe(ctx, &lab, &mut conn, &mut r, &table, m, &segs);
            }
        });
        // The real client reaches its own procedure unless another entry point has precedence.
        for _ in 0..8 {
            let n = r.below(table.len());
            let (m, ep) = &table[n];
            let segs: Vec<String> = ep.iter().map(|s| s.clone().unwrap_or_else(|| seg_name(&mut r))).collect();
            if segs.len() > 1 && segs[0].is_empty() {
                continue;
            }
            let rs = if segs.is_empty() { vec![String::new()] } else { segs.clone() };
            if let Expect::Run(i) = reference(&table, *m, &rs) {
                let vars: Vec<Val> = ep.iter().zip(&segs).filter(|x| x.0.is_none()).map(|x| Val::Str(x.1.clone())).collect();
                let id = next_id();
                let req = ReqVal { path: vars.clone(), query: Vals::Absent, header: Vals::Absent, body: id_body(id, b"") };
                let mut ok = false;
                let mut last = String::new();
                for _ in 0..3 {
                    match cli.run(call(lab.addr(), n, req.clone()), WATCHDOG) {
                        Out::Ok(_) => {
                            ok = true;
                            break;
                        }
                        o => last = o.describe(),
                    }
                }
                let ev = lab.take_events(id);
                ctx.eval(&format!("client {:?} {:?} {:?}", m, segs, table));
                ctx.count("client_calls", 1);
                if !ok {
                    ctx.violate("client-not-routed", format!("client call of {:?} with {:?}: {} (table {:?})", ep, vars, last, table));
                } else if ev.iter().any(|e| e.slot != i) {
                    ctx.violate("misrouted", format!("client call of entry {} {:?} with {:?} ran {:?} instead of {} (table {:?})", n, ep, vars, ev.iter().map(|e| e.slot).collect::<Vec<_>>(), i, table));
                }
            }
        }
        let stray = lab.board.take();
        if !stray.is_empty() {
            ctx.violate("stray-handler-run", format!("handlers ran without a request: {:?}", stray.iter().map(|e| e.slot).collect::<Vec<_>>()));
        }
        watch(ctx, &lab, "routing");
    }
    "one case = one (method, path, route table) triple: random tables of up to 16 overlapping entry points, paths derived from them by instantiation and perturbation (segment added, removed, changed, re-cased, trailing slash, other method) with random equivalent percent-encodings; compared with a reference matcher"
}

pub fn c21(ctx: &Ctx) -> &'static str {
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        let mut r = ctx.rng("round", round);
        // A sequence of registrations with deliberate conflicts.
        let mut seq: Vec<(HttpMethod, Ep)> = Vec::new();
        let n = r.range(2, NSLOT);
        for _ in 0..n {
            let fresh = seq.is_empty() || r.chance(1, 2);
            if fresh {
                seq.push((*r.pick(METHODS), gen_ep(&mut r)));
            } else {
                let (m, mut ep) = r.pick(&seq).clone();
                let mut m = m;
                match r.below(9) {
                    8 => {
                        // a literal that looks like a variable
                        if let Some(x) = ep.iter_mut().find(|x| x.is_none()) {
                            *x = Some(r.pick(&["_", "*", ":a", "{a}", "", "**"]).to_string());
                        }
                    }
                    0..=3 => {} // exact duplicate
                    4 => m = *r.pick(METHODS),
                    5 => {
                        if let Some(x) = ep.last_mut() {
                            *x = if x.is_some() { None } else { Some(seg_name(&mut r)) };
                        }
                    }
                    6 => ep.push(Some(seg_name(&mut r))),
                    _ => {
                        if !ep.is_empty() {
                            let at = r.below(ep.len());
                            ep[at] = Some(seg_name(&mut r));
                        }
                    }
                }
                seq.push((m, ep));
            }
        }
        for (i, (m, ep)) in seq.iter().enumerate() {
            set_slot(i, schema(i, *m, ep));
        }
        if round <= 4 {
            ctx.sample(json!(format!("{:?}", seq)));
        }
        let board = Arc::new(Board::default());
        let mut accepted: Vec<bool> = Vec::new();
        let b2 = board.clone();
        let seq2 = seq.clone();
        let mut res = Vec::new();
        let server = Server::start(1, |b| {
            res.clear();
            for i in 0..seq2.len() {
                res.push(register(b, i, &b2));
            }
        });
        accepted.extend(res);
        for (i, e) in seq.iter().enumerate() {
            let conflict = seq[..i].iter().any(|p| p == e);
            ctx.eval(&format!("reg {} {:?} {:?}", conflict, e, &seq[..i]));
            ctx.count(if conflict { "conflicts" } else { "non_conflicts" }, 1);
            if conflict && accepted[i] {
                ctx.violate("conflict-accepted", format!("registration {} {:?} conflicts with an earlier one but was accepted: {:?}", i, e, seq));
            }
            if !conflict && !accepted[i] {
                ctx.violate("registration-refused", format!("registration {} {:?} conflicts with nothing but was refused: {:?}", i, e, seq));
            }
        }
        let lab = Lab { server, board };
        // Every first registration is still dispatched to its own handler.
        let table: Vec<(HttpMethod, Ep)> = seq.clone();
        // reference() returns the first of equals: later duplicates never win.
        let base = r.next();
        let root = |e: &Ep| e.is_empty() || (e.len() == 1 && (e[0].is_none() || e[0].as_deref() == Some("")));
        let ambiguous_root = seq.iter().filter(|t| root(&t.1)).map(|t| &t.1).collect::<std::collections::HashSet<_>>().len() > 1;
        par(4, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            let mut conn = None;
            for i in 0..12 {
                let (m, segs) = if i < 6 {
                    let (m, ep) = r.pick(&table).clone();
                    let segs: Vec<String> = ep.iter().map(|s| s.clone().unwrap_or_else(|| seg_name(&mut r))).collect();
                    (m, if segs.is_empty() { vec![String::new()] } else { segs })
                } else {
                    probe(&mut r, &table)
                };
                if ambiguous_root && segs.len() == 1 && segs[0].is_empty() {
                    continue;
                }
                check_probe(ctx, &lab, &mut conn, &mut r, &table, m, &segs);
            }
        });
        lab.board.take();
        watch(ctx, &lab, "registrations");
    }
    trip::pause(0);
    "one case = one registration in a random sequence (fresh, exact duplicate, other method, segment generalised/specialised/appended) or one request against the resulting server; refusals compared with the definition, dispatch with a reference matcher over the first registrations"
}
