//! Round-trip engine: batches of real client calls against a real server, judged from the event
//! log of the handlers and the results the callers got.
use crate::ctx::Ctx;
use crate::dynp::*;
use crate::lab::*;
use crate::rt::*;
use serde_json::json;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Case {
    pub slot: usize,
    pub req: ReqVal,
    pub resp: Option<RespVal>,
    /// The call has to succeed (everything in it is representable); otherwise it may fail, but
    /// must not deliver anything altered.
    pub must: bool,
    /// Key for the distinct count.
    pub key: String,
}

pub fn map_eq(sent: &[(String, String)], got: &[(String, String)], header: bool) -> Result<(), String> {
    let norm = |k: &str| if header { k.to_lowercase() } else { k.to_owned() };
    let mut a: Vec<(String, String)> = sent.iter().map(|(k, v)| (norm(k), v.clone())).collect();
    let mut b: Vec<(String, String)> = got
        .iter()
        .filter(|(k, _)| !(header && k.eq_ignore_ascii_case("content-length")))
        .map(|(k, v)| (norm(k), v.clone()))
        .collect();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("sent {:?}, received {:?}", a, b));
    }
    Ok(())
}
pub fn vals_eq(sent: &Vals, got: &Vals, header: bool) -> Result<(), String> {
    match (sent, got) {
        (Vals::Map(a), Vals::Map(b)) => map_eq(a, b, header),
        (a, b) => {
            if a == b {
                Ok(())
            } else {
                Err(format!("sent {:?}, received {:?}", a, b))
            }
        }
    }
}
fn short(b: &[u8]) -> String {
    format!("{} bytes #{:x}", b.len(), crate::rng::fnv(b))
}
pub fn req_eq(sent: &ReqVal, got: &ReqVal, body: bool) -> Result<(), (String, String)> {
    if sent.path != got.path {
        return Err(("path-altered".into(), format!("path: sent {:?}, received {:?}", sent.path, got.path)));
    }
    vals_eq(&sent.query, &got.query, false).map_err(|e| ("query-altered".into(), format!("query: {}", e)))?;
    vals_eq(&sent.header, &got.header, true).map_err(|e| ("header-altered".into(), format!("header: {}", e)))?;
    if body && sent.body != got.body {
        return Err((
            "body-altered".into(),
            format!("body: sent {}, received {}", short(&sent.body), short(&got.body)),
        ));
    }
    Ok(())
}
pub fn resp_eq(sent: &RespVal, got: &RespVal) -> Result<(), (String, String)> {
    if sent.status != got.status {
        return Err(("status-altered".into(), format!("status: handler {}, caller {}", sent.status, got.status)));
    }
    vals_eq(&sent.header, &got.header, true)
        .map_err(|e| ("response-header-altered".into(), format!("response header: {}", e)))?;
    if sent.body != got.body {
        return Err((
            "response-body-altered".into(),
            format!("response body: handler {}, caller {}", short(&sent.body), short(&got.body)),
        ));
    }
    Ok(())
}

static IDS: AtomicU64 = AtomicU64::new(1);
pub fn next_id() -> u64 {
    // Scrambled so that ids do not look alike.
    IDS.fetch_add(1, Ordering::SeqCst).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}

/// Pooled or single-use calls.
pub enum Via<'a> {
    Single,
    Pool(&'a htrpc::pool::RpcClientPoolHandle),
}
fn start_call(cli: &Exec, via: &Via, addr: SocketAddr, n: usize, req: ReqVal) -> Pending<RespVal, htrpc::Error> {
    match via {
        Via::Single => cli.start(call(addr, n, req)),
        Via::Pool(h) => cli.start(pool_call(h, addr, n, req)),
    }
}

/// Runs the cases concurrently and judges them. Bodies must start with unique ids.
pub fn run(ctx: &Ctx, cli: &Exec, lab: &Lab, cases: &[Case], via: &Via, what: &str) {
    let body_read = |n: usize| slot(n).read == ReadMode::All;
    {
        let mut plan = lab.board.plan.lock().unwrap();
        plan.clear();
        for c in cases {
            if let Some(r) = &c.resp {
                if let Some(id) = event_id(&slot(c.slot), &c.req) {
                    plan.insert(id, r.clone());
                }
            }
        }
    }
    lab.board.take();
    let pend: Vec<_> = cases
        .iter()
        .map(|c| start_call(cli, via, lab.addr(), c.slot, c.req.clone()))
        .collect();
    let outs: Vec<CallOut> = pend.iter().map(|p| p.wait(WATCHDOG)).collect();
    let ev = lab.events_by_id();
    let mut ids: HashMap<u64, ()> = HashMap::new();
    for (c, o) in cases.iter().zip(outs) {
        let id = event_id(&slot(c.slot), &c.req).expect("id");
        ids.insert(id, ());
        let none = Vec::new();
        let events = ev.get(&Some(id)).unwrap_or(&none);
        ctx.count("handler_events", events.len() as u64);
        for e in events {
            if e.slot != c.slot {
                ctx.violate(
                    "wrong-handler",
                    format!("{}: call of {:?} with {:?} ran the handler of {:?}", what, slot(c.slot).ep, c.req.path, slot(e.slot).ep),
                );
            } else if let Err((sig, d)) = req_eq(&c.req, &e.req, body_read(c.slot)) {
                ctx.violate(&sig, format!("{}: entry point {:?}: {} (schema {:?})", what, slot(c.slot).ep, d, slot(c.slot)));
            }
        }
        if events.len() > 1 {
            ctx.violate("ran-twice", format!("{}: one call ran its handler {} times", what, events.len()));
        }
        match o {
            Out::Ok(r) => {
                ctx.eval(&c.key);
                ctx.count("calls_ok", 1);
                if events.is_empty() {
                    ctx.violate("not-run", format!("{}: call succeeded but its handler did not run: {:?}", what, c.req.path));
                }
                if let Some(p) = &c.resp {
                    if let Err((sig, d)) = resp_eq(p, &r) {
                        ctx.violate(&sig, format!("{}: {} (shape {:?})", what, d, slot(c.slot).resp));
                    }
                }
            }
            o if !c.must => {
                ctx.eval(&c.key);
                ctx.count("calls_refused", 1);
                if matches!(o, Out::Stalled | Out::Vanished) {
                    confirm(ctx, lab, c, &o, what);
                }
            }
            o => confirm(ctx, lab, c, &o, what),
        }
    }
    for (id, es) in &ev {
        let known = id.map(|i| ids.contains_key(&i)).unwrap_or(false);
        if !known && body_read(es[0].slot) {
            ctx.violate(
                "stray-handler-run",
                format!("{}: a handler ran with a body that no call sent: {:?}", what, es[0].req),
            );
        }
    }
    watch(ctx, lab, what);
}

/// A call that should have succeeded did not: repeat it alone against fresh servers. It is a
/// violation if it fails deterministically; otherwise it is counted, and repeated unreproducible
/// failures are reported as a nondeterministic one.
fn confirm(ctx: &Ctx, lab: &Lab, c: &Case, o: &CallOut, what: &str) {
    let mut fails = 0;
    let mut last = o.describe();
    for _ in 0..3 {
        let exec = Exec::new(1);
        let slots = vec![c.slot];
        let l2 = Lab::start(1, &slots);
        if let Some(r) = &c.resp {
            l2.board.plan.lock().unwrap().insert(event_id(&slot(c.slot), &c.req).unwrap(), r.clone());
        }
        let o2 = exec.run(call(l2.addr(), c.slot, c.req.clone()), WATCHDOG);
        match o2 {
            Out::Ok(_) => {}
            Out::Err(_) if !c.must => {}
            o2 => {
                fails += 1;
                last = o2.describe();
            }
        }
    }
    let _ = lab;
    if fails == 3 {
        ctx.violate(
            "call-failed",
            format!("{}: call of {:?} with path {:?} query {:?} header {:?} body {} response {:?}: {}",
                what, slot(c.slot), c.req.path, c.req.query, c.req.header, short(&c.req.body),
                c.resp.as_ref().map(|r| (r.status, &r.header, r.body.len())), last),
        );
    } else {
        eprintln!("[{}] unreproduced failure ({}): {}", ctx.id, what, o.describe());
        ctx.count("unreproduced_failures", 1);
        if ctx.counter("unreproduced_failures") >= 6 {
            ctx.violate(
                "call-failed-sometimes",
                format!("{}: calls that must succeed fail repeatedly though not in isolation; last: {:?}: {}", what, slot(c.slot).ep, o.describe()),
            );
        }
    }
}

pub fn sample_case(ctx: &Ctx, c: &Case) {
    ctx.sample(json!({
        "entry_point": format!("{:?}", slot(c.slot).ep),
        "method": format!("{:?}", slot(c.slot).method),
        "path": format!("{:?}", c.req.path),
        "query": format!("{:?}", c.req.query),
        "header": format!("{:?}", c.req.header),
        "body_len": c.req.body.len(),
        "response": c.resp.as_ref().map(|r| format!("{} {:?} body {}", r.status, r.header, r.body.len())),
        "must_succeed": c.must,
    }));
}
pub fn pause(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
}
