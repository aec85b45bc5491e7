//! C05 responses, C15 problems, C17 codecs.
use crate::c_args::{par, plain_schema, problem_ok};
use crate::c_body::{id_req, id_schema};
use crate::ctx::Ctx;
use crate::dynp::*;
use crate::gen::{self, Alpha};
use crate::lab::*;
use crate::net::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::status::{name_of, TABLE};
use crate::trip::{self, next_id, Case, Via};
use futures::Future;
use htrpc::rfc7807::{Problem, ProblemResponse, TrackableProblem};
use htrpc::types::{EntryPoint, HttpMethod, HttpStatus, NeverFail, PathSegment};
use htrpc::{BodyReader, FutureExt, HandleRpc, Procedure, ReadBody, RpcClient, RpcRequest, RpcResponse};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn rsect(r: &mut Rng) -> Sect {
    match r.below(3) {
        0 => Sect::Absent,
        1 => Sect::Map,
        _ => {
            let mut names: Vec<&'static str> = gen::HEADER_NAMES.to_vec();
            r.shuffle(&mut names);
            names.truncate(r.range(1, 4));
            Sect::Struct(names.into_iter().map(|name| Field { name, ty: gen::ty(r), opt: r.chance(1, 3) }).collect())
        }
    }
}
fn rvals(r: &mut Rng, s: &Sect) -> Vals {
    match s {
        Sect::Absent => Vals::Absent,
        Sect::Map => Vals::Map(
            (0..r.below(4))
                .map(|i| (format!("x-{}", i), gen::string(r, Alpha::HeaderOk)))
                .collect(),
        ),
        Sect::Struct(f) => Vals::Struct(
            f.iter()
                .map(|f| if f.opt && r.chance(1, 2) { None } else { Some(gen::val(r, f.ty, Alpha::HeaderOk)) })
                .collect(),
        ),
    }
}

pub fn c05(ctx: &Ctx) -> &'static str {
    let cli = Exec::new(3);
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        if round % 8 == 1 {
            crate::shapes::run(ctx, &cli, crate::shapes::Part::Response, ctx.rng("shapes", round).next());
        }
        let mut r = ctx.rng("round", round);
        // Slots: 0 numeric, 1 numeric with headers, 2 all alternatives as unit, 3 all with headers,
        // 4.. random subsets of alternatives.
        for n in 0..10 {
            let mut sc = id_schema(n);
            sc.resp = match n {
                0 => RespShape::Num(Sect::Absent),
                1 => RespShape::Num(rsect(&mut r)),
                2 => RespShape::Named(TABLE.iter().map(|t| (t.0, Sect::Absent)).collect()),
                3 => RespShape::Named(TABLE.iter().map(|t| (t.0, rsect(&mut r))).collect()),
                _ => {
                    let mut t: Vec<u16> = TABLE.iter().map(|t| t.0).collect();
                    r.shuffle(&mut t);
                    t.truncate(r.range(1, 6));
                    RespShape::Named(t.into_iter().map(|s| (s, rsect(&mut r))).collect())
                }
            };
            set_slot(n, sc);
        }
        let slots: Vec<usize> = (0..10).collect();
        let lab = Lab::start(r.range(1, 3), &slots);
        let mut all: Vec<Case> = Vec::new();
        for n in 0..10 {
            let list: Vec<(u16, Sect)> = match &slot(n).resp {
                RespShape::Num(s) => TABLE.iter().map(|t| (t.0, s.clone())).collect(),
                RespShape::Named(v) => v.clone(),
            };
            for (status, s) in list {
                let header = rvals(&mut r, &s);
                let blen = *r.pick(&[0, 0, 1, 20, 1024, 5000]);
                let body = r.bytes(blen);
                let key = format!("{} {} {:?} {}", n.min(4), status, header, blen);
                all.push(Case {
                    slot: n,
                    req: id_req(next_id(), vec![]),
                    resp: Some(RespVal { status, header, body }),
                    must: true,
                    key,
                });
            }
        }
        r.shuffle(&mut all);
        if round == 1 {
            for c in &all[..4] {
                trip::sample_case(ctx, c);
            }
        }
        for chunk in all.chunks(48) {
            trip::run(ctx, &cli, &lab, chunk, &Via::Single, "response round trip");
        }
        // The code on the wire, seen by a raw client.
        let base = r.next();
        par(4, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            let mut conn: Option<Conn> = None;
            for k in 0..60 {
                let n = r.below(10);
                let (status, s) = match &slot(n).resp {
                    RespShape::Num(s) => (TABLE[(k * 4 + t) % TABLE.len()].0, s.clone()),
                    RespShape::Named(v) => r.pick(v).clone(),
                };
                let id = next_id();
                let header = rvals(&mut r, &s);
                let bl = r.below(50);
                let body = r.bytes(bl);
                lab.board.plan.lock().unwrap().insert(id, RespVal { status, header, body: body.clone() });
                for attempt in 0..3 {
                    if conn.is_none() {
                        conn = Conn::connect(lab.addr()).ok();
                    }
                    let c = match conn.as_mut() {
                        Some(c) => c,
                        None => continue,
                    };
                    c.send(&http_request("PUT", &format!("/t{}/{}", n, id), &[], b""));
                    match c.response(false) {
                        Recv::Msg(m) => {
                            ctx.eval(&format!("wire {} {}", n.min(4), status));
                            ctx.count("wire_statuses", 1);
                            if m.status() != status {
                                ctx.violate("wire-status", format!("the handler returned {} ({:?}), the wire says {}", status, name_of(status), m.status()));
                            }
                            if m.body != body {
                                ctx.violate("wire-body", format!("status {}: body differs on the wire", status));
                            }
                            break;
                        }
                        o => {
                            conn = None;
                            if attempt == 2 {
                                ctx.violate("no-response", format!("handler response {} {:?}: {}", status, slot(n).resp, o.describe()));
                            }
                        }
                    }
                }
                lab.board.plan.lock().unwrap().remove(&id);
            }
        });
        watch(ctx, &lab, "responses");
        lab.board.take();
        // A peer that answers with statuses the caller's type does not provide for.
        let codes: Vec<u16> = (0..40)
            .map(|_| match r.below(3) {
                0 => r.pick(TABLE).0,
                1 => r.range(100, 999) as u16,
                _ => *r.pick(&[99, 199, 218, 299, 306, 419, 420, 430, 499, 509, 520, 599, 600, 999]),
            })
            .collect();
        let fake = Fake::start(move |_, mut c| {
            if let Recv::Msg(m) = c.request() {
                // the code to answer with is in the body
                let code = u16::from_le_bytes([m.body[0], m.body[1]]);
                c.send(&http_response(code, &[("x-0", "v")], b"body"));
                let _ = c.drain(Duration::from_secs(2));
            }
        });
        let mut pend = Vec::new();
        for code in codes {
            let n = r.below(10);
            let f = call(fake.addr, n, id_req(1, code.to_le_bytes().to_vec()));
            pend.push((n, code, cli.start(f)));
        }
        for (n, code, p) in pend {
            let o = p.wait(WATCHDOG);
            let provided = match &slot(n).resp {
                RespShape::Num(_) => true,
                RespShape::Named(v) => v.iter().any(|a| a.0 == code),
            };
            ctx.eval(&format!("peer {} {} {}", n, code, provided));
            match o {
                Out::Ok(got) => {
                    ctx.count("peer_status_accepted", 1);
                    if got.status != code || !provided {
                        ctx.violate("undeclared-accepted", format!("the peer answered {}, the caller (alternatives {:?}) obtained {} ({:?})", code, slot(n).resp, got.status, name_of(got.status)));
                    }
                    if got.body != b"body" {
                        ctx.violate("response-body-altered", format!("peer answered {} with body \"body\", caller got {} bytes", code, got.body.len()));
                    }
                }
                Out::Err(_) => {
                    ctx.count("peer_status_refused", 1);
                    // Known status, no required header: has to be accepted.
                    let simple = match &slot(n).resp {
                        RespShape::Num(Sect::Absent) => name_of(code).is_some(),
                        RespShape::Named(v) => v.iter().any(|a| a.0 == code && !matches!(a.1, Sect::Struct(_))),
                        _ => false,
                    };
                    if simple {
                        // once more before believing it
                        match cli.run(call(fake.addr, n, id_req(1, code.to_le_bytes().to_vec())), WATCHDOG) {
                            Out::Ok(_) => ctx.count("unreproduced", 1),
                            o => ctx.violate("declared-refused", format!("the peer answered {} which {:?} provides for: {}", code, slot(n).resp, o.describe())),
                        }
                    }
                }
                o => ctx.violate("stalled", format!("status {}: {}", code, o.describe())),
            }
        }
        report_panics(ctx, "status matrix");
    }
    "one case = one response with a distinct (response shape, status, headers, body size): all 57 statuses as number, unit and struct alternatives by the real client, on the raw wire, and answered by a foreign peer incl. unknown codes and undeclared alternatives"
}

// ---------------------------------------------------------------- static procedures

fn seg(s: &'static [PathSegment]) -> EntryPoint {
    EntryPoint::new(s)
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct CodeReq {
    path: (u64,),
}
impl RpcRequest for CodeReq {
    fn body(&mut self) -> Vec<u8> {
        vec![]
    }
    fn read_body(self, b: BodyReader) -> ReadBody<Self> {
        Box::new(futures::finished((b, self)))
    }
}
/// Response that is a problem.
struct DirectProblem;
impl Procedure for DirectProblem {
    type Request = CodeReq;
    type Response = ProblemResponse;
    fn method() -> HttpMethod {
        HttpMethod::Get
    }
    fn entry_point() -> EntryPoint {
        seg(&[PathSegment::Val("direct"), PathSegment::Var])
    }
}
/// Response alternatives of which some are problems.
#[derive(Serialize, Deserialize, Debug)]
enum MaybeProblem {
    Ok {
        #[serde(skip)]
        body: Vec<u8>,
    },
    BadRequest(ProblemResponse),
    NotFound(ProblemResponse),
    MethodNotAllowed(ProblemResponse),
    Conflict(ProblemResponse),
    ImATeapot(ProblemResponse),
    InternalServerError(ProblemResponse),
    ServiceUnavailable(ProblemResponse),
}
impl MaybeProblem {
    fn problem(&self) -> Option<(u16, &ProblemResponse)> {
        Some(match self {
            MaybeProblem::Ok { .. } => return None,
            MaybeProblem::BadRequest(p) => (400, p),
            MaybeProblem::NotFound(p) => (404, p),
            MaybeProblem::MethodNotAllowed(p) => (405, p),
            MaybeProblem::Conflict(p) => (409, p),
            MaybeProblem::ImATeapot(p) => (418, p),
            MaybeProblem::InternalServerError(p) => (500, p),
            MaybeProblem::ServiceUnavailable(p) => (503, p),
        })
    }
    fn of(code: u16, p: ProblemResponse) -> Option<MaybeProblem> {
        Some(match code {
            400 => MaybeProblem::BadRequest(p),
            404 => MaybeProblem::NotFound(p),
            405 => MaybeProblem::MethodNotAllowed(p),
            409 => MaybeProblem::Conflict(p),
            418 => MaybeProblem::ImATeapot(p),
            500 => MaybeProblem::InternalServerError(p),
            503 => MaybeProblem::ServiceUnavailable(p),
            _ => return None,
        })
    }
}
impl RpcResponse for MaybeProblem {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        match self {
            MaybeProblem::Ok { body } => Box::new(std::mem::take(body)),
            MaybeProblem::BadRequest(p)
            | MaybeProblem::NotFound(p)
            | MaybeProblem::MethodNotAllowed(p)
            | MaybeProblem::Conflict(p)
            | MaybeProblem::ImATeapot(p)
            | MaybeProblem::InternalServerError(p)
            | MaybeProblem::ServiceUnavailable(p) => p.body(),
        }
    }
    fn set_body(&mut self, b: Vec<u8>) {
        match self {
            MaybeProblem::Ok { body } => *body = b,
            MaybeProblem::BadRequest(p)
            | MaybeProblem::NotFound(p)
            | MaybeProblem::MethodNotAllowed(p)
            | MaybeProblem::Conflict(p)
            | MaybeProblem::ImATeapot(p)
            | MaybeProblem::InternalServerError(p)
            | MaybeProblem::ServiceUnavailable(p) => p.set_body(b),
        }
    }
}
struct AltProblem;
impl Procedure for AltProblem {
    type Request = CodeReq;
    type Response = MaybeProblem;
    fn method() -> HttpMethod {
        HttpMethod::Get
    }
    fn entry_point() -> EntryPoint {
        seg(&[PathSegment::Val("alt"), PathSegment::Var])
    }
}
/// Client-side twins that are not registered, or whose arguments the server refuses.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct TextReq {
    path: (String,),
}
impl RpcRequest for TextReq {
    fn body(&mut self) -> Vec<u8> {
        b"some body".to_vec()
    }
    fn read_body(self, b: BodyReader) -> ReadBody<Self> {
        Box::new(futures::finished((b, self)))
    }
}
struct BadArgs;
impl Procedure for BadArgs {
    type Request = TextReq;
    type Response = MaybeProblem;
    fn method() -> HttpMethod {
        HttpMethod::Get
    }
    fn entry_point() -> EntryPoint {
        seg(&[PathSegment::Val("alt"), PathSegment::Var])
    }
}
struct Unrouted;
impl Procedure for Unrouted {
    type Request = TextReq;
    type Response = MaybeProblem;
    fn method() -> HttpMethod {
        HttpMethod::Post
    }
    fn entry_point() -> EntryPoint {
        seg(&[PathSegment::Val("nowhere"), PathSegment::Var])
    }
}
struct WrongMethod;
impl Procedure for WrongMethod {
    type Request = TextReq;
    type Response = ProblemResponse;
    fn method() -> HttpMethod {
        HttpMethod::Post
    }
    fn entry_point() -> EntryPoint {
        seg(&[PathSegment::Val("alt"), PathSegment::Var])
    }
}

#[derive(Clone)]
struct PlanH(Arc<Mutex<BTreeMap<u64, (u16, Option<String>)>>>);
fn status_of(code: u16) -> Option<HttpStatus> {
    // Independent of the library's own tables.
    let all = [
        HttpStatus::Continue, HttpStatus::SwitchingProtocols, HttpStatus::Processing, HttpStatus::Ok, HttpStatus::Created, HttpStatus::Accepted,
        HttpStatus::NonAuthoritativeInformation, HttpStatus::NoContent, HttpStatus::ResetContent, HttpStatus::PartialContent,
        HttpStatus::MultiStatus, HttpStatus::AlreadyReported, HttpStatus::ImUsed, HttpStatus::MultipleChoices, HttpStatus::MovedPermanently,
        HttpStatus::Found, HttpStatus::SeeOther, HttpStatus::NotModified, HttpStatus::UseProxy, HttpStatus::TemporaryRedirect,
        HttpStatus::PermanentRedirect, HttpStatus::BadRequest, HttpStatus::Unauthorized, HttpStatus::PaymentRequired, HttpStatus::Forbidden,
        HttpStatus::NotFound, HttpStatus::MethodNotAllowed, HttpStatus::NotAcceptable, HttpStatus::ProxyAuthenticationRequired,
        HttpStatus::RequestTimeout, HttpStatus::Conflict, HttpStatus::Gone, HttpStatus::LengthRequired, HttpStatus::PreconditionFailed,
        HttpStatus::PayloadTooLarge, HttpStatus::UriTooLong, HttpStatus::UnsupportedMediaType, HttpStatus::RangeNotSatisfiable,
        HttpStatus::ExceptionFailed, HttpStatus::ImATeapot, HttpStatus::MisdirectedRequest, HttpStatus::UnprocessableEntity, HttpStatus::Locked,
        HttpStatus::FailedDependency, HttpStatus::UpgradeRequired, HttpStatus::UnavailableForLegalReasons, HttpStatus::InternalServerError,
        HttpStatus::NotImplemented, HttpStatus::BadGateway, HttpStatus::ServiceUnavailable, HttpStatus::GatewayTimeout,
        HttpStatus::HttpVersionNotSupported, HttpStatus::VariantAlsoNegotiates, HttpStatus::InsufficientStorage, HttpStatus::LoopDetected,
        HttpStatus::BandwidthLimitExceeded, HttpStatus::NotExtended,
    ];
    all.iter().find(|s| s.code() == code).cloned()
}
fn error_of(cause: &str) -> htrpc::Error {
    use trackable::error::ErrorKindExt;
    let e: htrpc::Error = match cause.len() % 4 {
        0 => htrpc::ErrorKind::Other.cause(cause.to_owned()).into(),
        1 => htrpc::ErrorKind::Invalid.cause(cause.to_owned()).into(),
        2 => trackable::track!(htrpc::Error::from(htrpc::ErrorKind::Invalid.cause(cause.to_owned()))),
        _ => {
            let mut e = trackable::track!(htrpc::Error::from(htrpc::ErrorKind::Other.cause(cause.to_owned())));
            for _ in 0..cause.len() % 31 {
                e = trackable::track!(e, "again {}", cause.len());
            }
            e
        }
    };
    e
}
/// The problem a plan entry denotes.
fn problem_of(code: u16, kind: &Option<String>) -> Problem {
    let st = status_of(code).expect("status");
    match kind {
        None => Problem::about_blank(st),
        Some(c) if c.starts_with("manual:") => {
            let mut p = TrackableProblem::new(st, error_of(c));
            p.detail = Some(c.clone());
            p.history = None;
            if c.len() % 3 == 0 {
                p.instance = instance_of(c);
            }
            p.into()
        }
        Some(c) if c.starts_with("own:") => Problem::trackable(st, own_error(c)),
        Some(c) => Problem::trackable(st, error_of(c)),
    }
}
#[derive(Debug)]
struct OwnEvent(String);
impl From<trackable::Location> for OwnEvent {
    fn from(l: trackable::Location) -> Self {
        OwnEvent(l.to_string())
    }
}
impl std::fmt::Display for OwnEvent {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
/// An application's own tracked error type: with or without a source, with or without history.
#[derive(Debug)]
struct OwnError {
    text: String,
    source: Option<Box<OwnError>>,
    history: Option<trackable::History<OwnEvent>>,
}
impl std::fmt::Display for OwnError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.text)
    }
}
impl std::error::Error for OwnError {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|e| &**e as _)
    }
}
impl trackable::Trackable for OwnError {
    type Event = OwnEvent;
    fn history(&self) -> Option<&trackable::History<OwnEvent>> {
        self.history.as_ref()
    }
    fn history_mut(&mut self) -> Option<&mut trackable::History<OwnEvent>> {
        self.history.as_mut()
    }
}
fn own_error(c: &str) -> OwnError {
    let n = c.len();
    let source = match n % 3 {
        0 => None,
        1 => Some(Box::new(OwnError { text: format!("because of {}", c), source: None, history: None })),
        _ => Some(Box::new(OwnError {
            text: c.chars().rev().collect(),
            source: Some(Box::new(OwnError { text: "deeper".into(), source: None, history: None })),
            history: None,
        })),
    };
    let history = if n % 4 == 0 {
        None
    } else {
        let mut h = trackable::History::new();
        let long = if n % 7 == 0 { 10 + n * n % 150 } else { 0 };
        for i in 0..n % 5 + long {
            h.add(OwnEvent(format!("event {} of\n{}", i, c)));
        }
        Some(h)
    };
    OwnError { text: c.to_owned(), source, history }
}
fn instance_of(c: &str) -> Option<url::Url> {
    let mut u = url::Url::parse("https://example.com/problems").unwrap();
    u.path_segments_mut().unwrap().push(c);
    Some(u)
}
/// What a problem built that way has to look like, independently of the library's types.
fn expected_json(code: u16, kind: &Option<String>) -> serde_json::Value {
    use std::error::Error as _;
    use trackable::Trackable;
    match kind {
        None => json!({
            "type": "about:blank",
            // (the HTTP library's own phrase for 422 is misspelled)
            "title": if code == 422 { status_of(code).unwrap().reason_phrase() } else { TABLE.iter().find(|t| t.0 == code).map(|t| t.2).unwrap_or("") },
            "status": code,
        }),
        Some(c) if c.starts_with("own:") => {
            let e = own_error(c);
            let mut o = json!({
                "type": "https://docs.rs/htrpc/0.0.2/htrpc/rfc7807/struct.TrackableProblem.html",
                "title": c,
                "status": code,
            });
            if let Some(d) = e.source {
                o["detail"] = json!(d.text);
            }
            if let Some(h) = e.history {
                o["history"] = json!(h.events().iter().map(|e| e.0.clone()).collect::<Vec<_>>());
            }
            o
        }
        Some(c) => {
            let e = error_of(c);
            let mut o = json!({
                "type": "https://docs.rs/htrpc/0.0.2/htrpc/rfc7807/struct.TrackableProblem.html",
                "title": e.to_string(),
                "status": code,
            });
            if c.starts_with("manual:") {
                o["detail"] = json!(c);
                if c.len() % 3 == 0 {
                    o["instance"] = json!(instance_of(c).unwrap().as_str());
                }
            } else {
                if let Some(d) = e.source() {
                    o["detail"] = json!(d.to_string());
                }
                if let Some(h) = e.history() {
                    o["history"] = json!(h.events().iter().map(|e| e.to_string()).collect::<Vec<_>>());
                }
            }
            o
        }
    }
}
impl HandleRpc<DirectProblem> for PlanH {
    type Future = Box<dyn Future<Item = ProblemResponse, Error = NeverFail> + Send>;
    fn handle_rpc(self, r: CodeReq) -> Self::Future {
        let (code, kind) = self.0.lock().unwrap().get(&r.path.0).cloned().unwrap_or((500, None));
        let resp = if r.path.0 % 3 == 0 {
            // a response whose problem was replaced
            let mut resp = Problem::about_blank(HttpStatus::InternalServerError).into_response();
            resp.set_problem(problem_of(code, &kind));
            resp
        } else {
            problem_of(code, &kind).into_response()
        };
        Box::new(futures::finished(resp))
    }
}
impl HandleRpc<AltProblem> for PlanH {
    type Future = Box<dyn Future<Item = MaybeProblem, Error = NeverFail> + Send>;
    fn handle_rpc(self, r: CodeReq) -> Self::Future {
        let (code, kind) = self.0.lock().unwrap().get(&r.path.0).cloned().unwrap_or((500, None));
        let p = if code == 200 {
            MaybeProblem::Ok { body: b"fine".to_vec() }
        } else {
            let mut resp = problem_of(code, &kind).into_response();
            if r.path.0 % 3 == 0 {
                resp = Problem::about_blank(HttpStatus::Gone).into_response();
                resp.set_problem(problem_of(code, &kind));
            }
            MaybeProblem::of(code, resp).expect("alternative")
        };
        Box::new(futures::finished(p))
    }
}

fn as_json(p: &Problem) -> serde_json::Value {
    serde_json::to_value(p).unwrap_or(json!("unserializable"))
}
/// Same problem, apart from the history entries which name source locations.
fn same_problem(want: &Problem, got: &Problem) -> Result<(), String> {
    let (a, b) = (as_json(want), as_json(got));
    if a != b {
        return Err(format!("returned {}, received {}", a, b));
    }
    Ok(())
}

pub fn c15(ctx: &Ctx) -> &'static str {
    let cli = Exec::new(2);
    let plan = Arc::new(Mutex::new(BTreeMap::new()));
    let alts: Vec<u16> = vec![400, 404, 405, 409, 418, 500, 503];
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        let mut r = ctx.rng("round", round);
        let p2 = plan.clone();
        let server = Server::start(r.range(1, 3), |b| {
            b.register(PlanH(p2.clone()), DirectProblem).unwrap();
            b.register(PlanH(p2.clone()), AltProblem).unwrap();
        });
        let kind = |r: &mut Rng| match r.below(4) {
            0 => None,
            1 if r.chance(1, 2) => Some(format!("own:{}", gen::string(r, Alpha::Any))),
            1 => Some(format!("manual:{}", gen::string(r, Alpha::Any))),
            _ => Some(gen::string(r, Alpha::Any)),
        };
        // all statuses, direct
        let mut pend = Vec::new();
        for t in TABLE {
            let id = next_id();
            let k = kind(&mut r);
            plan.lock().unwrap().insert(id, (t.0, k.clone()));
            pend.push((t.0, k, id, cli.start(RpcClient::new(server.addr).call::<DirectProblem>(CodeReq { path: (id,) }).map(|p| p))));
        }
        for (code, k, id, p) in pend {
            let want = problem_of(code, &k);
            let ind = expected_json(code, &k);
            if as_json(&want) != ind {
                ctx.violate("problem-content", format!("the problem for {} {:?} is {} instead of {}", code, k, as_json(&want), ind));
            }
            let mut o = p.wait(WATCHDOG);
            if !o.is_ok() {
                o = cli.run(RpcClient::new(server.addr).call::<DirectProblem>(CodeReq { path: (id,) }), WATCHDOG);
            }
            ctx.eval(&format!("direct {} {:?}", code, k));
            match o {
                Out::Ok(got) => {
                    ctx.count("direct_round_trips", 1);
                    if let Err(e) = same_problem(&want, got.problem()) {
                        ctx.violate("problem-altered", format!("direct response {}: {}", code, e));
                    }
                }
                o => ctx.violate("problem-lost", format!("a problem response with status {} ({:?}) cannot be received: {}", code, k, o.describe())),
            }
        }
        // as alternatives
        let mut pend = Vec::new();
        for code in alts.iter().chain(&[200u16]) {
            let id = next_id();
            let k = kind(&mut r);
            plan.lock().unwrap().insert(id, (*code, k.clone()));
            pend.push((*code, k, id, cli.start(RpcClient::new(server.addr).call::<AltProblem>(CodeReq { path: (id,) }))));
        }
        for (code, k, id, p) in pend {
            let mut o = p.wait(WATCHDOG);
            if !o.is_ok() {
                o = cli.run(RpcClient::new(server.addr).call::<AltProblem>(CodeReq { path: (id,) }), WATCHDOG);
            }
            ctx.eval(&format!("alt {} {:?}", code, k));
            match o {
                Out::Ok(MaybeProblem::Ok { body }) => {
                    if code != 200 || body != b"fine" {
                        ctx.violate("problem-alternative", format!("{} received as Ok", code));
                    }
                }
                Out::Ok(mp) => {
                    ctx.count("alternative_round_trips", 1);
                    let (c, p) = mp.problem().unwrap();
                    if c != code {
                        ctx.violate("problem-alternative", format!("alternative {} received as {}", code, c));
                    } else if let Err(e) = same_problem(&problem_of(code, &k), p.problem()) {
                        ctx.violate("problem-altered", format!("alternative {}: {}", code, e));
                    }
                }
                o => ctx.violate("problem-lost", format!("alternative {} ({:?}): {}", code, k, o.describe())),
            }
        }
        // built-in problems through the real client
        for _ in 0..4 {
            let s = format!("x{}", gen::string(&mut r, Alpha::HeaderOk));
            let o = cli.run(RpcClient::new(server.addr).call::<BadArgs>(TextReq { path: (s.clone(),) }), WATCHDOG);
            builtin(ctx, o, 400, "Bad Request");
            let o = cli.run(RpcClient::new(server.addr).call::<Unrouted>(TextReq { path: (s.clone(),) }), WATCHDOG);
            builtin(ctx, o, 404, "Not Found");
            match cli.run(RpcClient::new(server.addr).call::<WrongMethod>(TextReq { path: (s.clone(),) }), WATCHDOG) {
                Out::Ok(p) => {
                    let v = as_json(p.problem());
                    ctx.eval("builtin 405 direct");
                    if v != json!({"type": "about:blank", "title": "Method Not Allowed", "status": 405}) {
                        ctx.violate("builtin-problem", format!("405 received as {}", v));
                    }
                }
                o => ctx.violate("builtin-problem-lost", format!("405: {}", o.describe())),
            }
        }
        // from another implementation: the same document written differently, with extension
        // members (which RFC 7807 says to ignore)
        let answers: Arc<Mutex<BTreeMap<u64, (u16, Vec<u8>)>>> = Arc::default();
        let a2 = answers.clone();
        let fake = Fake::start(move |_, mut c| {
            while let Recv::Msg(m) = c.request() {
                let id: u64 = m.start.1.split('/').nth(2).unwrap_or("").parse().unwrap_or(0);
                let (code, body) = a2.lock().unwrap().get(&id).cloned().unwrap_or((500, vec![]));
                if !c.send(&http_response(code, &[("Content-Type", "application/problem+json")], &body)) {
                    return;
                }
            }
        });
        for _ in 0..6 {
            let id = next_id();
            let k = kind(&mut r);
            let code = r.pick(TABLE).0;
            if code < 200 {
                continue;
            }
            let want = expected_json(code, &k);
            let mut members: Vec<(String, serde_json::Value)> = want.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            for e in 0..r.below(4) {
                let name = r.pick(&["balance", "accounts", "invalid-params", "code", "Type", "status_code", "errors", "x"]);
                let v = match e {
                    0 => json!(gen::string(&mut r, Alpha::Any)),
                    1 => json!([1, {"a": null}]),
                    _ => json!({"nested": {"title": "no", "status": 1}}),
                };
                if !members.iter().any(|m| m.0 == *name) {
                    members.push((name.to_string(), v));
                }
            }
            r.shuffle(&mut members);
            let (a, b) = *r.pick(&[("", ""), ("\n  ", " "), (" \t\r\n ", "\n")]);
            let text: Vec<String> = members.iter().map(|(k, v)| format!("{}{}:{}{}", a, json!(k), b, v)).collect();
            let body = format!("{}{{{}{}}}{}", b, text.join(","), b, b);
            answers.lock().unwrap().insert(id, (code, body.clone().into_bytes()));
            let mut o = cli.run(RpcClient::new(fake.addr).call::<DirectProblem>(CodeReq { path: (id,) }), WATCHDOG);
            if !o.is_ok() {
                o = cli.run(RpcClient::new(fake.addr).call::<DirectProblem>(CodeReq { path: (id,) }), WATCHDOG);
            }
            ctx.eval(&format!("foreign {}", body));
            ctx.count("foreign_problems", 1);
            match o {
                Out::Ok(p) => {
                    if as_json(p.problem()) != want {
                        ctx.violate("foreign-problem-altered", format!("the problem {} was received as {}", body, as_json(p.problem())));
                    }
                }
                o => ctx.violate("foreign-problem-lost", format!("the problem {}: {}", body, o.describe())),
            }
        }
        // on the wire
        let base = r.next();
        par(3, |t| {
            let mut r = Rng::derive(base, "t", t as u64);
            let mut c = match Conn::connect(server.addr) {
                Ok(c) => c,
                Err(_) => return,
            };
            for k in 0..40 {
                let (method, target, code, want): (&str, String, u16, Option<Problem>) = match r.below(6) {
                    0 => ("GET", "/alt/x".into(), 400, None),
                    1 => ("GET", format!("/nope/{}", k), 404, Some(Problem::about_blank(HttpStatus::NotFound))),
                    2 => ("POST", "/alt/1".into(), 405, Some(Problem::about_blank(HttpStatus::MethodNotAllowed))),
                    x => {
                        let id = next_id();
                        let kd = kind(&mut r);
                        let code = if x == 3 { *r.pick(&alts) } else { r.pick(TABLE).0 };
                        plan.lock().unwrap().insert(id, (code, kd.clone()));
                        ("GET", format!("/{}/{}", if x == 3 { "alt" } else { "direct" }, id), code, Some(problem_of(code, &kd)))
                    }
                };
                c.send(&http_request(method, &target, &[], b"abc"));
                match c.response(false) {
                    Recv::Msg(m) => {
                        ctx.eval(&format!("wire {} {}", code, String::from_utf8_lossy(&m.body)));
                        ctx.count("wire_problems", 1);
                        if m.status() != code {
                            ctx.violate("problem-wire-status", format!("{} {}: status {} instead of {}", method, target, m.status(), code));
                        }
                        if let Err(e) = problem_ok(&m, code) {
                            ctx.violate("problem-wire", format!("{} {}: {}", method, target, e));
                        } else if let Some(w) = want {
                            let got: serde_json::Value = serde_json::from_slice(&m.body).unwrap();
                            if got != as_json(&w) {
                                ctx.violate("problem-wire-body", format!("{} {}: body {} instead of {}", method, target, got, as_json(&w)));
                            }
                            if got["type"] == "about:blank" {
                                let phrase = TABLE.iter().find(|t| t.0 == code).map(|t| t.2).unwrap_or("");
                                // (the HTTP library's own phrase for 422 is misspelled)
                                if got["title"] != phrase && code != 422 {
                                    ctx.violate("problem-title", format!("about:blank problem {} is titled {} instead of {:?}", code, got["title"], phrase));
                                }
                            }
                            if round == 1 {
                                ctx.sample(json!({"request": format!("{} {}", method, target), "status": m.status(), "body": got}));
                            }
                        }
                    }
                    o => {
                        ctx.count("no_response", 1);
                        if ctx.counter("no_response") >= 3 {
                            ctx.violate("no-response", format!("{} {}: {}", method, target, o.describe()));
                        }
                        return;
                    }
                }
            }
        });
        if !server.healthy() {
            ctx.violate("server-ended", "during problems".into());
        }
        report_panics(ctx, "problems");
        plan.lock().unwrap().clear();
    }
    "one case = one problem response with a distinct (status, kind, cause text): all 57 statuses, about:blank and tracked, direct and as enum alternative, handler-made and built-in (400/404/405), by the real client and on the raw wire"
}
fn builtin(ctx: &Ctx, o: Out<MaybeProblem, htrpc::Error>, code: u16, phrase: &str) {
    ctx.eval(&format!("builtin {}", code));
    match o {
        Out::Ok(mp) => match mp.problem() {
            Some((c, p)) => {
                let v = as_json(p.problem());
                let ty_ok = if code == 400 { v["type"].as_str().unwrap_or("").ends_with("TrackableProblem.html") } else { v["type"] == "about:blank" && v["title"] == phrase };
                if c != code || v["status"] != json!(code) || !ty_ok {
                    ctx.violate("builtin-problem", format!("built-in {} received as {} {}", code, c, v));
                }
            }
            None => ctx.violate("builtin-problem", format!("built-in {} received as Ok", code)),
        },
        o => ctx.violate("builtin-problem-lost", format!("built-in {}: {}", code, o.describe())),
    }
}

// ---------------------------------------------------------------- codecs

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Shape {
    Unit,
    New(i32),
    Tup(u8, String),
    Rec { a: Option<bool>, b: Vec<u16> },
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Doc {
    i: i64,
    u: u64,
    f: f64,
    b: bool,
    s: String,
    o: Option<String>,
    v: Vec<String>,
    m: BTreeMap<String, i32>,
    e: Shape,
    n: Option<Box<Doc>>,
    t: (u8, i8, char),
}
fn json_exact(f: f64) -> bool {
    let t = serde_json::to_string(&f).unwrap_or_default();
    serde_json::from_str::<f64>(&t).map(|g| g.to_bits() == f.to_bits()).unwrap_or(false)
}
fn doc(r: &mut Rng, depth: usize) -> Doc {
    let f = match gen::val(r, Ty::F64, Alpha::Any) {
        // The JSON parser the helpers are built on is not exact in the last place for every f64;
        // only values it decodes exactly are in the domain.
        Val::F64(f) if f.is_finite() && json_exact(f) => f,
        Val::F64(f) if f.is_finite() => ((f.to_bits() & 0xfffff) as f64 - 524288.0) / 1024.0,
        _ => 1.5,
    };
    let (i, u) = match (gen::val(r, Ty::I64, Alpha::Any), gen::val(r, Ty::U64, Alpha::Any)) {
        (Val::I64(i), Val::U64(u)) => (i, u),
        _ => (0, 0),
    };
    Doc {
        i,
        u,
        f,
        b: r.chance(1, 2),
        s: gen::string(r, Alpha::Any),
        o: if r.chance(1, 2) { Some(gen::string(r, Alpha::Any)) } else { None },
        v: (0..r.below(4)).map(|_| gen::string(r, Alpha::Any)).collect(),
        m: (0..r.below(4)).map(|i| (gen::string(r, Alpha::Any), i as i32 - 2)).collect(),
        e: match r.below(4) {
            0 => Shape::Unit,
            1 => Shape::New(r.next() as i32),
            2 => Shape::Tup(r.next() as u8, gen::string(r, Alpha::Any)),
            _ => Shape::Rec { a: *r.pick(&[None, Some(true), Some(false)]), b: (0..r.below(5)).map(|_| r.next() as u16).collect() },
        },
        n: if depth > 0 && r.chance(1, 3) { Some(Box::new(doc(r, depth - 1))) } else { None },
        t: (r.next() as u8, r.next() as i8, *r.pick(&['a', '"', '\\', '\n', '日', '🦀', '\0'])),
    }
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct CodecQuery {
    #[serde(with = "htrpc::json")]
    j: Doc,
    #[serde(with = "htrpc::json_pretty")]
    p: Doc,
    #[serde(with = "htrpc::json")]
    list: Vec<u32>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct CodecHeader {
    #[serde(rename = "x-json", with = "htrpc::json")]
    j: Vec<i64>,
    #[serde(rename = "x-opt", with = "htrpc::json")]
    o: Option<u8>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct CodecPath(u64, #[serde(with = "htrpc::json")] Doc);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct CodecReq {
    path: CodecPath,
    query: CodecQuery,
    header: CodecHeader,
}
impl RpcRequest for CodecReq {
    fn body(&mut self) -> Vec<u8> {
        b"x".to_vec()
    }
    fn read_body(self, b: BodyReader) -> ReadBody<Self> {
        Box::new(b.read_all_bytes().map_err(htrpc::Error::from).map(move |(b, _)| (b, self)))
    }
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct CodecRespHeader {
    #[serde(rename = "x-json", with = "htrpc::json")]
    j: Shape,
    #[serde(rename = "x-list", with = "htrpc::json")]
    l: Vec<Option<i32>>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct CodecResp {
    status: u16,
    header: CodecRespHeader,
}
impl RpcResponse for CodecResp {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(Vec::new())
    }
    fn set_body(&mut self, _: Vec<u8>) {}
}
struct CodecProc;
impl Procedure for CodecProc {
    type Request = CodecReq;
    type Response = CodecResp;
    fn method() -> HttpMethod {
        HttpMethod::Put
    }
    fn entry_point() -> EntryPoint {
        seg(&[PathSegment::Val("codec"), PathSegment::Var, PathSegment::Var])
    }
}
#[derive(Clone)]
struct CodecH(Arc<Mutex<Vec<CodecReq>>>, Arc<Mutex<BTreeMap<u64, CodecResp>>>);
impl HandleRpc<CodecProc> for CodecH {
    type Future = Box<dyn Future<Item = CodecResp, Error = NeverFail> + Send>;
    fn handle_rpc(self, r: CodecReq) -> Self::Future {
        let resp = self.1.lock().unwrap().get(&r.path.0).cloned().unwrap_or(CodecResp {
            status: 200,
            header: CodecRespHeader { j: Shape::Unit, l: vec![] },
        });
        self.0.lock().unwrap().push(r);
        Box::new(futures::finished(resp))
    }
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Wrap<T: Serialize + for<'a> Deserialize<'a>> {
    #[serde(with = "htrpc::json", bound = "")]
    j: T,
    #[serde(with = "htrpc::json_pretty", bound = "")]
    p: T,
    #[serde(with = "htrpc::msgpack", bound = "")]
    m: T,
}
fn codec_direct<T>(ctx: &Ctx, v: T)
where
    T: Serialize + for<'a> Deserialize<'a> + Clone + std::fmt::Debug + PartialEq,
{
    let w = Wrap { j: v.clone(), p: v.clone(), m: v.clone() };
    ctx.eval(&format!("direct {:?}", v));
    // Carried inside another format: JSON text for strings and numbers, MessagePack for bytes.
    match serde_json::to_string(&w) {
        Err(e) => ctx.violate("codec-encode", format!("{:?}: {}", v, e)),
        Ok(s) => match serde_json::from_str::<Wrap<T>>(&s) {
            Ok(b) if b == w => ctx.count("direct_round_trips", 1),
            Ok(b) => ctx.violate("codec-altered", format!("{:?} decoded as {:?}", w, b)),
            Err(e) => ctx.violate("codec-decode", format!("{:?} encoded as {} does not decode: {}", v, s, e)),
        },
    }
    match serdeconv::to_msgpack_vec(&w) {
        Err(e) => ctx.violate("codec-encode", format!("{:?}: {}", v, e)),
        Ok(s) => match serdeconv::from_msgpack_slice::<Wrap<T>>(&s) {
            Ok(b) if b == w => {}
            Ok(b) => ctx.violate("codec-altered", format!("{:?} decoded as {:?} (in MessagePack)", w, b)),
            Err(e) => ctx.violate("codec-decode", format!("{:?} does not decode (in MessagePack): {}", v, e)),
        },
    }
    // The embedded text is what the format's own reference encoder/decoder means.
    if let Ok(serde_json::Value::Object(o)) = serde_json::to_value(&w) {
        for k in ["j", "p"] {
            let t = o[k].as_str().unwrap_or("").to_owned();
            match serde_json::from_str::<T>(&t) {
                Ok(x) if x == v => {}
                x => ctx.violate("codec-not-json", format!("field {} of {:?} is encoded as {:?}, which means {:?}", k, v, t, x.map_err(|e| e.to_string()))),
            }
        }
    }
}

#[derive(Deserialize)]
struct JsonOnly<T: for<'a> Deserialize<'a>> {
    #[serde(with = "htrpc::json", bound = "")]
    v: T,
}
#[derive(Deserialize)]
struct PrettyOnly<T: for<'a> Deserialize<'a>> {
    #[serde(with = "htrpc::json_pretty", bound = "")]
    v: T,
}
#[derive(Serialize, Deserialize)]
struct MsgOnly<T: Serialize + for<'a> Deserialize<'a>> {
    #[serde(with = "htrpc::msgpack", bound = "")]
    v: T,
}
fn t_short(x: u64) -> String {
    ["", "null", "a", "\"", "1", "[]", "é"][(x % 7) as usize].to_owned()
}
/// Decoding of damaged, foreign or oddly spaced encodings of `v`: the helpers accept exactly the
/// JSON texts of the type, with the value they denote, and no truncated MessagePack.
fn codec_texts<T>(ctx: &Ctx, r: &mut Rng, v: T)
where
    T: Serialize + for<'a> Deserialize<'a> + Clone + std::fmt::Debug + PartialEq,
{
    let good = if r.chance(1, 2) { serde_json::to_string(&v) } else { serde_json::to_string_pretty(&v) }.unwrap();
    for _ in 0..4 {
        let mut cs: Vec<char> = good.chars().collect();
        let at = r.below(cs.len() + 1);
        let odd = *r.pick(&[' ', '\n', '\t', '"', '\'', ',', '}', ']', '0', '1', '-', '.', 'e', 'n', 't', '+', '\\', '\u{0}', '\u{feff}', '\u{a0}', 'é']);
        match r.below(9) {
            0 => cs.truncate(at),
            1 => cs.insert(at, odd),
            2 if at < cs.len() => cs[at] = odd,
            3 if at < cs.len() => drop(cs.remove(at)),
            4 => cs.push(odd),
            5 => cs.insert(0, odd),
            6 => cs = gen::string(r, Alpha::Any).chars().collect(),
            7 => cs = format!("[{}]", good).chars().collect(),
            _ => cs = r.pick(&["null", "true", "0", "-1", "1.0", "1e3", "\"\"", "[]", "{}", "", " ", "nil", "NaN", "abc", "300", "18446744073709551616"]).chars().collect(),
        }
        let text: String = cs.into_iter().collect();
        let want: Option<T> = serde_json::from_str(&text).ok();
        let carrier = serde_json::to_string(&json!({ "v": &text })).unwrap();
        let got = [
            ("json", serde_json::from_str::<JsonOnly<T>>(&carrier).map(|x| x.v).map_err(|e| e.to_string())),
            ("json_pretty", serde_json::from_str::<PrettyOnly<T>>(&carrier).map(|x| x.v).map_err(|e| e.to_string())),
        ];
        ctx.eval(&format!("text {}", text));
        ctx.count(if want.is_some() { "texts_valid" } else { "texts_invalid" }, 1);
        for (which, g) in got {
            match (&want, &g) {
                (Some(w), Ok(g)) if w == g => {}
                (None, Err(_)) => {}
                (None, Ok(g)) => ctx.violate("codec-invalid-accepted", format!("{}: {:?} is not an encoding of the type and was decoded as {:?}", which, text, g)),
                (Some(w), g) => ctx.violate("codec-valid-misread", format!("{}: {:?} denotes {:?} and gave {:?}", which, text, w, g)),
            }
        }
    }
    // MessagePack: no proper prefix of an encoding is an encoding.
    if let Ok(serde_json::Value::Object(o)) = serde_json::to_value(&MsgOnly { v: v.clone() }) {
        if let Some(bytes) = o["v"].as_array() {
            if !bytes.is_empty() {
                let n = r.below(bytes.len());
                let t = serde_json::to_string(&json!({ "v": &bytes[..n] })).unwrap();
                ctx.count("msgpack_prefixes", 1);
                if let Ok(x) = serde_json::from_str::<MsgOnly<T>>(&t) {
                    ctx.violate("codec-invalid-accepted", format!("msgpack: {} of {} bytes of the encoding of {:?} decoded as {:?}", n, bytes.len(), v, x.v));
                }
            }
        }
    }
}

pub fn c17(ctx: &Ctx) -> &'static str {
    let cli = Exec::new(2);
    let log = Arc::new(Mutex::new(Vec::new()));
    let plan = Arc::new(Mutex::new(BTreeMap::new()));
    let mut round = 0u64;
    while ctx.go_on() {
        round += 1;
        let mut r = ctx.rng("round", round);
        // the helpers by themselves, every shape
        for _ in 0..60 {
            codec_direct(ctx, doc(&mut r, 2));
            codec_direct(ctx, gen::string(&mut r, Alpha::Any));
            codec_direct(ctx, vec![Some(r.next() as i64), None]);
            codec_direct(ctx, (r.next() as i8, r.chance(1, 2), r.next() as u32 as f32));
            codec_direct(ctx, r.next());
            let d = doc(&mut r, 1);
            codec_texts(ctx, &mut r, d);
            let t = gen::string(&mut r, Alpha::Any);
            codec_texts(ctx, &mut r, t);
            let x = r.next();
            codec_texts(ctx, &mut r, x as i64);
            codec_texts(ctx, &mut r, x as u8);
            codec_texts(ctx, &mut r, x & 1 == 0);
            codec_texts(ctx, &mut r, (x >> 11) as f64 / 1024.0);
            codec_texts(ctx, &mut r, vec![Some(x as i16), None]);
            codec_texts(ctx, &mut r, Some(x as u32).filter(|_| x % 3 > 0));
            codec_texts(ctx, &mut r, (x as u8, t_short(x), x % 2 == 1));
        }
        let (l2, p2) = (log.clone(), plan.clone());
        let server = Server::start(r.range(1, 2), |b| {
            b.register(CodecH(l2.clone(), p2.clone()), CodecProc).unwrap();
        });
        for _ in 0..4 {
            let mut pend = Vec::new();
            for _ in 0..32 {
                let id = next_id();
                let mut d = doc(&mut r, 0);
                // keep the head small
                d.v.truncate(1);
                for s in [&mut d.s].into_iter().chain(d.v.iter_mut()) {
                    s.truncate(s.char_indices().map(|x| x.0).filter(|x| *x <= 60).last().unwrap_or(0));
                }
                let mut short = d.clone();
                short.o = None;
                short.m = BTreeMap::new();
                let req = CodecReq {
                    path: CodecPath(id, short.clone()),
                    query: CodecQuery { j: d.clone(), p: short.clone(), list: (0..r.below(6)).map(|_| r.next() as u32).collect() },
                    header: CodecHeader { j: (0..r.below(5)).map(|_| r.next() as i64).collect(), o: if r.chance(1, 2) { Some(r.next() as u8) } else { None } },
                };
                let resp = CodecResp {
                    status: 200,
                    header: CodecRespHeader {
                        j: match r.below(4) {
                            0 => Shape::Unit,
                            1 => Shape::New(r.next() as i32),
                            2 => Shape::Tup(1, gen::string(&mut r, Alpha::HeaderOk)),
                            _ => Shape::Rec { a: Some(true), b: vec![1, 2, r.next() as u16] },
                        },
                        l: (0..r.below(4)).map(|i| if i % 2 == 0 { None } else { Some(r.next() as i32) }).collect(),
                    },
                };
                plan.lock().unwrap().insert(id, resp.clone());
                let f = RpcClient::new(server.addr).call::<CodecProc>(req.clone());
                pend.push((id, req, resp, cli.start(f)));
            }
            for (id, req, resp, p) in pend {
                let o = p.wait(WATCHDOG);
                let ev: Vec<CodecReq> = {
                    let mut g = log.lock().unwrap();
                    let (a, b): (Vec<CodecReq>, Vec<CodecReq>) = std::mem::take(&mut *g).into_iter().partition(|e| e.path.0 == id);
                    *g = b;
                    a
                };
                for e in &ev {
                    if *e != req {
                        ctx.violate("codec-request-altered", format!("sent {:?}, received {:?}", req, e));
                    }
                }
                match o {
                    Out::Ok(got) => {
                        ctx.eval(&format!("rpc {:?}", req));
                        ctx.count("rpc_round_trips", 1);
                        if got != resp {
                            ctx.violate("codec-response-altered", format!("sent {:?}, received {:?}", resp, got));
                        }
                        if round == 1 {
                            ctx.sample(json!(format!("{:?}", req)));
                        }
                    }
                    o => {
                        let o2 = cli.run(RpcClient::new(server.addr).call::<CodecProc>(req.clone()), WATCHDOG);
                        log.lock().unwrap().retain(|e| e.path.0 != id);
                        if o2.is_ok() {
                            ctx.count("unreproduced", 1);
                        } else {
                            ctx.violate("codec-call-failed", format!("{:?}: {} / {}", req, o.describe(), o2.describe()));
                        }
                    }
                }
            }
            plan.lock().unwrap().clear();
        }
        // Text that is not an encoding is refused.
        let good_doc = serde_json::to_string(&doc(&mut Rng::new(7), 0)).unwrap();
        let bads = ["", "{", "nul", "[1,2", "1 2", "'x'", "{\"i\":}", "[1,]", "\u{feff}[]", "[1e999]", "[-1]", "[4294967296]", "\"", "undefined"];
        if let Ok(mut c) = Conn::connect(server.addr) {
            for (k, bad) in bads.iter().enumerate() {
                let id = next_id();
                let enc = |s: &str| s.bytes().map(|b| format!("%{:02x}", b)).collect::<String>();
                for place in 0..3 {
                    let (mut j, mut l, mut h) = (good_doc.clone(), "[1]".to_owned(), "[1]".to_owned());
                    match place {
                        0 => j = bad.to_string(),
                        1 => l = bad.to_string(),
                        _ => h = bad.replace("[-1]", "[1.5").replace("[4294967296]", "[x]"),
                    }
                    let t = format!("/codec/{}/{}?j={}&p={}&list={}", id, enc(&good_doc), enc(&j), enc(&good_doc), enc(&l));
                    c.send(&http_request("PUT", &t, &[("x-json", &h), ("x-opt", "null")], b""));
                    match c.response(false) {
                        Recv::Msg(m) => {
                            ctx.eval(&format!("bad {} {}", k, place));
                            ctx.count("invalid_encodings", 1);
                            if m.status() != 400 {
                                ctx.violate("codec-invalid-accepted", format!("invalid encoding {:?} (place {}) answered {}", bad, place, m.status()));
                            }
                        }
                        o => {
                            ctx.violate("no-response", format!("invalid encoding {:?}: {}", bad, o.describe()));
                            return "";
                        }
                    }
                }
            }
            // and the same document with everything valid is accepted
            let enc = |s: &str| s.bytes().map(|b| format!("%{:02x}", b)).collect::<String>();
            let t = format!("/codec/{}/{}?j={}&p={}&list=[1]", next_id(), enc(&good_doc), enc(&good_doc), enc(&good_doc));
            c.send(&http_request("PUT", &t, &[("x-json", "[1]"), ("x-opt", "null")], b""));
            if let Recv::Msg(m) = c.response(false) {
                if m.status() != 200 {
                    ctx.violate("codec-valid-refused", format!("valid encodings answered {}: {}", m.status(), String::from_utf8_lossy(&m.body)));
                }
            }
        }
        let stray = std::mem::take(&mut *log.lock().unwrap());
        if stray.len() > 1 {
            ctx.violate("codec-invalid-ran", format!("the handler ran {} times for invalid encodings", stray.len() - 1));
        }
        if serde_json::from_value::<Wrap<u8>>(json!({"j": "1", "p": "1", "m": [0xc1]})).is_ok()
            || serde_json::from_value::<Wrap<u8>>(json!({"j": "1", "p": "1", "m": []})).is_ok()
            || serde_json::from_value::<Wrap<u8>>(json!({"j": "1", "p": "1x", "m": [1]})).is_ok()
            || serde_json::from_value::<Wrap<u8>>(json!({"j": "", "p": "1", "m": [1]})).is_ok()
            || serde_json::from_value::<Wrap<u8>>(json!({"j": "256", "p": "1", "m": [1]})).is_ok()
        {
            ctx.violate("codec-invalid-accepted", "an invalid encoding was decoded".into());
        }
        if serde_json::from_value::<Wrap<u8>>(json!({"j": "1", "p": "1", "m": [1]})).is_err() {
            ctx.violate("codec-valid-refused", "a valid encoding was refused".into());
        }
        if !server.healthy() {
            ctx.violate("server-ended", "during codecs".into());
        }
        report_panics(ctx, "codecs");
    }
    let _ = plain_schema(0);
    "one case = one distinct value tree (nested structs, enums, options, maps, extreme numbers, Unicode) through json, json_pretty and msgpack, embedded in JSON and MessagePack and in path, query and headers of real calls; or one invalid encoding in one place"
}
