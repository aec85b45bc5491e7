//! Ordinary and odd user types: procedures whose request and response types are real derived
//! serde types (newtypes, renamed, defaulted and optional fields, standard-library types), and types
//! the library has no encoding for (nested, optional or wrongly counted path arguments and so on).
//! The former must round-trip; the latter must either arrive equal or make the call fail.
use crate::ctx::Ctx;
use crate::dynp::entry_point;
use crate::gen::{self, Alpha};
use crate::lab::{id_body, report_panics};
use crate::net::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::trip::next_id;
use futures::Future;
use htrpc::types::{EntryPoint, HttpMethod, NeverFail};
use htrpc::{BodyReader, FutureExt, HandleRpc, Procedure, ReadBody, RpcClient, RpcRequest, RpcResponse};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::any::Any;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

pub trait Section: Serialize + for<'a> Deserialize<'a> + Debug + Clone + Send + 'static {}
impl<T: Serialize + for<'a> Deserialize<'a> + Debug + Clone + Send + 'static> Section for T {}

#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(bound = "")]
pub struct Req<P: Section, Q: Section, H: Section> {
    path: P,
    query: Q,
    header: H,
    #[serde(skip)]
    body: Vec<u8>,
}
impl<P: Section, Q: Section, H: Section> RpcRequest for Req<P, Q, H> {
    fn body(&mut self) -> Vec<u8> {
        self.body.clone()
    }
    fn read_body(mut self, b: BodyReader) -> ReadBody<Self> {
        Box::new(b.read_all_bytes().map_err(htrpc::Error::from).map(move |(r, b)| {
            self.body = b;
            (r, self)
        }))
    }
}
/// The same, wrapped once more.
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(bound = "")]
pub struct WrapReq<P: Section, Q: Section, H: Section>(Req<P, Q, H>);
impl<P: Section, Q: Section, H: Section> RpcRequest for WrapReq<P, Q, H> {
    fn body(&mut self) -> Vec<u8> {
        RpcRequest::body(&mut self.0)
    }
    fn read_body(self, b: BodyReader) -> ReadBody<Self> {
        Box::new(self.0.read_body(b).map(|(r, x)| (r, WrapReq(x))))
    }
}
pub trait Resp: RpcResponse + Debug + Clone + Send + 'static {}
impl<T: RpcResponse + Debug + Clone + Send + 'static> Resp for T {}

pub trait HasBody {
    fn bytes(&mut self) -> Option<&mut Vec<u8>>;
}
macro_rules! with_body {
    ($t:ty, [$($g:tt)*]) => {
        impl<$($g)*> RpcResponse for $t {
            fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
                Box::new(self.bytes().map(|b| b.clone()).unwrap_or_default())
            }
            fn set_body(&mut self, body: Vec<u8>) {
                if let Some(b) = self.bytes() {
                    *b = body;
                }
            }
        }
    };
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Plain {
    status: u16,
    #[serde(skip)]
    body: Vec<u8>,
}
impl HasBody for Plain {
    fn bytes(&mut self) -> Option<&mut Vec<u8>> {
        Some(&mut self.body)
    }
}
with_body!(Plain, []);
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(bound = "")]
pub struct Num<H: Section> {
    status: u16,
    header: H,
    #[serde(skip)]
    body: Vec<u8>,
}
impl<H: Section> HasBody for Num<H> {
    fn bytes(&mut self) -> Option<&mut Vec<u8>> {
        Some(&mut self.body)
    }
}
with_body!(Num<H>, [H: Section]);
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct WrapResp(Num<BTreeMap<String, String>>);
impl HasBody for WrapResp {
    fn bytes(&mut self) -> Option<&mut Vec<u8>> {
        self.0.bytes()
    }
}
with_body!(WrapResp, []);
/// Header first, status last.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Late {
    header: HeadA,
    status: u16,
}
impl HasBody for Late {
    fn bytes(&mut self) -> Option<&mut Vec<u8>> {
        None
    }
}
with_body!(Late, []);
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct WithHead {
    header: HeadA,
    #[serde(skip)]
    body: Vec<u8>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Alts {
    Ok {
        header: HeadA,
        #[serde(skip)]
        body: Vec<u8>,
    },
    /// An alternative that is a whole response by itself brings its own status.
    ServiceUnavailable(Num<HeadA>),
    Created {
        header: HeadB,
        #[serde(skip)]
        body: Vec<u8>,
    },
    #[serde(rename = "Conflict")]
    Clash {
        header: BTreeMap<String, String>,
    },
    NotFound,
    NoContent {},
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Nothing {}
impl HasBody for Alts {
    fn bytes(&mut self) -> Option<&mut Vec<u8>> {
        match self {
            Alts::Ok { body, .. } | Alts::Created { body, .. } => Some(body),
            Alts::ServiceUnavailable(n) => n.bytes(),
            _ => None,
        }
    }
}
with_body!(Alts, []);
/// Alternatives no HTTP status is called by.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Strange {
    Fine,
    Ok2 { header: HeadA },
    Ok(WithHead),
    OK,
    Created(u8, u8),
    NotFound(Option<WithHead>),
    Gone(Nothing),
}
impl HasBody for Strange {
    fn bytes(&mut self) -> Option<&mut Vec<u8>> {
        None
    }
}
with_body!(Strange, []);
/// Fields a response does not have.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Extra {
    status: u16,
    extra: String,
}
impl HasBody for Extra {
    fn bytes(&mut self) -> Option<&mut Vec<u8>> {
        None
    }
}
with_body!(Extra, []);
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct NoStatus {
    header: HeadA,
}
impl HasBody for NoStatus {
    fn bytes(&mut self) -> Option<&mut Vec<u8>> {
        None
    }
}
with_body!(NoStatus, []);

pub struct Proc<const N: usize, const V: usize, Q, R>(PhantomData<fn() -> (Q, R)>);
impl<const N: usize, const V: usize, Q: RpcRequest, R: RpcResponse> Procedure for Proc<N, V, Q, R> {
    type Request = Q;
    type Response = R;
    fn method() -> HttpMethod {
        HttpMethod::Put
    }
    fn entry_point() -> EntryPoint {
        let name = format!("s{}", N);
        let mut v = vec![Some(&name[..])];
        v.extend(std::iter::repeat(None).take(V));
        entry_point(&v)
    }
}
#[derive(Default)]
pub struct Desk {
    log: Mutex<Vec<(u64, String)>>,
    plan: Mutex<HashMap<u64, Box<dyn Any + Send>>>,
}
#[derive(Clone)]
pub struct Clerk<R>(Arc<Desk>, R);
fn body_id(b: &[u8]) -> u64 {
    b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0)
}
impl<const N: usize, const V: usize, Q: RpcRequest + Debug, R: Resp> HandleRpc<Proc<N, V, Q, R>> for Clerk<R> {
    type Future = Box<dyn Future<Item = R, Error = NeverFail> + Send>;
    fn handle_rpc(self, mut r: Q) -> Self::Future {
        let id = body_id(&RpcRequest::body(&mut r));
        self.0.log.lock().unwrap().push((id, format!("{:?}", r)));
        let planned = self.0.plan.lock().unwrap().remove(&id).and_then(|b| b.downcast::<R>().ok());
        Box::new(futures::finished(planned.map(|b| *b).unwrap_or(self.1)))
    }
}
type Job<'a> = Box<dyn FnMut(&Ctx, &Exec, std::net::SocketAddr, &mut Rng) + 'a>;
pub struct Set<'a> {
    desk: Arc<Desk>,
    builder: Option<&'a mut htrpc::RpcServerBuilder>,
    jobs: Vec<Job<'a>>,
}
/// A map of headers also has the framing header.
fn strip(s: &str) -> String {
    let mut s = s.to_owned();
    for k in ["\"content-length\": \"", "\"Content-Length\": \""] {
        if let Some(a) = s.find(k) {
            let mut b = a + k.len();
            b += s[b..].find('"').map(|i| i + 1).unwrap_or(0);
            if s[b..].starts_with(", ") {
                b += 2;
            }
            s.replace_range(a..b, "");
            s = s.replace(", }", "}");
        }
    }
    s
}
/// One call; `must` if every part of it is representable.
fn judge<const N: usize, const V: usize, Q: RpcRequest + Debug + Clone, R: Resp>(
    ctx: &Ctx,
    cli: &Exec,
    desk: &Desk,
    addr: std::net::SocketAddr,
    name: &str,
    must: bool,
    req: Q,
    id: u64,
    resp: &R,
) {
    let sent = format!("{:?}", req);
    let mut last = None;
    for attempt in 0..3 {
        desk.plan.lock().unwrap().insert(id, Box::new(resp.clone()));
        let o = cli.run(RpcClient::new(addr).call::<Proc<N, V, Q, R>>(req.clone()), WATCHDOG);
        desk.plan.lock().unwrap().remove(&id);
        let ev: Vec<String> = {
            let mut g = desk.log.lock().unwrap();
            let (a, b): (Vec<_>, Vec<_>) = std::mem::take(&mut *g).into_iter().partition(|e| e.0 == id);
            *g = b;
            a.into_iter().map(|e| strip(&e.1)).collect()
        };
        for e in &ev {
            if *e != sent {
                ctx.violate("shape-altered", format!("{}: sent {}, the handler received {}", name, sent, e));
                return;
            }
        }
        if ev.len() > 1 {
            ctx.violate("shape-run-twice", format!("{}: {} ran the handler {} times", name, sent, ev.len()));
            return;
        }
        match o {
            Out::Ok(got) => {
                ctx.eval(&format!("shape {} {}", name, sent));
                let got = strip(&format!("{:?}", got));
                if !must && ev.is_empty() && got.contains("status: 400") {
                    // the server's own refusal, which a response with a numeric status admits
                    ctx.count("odd_shapes_refused", 1);
                    return;
                }
                ctx.count(if must { "shapes_ok" } else { "odd_shapes_delivered" }, 1);
                if ev.is_empty() {
                    ctx.violate("shape-not-run", format!("{}: {} succeeded though the handler did not run", name, sent));
                } else if got != format!("{:?}", resp) {
                    ctx.violate("shape-response-altered", format!("{}: the handler returned {:?}, the caller received {}", name, resp, got));
                }
                return;
            }
            Out::Err(e) if !must => {
                ctx.eval(&format!("shape {} {}", name, sent));
                ctx.count("odd_shapes_refused", 1);
                let _ = e;
                return;
            }
            o => last = Some((attempt, o.describe())),
        }
    }
    ctx.violate("shape-call-failed", format!("{}: {} with response {:?} fails: {}", name, sent, resp, last.map(|l| l.1).unwrap_or_default()));
}
impl<'a> Set<'a> {
    fn add<const N: usize, const V: usize, Q, R, F>(&mut self, name: &'static str, must: bool, default: R, mut make: F)
    where
        Q: RpcRequest + Debug + Clone,
        R: Resp,
        F: FnMut(&mut Rng, Vec<u8>) -> (Q, R) + 'a,
    {
        let clerk = Clerk(self.desk.clone(), default);
        if let Some(b) = &mut self.builder {
            if let Err(e) = b.register(clerk, Proc::<N, V, Q, R>(PhantomData)) {
                eprintln!("shape {} not registered: {}", name, e);
            }
        }
        let desk = self.desk.clone();
        self.jobs.push(Box::new(move |ctx, cli, addr, r| {
            let id = next_id();
            let (req, resp) = make(r, id_body(id, b"shape"));
            judge::<N, V, Q, R>(ctx, cli, &desk, addr, name, must, req, id, &resp);
        }));
    }
    /// A request section; the rest is plain.
    fn path<const N: usize, const V: usize, P: Section, F: FnMut(&mut Rng) -> P + 'a>(&mut self, name: &'static str, must: bool, mut f: F) {
        self.add::<N, V, _, _, _>(name, must, plain(), move |r, body| (Req { path: f(r), query: Nothing {}, header: Nothing {}, body }, plain()));
    }
    fn query<const N: usize, Q: Section, F: FnMut(&mut Rng) -> Q + 'a>(&mut self, name: &'static str, must: bool, mut f: F) {
        self.add::<N, 0, _, _, _>(name, must, plain(), move |r, body| (Req { path: (), query: f(r), header: Nothing {}, body }, plain()));
    }
    fn header<const N: usize, H: Section, F: FnMut(&mut Rng) -> H + 'a>(&mut self, name: &'static str, must: bool, mut f: F) {
        self.add::<N, 0, _, _, _>(name, must, plain(), move |r, body| (Req { path: (), query: Nothing {}, header: f(r), body }, plain()));
    }
    fn response<const N: usize, R: Resp, F: FnMut(&mut Rng) -> R + 'a>(&mut self, name: &'static str, must: bool, default: R, mut f: F) {
        self.add::<N, 0, _, _, _>(name, must, default, move |r, body| (Req { path: (), query: Nothing {}, header: Nothing {}, body }, f(r)));
    }
}
fn plain() -> Plain {
    Plain { status: 200, body: vec![] }
}

// ---------------------------------------------------------------------------------- user types

#[derive(Serialize, Deserialize, Debug, Clone, Default, PartialEq)]
pub struct Name(String);
#[derive(Serialize, Deserialize, Debug, Clone, Copy, Default, PartialEq)]
#[serde(transparent)]
pub struct Id {
    v: u64,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Tuple2(String, u32);
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Nested(Tuple2);
#[derive(Serialize, Deserialize, Debug, Clone)]
struct One(String);
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Unit;
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Rec {
    a: String,
    b: u8,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Colour {
    Red,
    #[serde(rename = "dark green")]
    Green,
    Grey(u8),
}
/// Text through Display and FromStr, as many types do it.
#[derive(Debug, Clone, PartialEq)]
struct Shown(i32, i32);
impl Serialize for Shown {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("{}/{}", self.0, self.1))
    }
}
impl<'de> Deserialize<'de> for Shown {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let mut it = s.split('/').map(|p| p.parse());
        match (it.next(), it.next(), it.next()) {
            (Some(Ok(a)), Some(Ok(b)), None) => Ok(Shown(a, b)),
            _ => Err(serde::de::Error::custom("not a pair")),
        }
    }
}
/// Bytes.
#[derive(Debug, Clone, PartialEq, Default)]
struct Bin(Vec<u8>);
impl Serialize for Bin {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
struct BinVisitor;
impl<'de> serde::de::Visitor<'de> for BinVisitor {
    type Value = Bin;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "bytes")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Bin, E> {
        Ok(Bin(v.to_vec()))
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Bin, E> {
        Ok(Bin(v))
    }
}
impl<'de> Deserialize<'de> for Bin {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_byte_buf(BinVisitor)
    }
}
#[derive(Serialize, Deserialize, Debug, Clone, Default)]
pub struct QueryA {
    text: String,
    #[serde(rename = "the number")]
    number: i64,
    #[serde(default)]
    flag: bool,
    #[serde(skip_serializing_if = "Option::is_none")]
    maybe: Option<String>,
    name: Name,
    id: Option<Id>,
    #[serde(default = "seven", alias = "sz")]
    size: usize,
    #[serde(rename = "ähm")]
    f: f64,
    cow: Cow<'static, str>,
    boxed: Option<Box<str>>,
}
fn seven() -> usize {
    7
}
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(rename_all = "kebab-case", deny_unknown_fields)]
struct QueryB {
    ip_addr: std::net::IpAddr,
    socket_addr: std::net::SocketAddr,
    non_zero: std::num::NonZeroU8,
    wrapping_value: std::num::Wrapping<i16>,
    a_shown: Shown,
    box_of: Box<u32>,
    is_ize: isize,
}
#[derive(Serialize, Deserialize, Debug, Clone, Default)]
pub struct HeadA {
    #[serde(rename = "x-token")]
    token: String,
    #[serde(rename = "x-count", skip_serializing_if = "Option::is_none")]
    count: Option<u32>,
    #[serde(rename = "x-id", default)]
    id: Id,
    #[serde(rename = "x-name")]
    name: Option<Name>,
    etag: String,
}
#[derive(Serialize, Deserialize, Debug, Clone, Default)]
pub struct HeadB {
    #[serde(rename = "x-bin")]
    bin: Bin,
    #[serde(rename = "x-cow")]
    cow: Cow<'static, str>,
    #[serde(rename = "x-f")]
    f: f32,
    #[serde(rename = "x-b")]
    b: Option<bool>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct HeadC {
    #[serde(rename = "x-ip")]
    ip: std::net::IpAddr,
    #[serde(rename = "x-nz")]
    nz: std::num::NonZeroU8,
    #[serde(rename = "x-shown")]
    shown: Shown,
    #[serde(rename = "x-box")]
    boxed: Box<u32>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct NewQ(QueryA);
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(bound = "")]
struct Field<T: Section> {
    before: String,
    v: T,
    after: String,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Flat {
    a: String,
    #[serde(flatten)]
    rest: BTreeMap<String, String>,
}
fn text(r: &mut Rng) -> String {
    // no dot segments and line breaks, which a path cannot carry, and not empty
    let s: String = gen::string(r, Alpha::HeaderOk).chars().take(40).collect();
    if s.is_empty() || s.trim() != s || s.chars().all(|c| c == '.') || s.to_lowercase().replace("%2e", ".").chars().all(|c| c == '.') {
        "t".into()
    } else {
        s
    }
}
fn ip(r: &mut Rng) -> std::net::IpAddr {
    if r.chance(1, 2) {
        std::net::Ipv4Addr::from(r.next() as u32).into()
    } else {
        let mut s = [0u16; 8];
        for x in s.iter_mut() {
            *x = if r.chance(1, 2) { 0 } else { r.next() as u16 };
        }
        std::net::Ipv6Addr::from(s).into()
    }
}
fn nz(r: &mut Rng) -> std::num::NonZeroU8 {
    std::num::NonZeroU8::new((r.next() as u8).max(1)).unwrap()
}
fn query_a(r: &mut Rng) -> QueryA {
    QueryA {
        text: gen::string(r, Alpha::Any).chars().take(80).collect(),
        number: r.next() as i64,
        flag: r.chance(1, 2),
        maybe: if r.chance(1, 2) { Some(text(r)) } else { None },
        name: Name(text(r)),
        id: if r.chance(1, 2) { Some(Id { v: r.next() }) } else { None },
        size: r.next() as usize,
        f: (r.next() >> 12) as f64 / 4096.0,
        cow: Cow::Owned(text(r)),
        boxed: if r.chance(1, 2) { Some(text(r).into_boxed_str()) } else { None },
    }
}
fn head_a(r: &mut Rng) -> HeadA {
    HeadA {
        token: text(r),
        count: if r.chance(1, 2) { Some(r.next() as u32) } else { None },
        id: Id { v: r.next() },
        name: if r.chance(1, 2) { Some(Name(text(r))) } else { None },
        etag: text(r),
    }
}
fn head_b(r: &mut Rng) -> HeadB {
    HeadB {
        bin: Bin((0..r.below(20)).map(|_| *r.pick(&[b'a', b'~', b'!', b'0', 0x80, 0xff, 0xc3, 0xe9])).collect()),
        cow: Cow::Owned(text(r)),
        f: (r.next() as u32 >> 8) as f32 / 16.0,
        b: *r.pick(&[None, Some(true), Some(false)]),
    }
}
fn headers(r: &mut Rng) -> BTreeMap<String, String> {
    (0..r.below(4)).map(|i| (format!("x-{}", i), text(r))).collect()
}
fn code(r: &mut Rng) -> u16 {
    *r.pick(&[200u16, 201, 202, 206, 400, 404, 409, 418, 500, 503])
}
fn field<T: Section>(r: &mut Rng, v: T) -> Field<T> {
    Field { before: text(r), v, after: text(r) }
}

fn paths(s: &mut Set) {
    s.path::<100, 0, _, _>("no path arguments", true, |_| ());
    s.path::<101, 0, _, _>("unit struct path", true, |_| Unit);
    s.path::<102, 1, _, _>("one-element tuple path", true, |r| (text(r),));
    s.path::<103, 2, _, _>("tuple struct path", true, |r| Tuple2(text(r), r.next() as u32));
    s.path::<104, 2, _, _>("wrapped tuple struct path", true, |r| Nested(Tuple2(text(r), r.next() as u32)));
    s.path::<105, 3, _, _>("array path", true, |r| [text(r), text(r), text(r)]);
    s.path::<106, 4, _, _>("newtypes in a path", true, |r| (Name(text(r)), Id { v: r.next() }, Box::new(text(r)), Shown(r.next() as i32, -3)));
    s.path::<107, 5, _, _>("library types in a path", true, |r| (ip(r), nz(r), std::num::Wrapping(r.next() as i8), r.next() as usize, Cow::<'static, str>::Owned(text(r))));
    s.path::<108, 12, _, _>("twelve path arguments", true, |r| {
        (text(r), r.next() as u8, text(r), r.next() as i8, text(r), r.next() as u16, text(r), r.chance(1, 2), text(r), r.next(), text(r), 0.5f32)
    });
    // what has no encoding
    s.path::<120, 1, _, _>("an optional path argument", false, |r| (if r.chance(1, 2) { Some(text(r)) } else { None },));
    s.path::<121, 2, _, _>("a character in a path", false, |r| (*r.pick(&['a', '/', '.', '日', '%', '?']), text(r)));
    s.path::<122, 2, _, _>("a list as path", false, |r| vec![text(r), text(r)]);
    s.path::<123, 2, _, _>("a list in a path", false, |r| (vec![text(r), text(r)], text(r)));
    s.path::<124, 2, _, _>("a struct as path", false, |r| Rec { a: text(r), b: r.next() as u8 });
    s.path::<125, 2, _, _>("a struct in a path", false, |r| (Rec { a: text(r), b: r.next() as u8 }, text(r)));
    s.path::<126, 2, _, _>("a map as path", false, |r| headers(r));
    s.path::<127, 3, _, _>("a tuple in a path", false, |r| ((text(r), text(r)), text(r)));
    s.path::<128, 3, _, _>("a tuple at the end of a path", false, |r| (text(r), (text(r), text(r))));
    s.path::<129, 1, _, _>("too many path arguments", false, |r| (text(r), text(r)));
    s.path::<130, 3, _, _>("too few path arguments", false, |r| (text(r), text(r)));
    s.path::<131, 0, _, _>("path arguments without variables", false, |r| (text(r),));
    s.path::<132, 1, _, _>("no arguments for a variable", false, |_| ());
    s.path::<133, 1, _, _>("a bare string as path", false, |r| text(r));
    s.path::<134, 1, _, _>("a wrapped string as path", false, |r| One(text(r)));
    s.path::<135, 2, _, _>("an enumeration in a path", false, |r| (r.pick(&[Colour::Red, Colour::Green, Colour::Grey(3)]).clone(), text(r)));
    s.path::<136, 2, _, _>("a 128-bit number in a path", false, |r| (r.next() as u128 * 3, text(r)));
    s.path::<137, 2, _, _>("bytes in a path", false, |r| (Bin(r.bytes(5)), text(r)));
    s.path::<138, 2, _, _>("a unit in a path", false, |r| ((), text(r)));
    s.path::<139, 2, _, _>("a unit struct in a path", false, |r| (Unit, text(r)));
    s.path::<140, 2, _, _>("an optional number in a path", false, |r| (text(r), *r.pick(&[None, Some(5u8)])));
    s.path::<141, 2, _, _>("an enumeration as path", false, |r| r.pick(&[Colour::Red, Colour::Grey(200)]).clone());
}
fn queries(s: &mut Set) {
    s.query::<200, _, _>("ordinary query", true, |r| query_a(r));
    s.query::<201, _, _>("wrapped query", true, |r| NewQ(query_a(r)));
    s.query::<202, _, _>("library types in a query", true, |r| QueryB {
        ip_addr: ip(r),
        socket_addr: (ip(r), r.next() as u16).into(),
        non_zero: nz(r),
        wrapping_value: std::num::Wrapping(r.next() as i16),
        a_shown: Shown(1, r.next() as i32),
        box_of: Box::new(r.next() as u32),
        is_ize: r.next() as isize,
    });
    s.query::<203, _, _>("sorted map query", true, |r| (0..r.below(5)).map(|_| (text(r), text(r))).collect::<BTreeMap<String, String>>());
    s.query::<204, _, _>("map of numbers", true, |r| (0..r.below(5)).map(|_| (text(r), r.next() as i32)).collect::<BTreeMap<String, i32>>());
    s.query::<205, _, _>("optional fields only", true, |r| {
        let mut q = query_a(r);
        q.maybe = None;
        q.id = None;
        q.boxed = None;
        q
    });
    s.query::<220, _, _>("a character in a query", false, |r| {
        let c = *r.pick(&['a', '&', '=', '日', '%', '+']);
        field(r, c)
    });
    s.query::<221, _, _>("a list in a query", false, |r| {
        let v = vec![text(r), text(r)];
        field(r, v)
    });
    s.query::<222, _, _>("a struct in a query", false, |r| {
        let v = Rec { a: text(r), b: 3 };
        field(r, v)
    });
    s.query::<223, _, _>("a map in a query", false, |r| {
        let v = headers(r);
        field(r, v)
    });
    s.query::<224, _, _>("a tuple in a query", false, |r| {
        let v = (text(r), 5u8);
        field(r, v)
    });
    s.query::<225, _, _>("a unit in a query", false, |r| field(r, ()));
    s.query::<226, _, _>("a unit struct in a query", false, |r| field(r, Unit));
    s.query::<227, _, _>("an enumeration in a query", false, |r| {
        let v = r.pick(&[Colour::Red, Colour::Green, Colour::Grey(3)]).clone();
        field(r, v)
    });
    s.query::<228, _, _>("a 128-bit number in a query", false, |r| {
        let v = -(r.next() as i128) * 3;
        field(r, v)
    });
    s.query::<229, _, _>("bytes in a query", false, |r| {
        let v = Bin(r.bytes(6));
        field(r, v)
    });
    s.query::<230, _, _>("a flattened map in a query", false, |r| Flat { a: text(r), rest: headers(r) });
    s.query::<231, _, _>("a list of pairs as query", false, |r| vec![("a".to_string(), text(r)), ("b".to_string(), text(r))]);
    s.query::<232, _, _>("a map with numbers as keys", false, |r| (0..r.below(4)).map(|i| (i as u8, text(r))).collect::<BTreeMap<u8, String>>());
    s.query::<234, _, _>("a map of optional values", false, |r| (0..r.below(4)).map(|i| (format!("k{}", i), Some(text(r)))).collect::<BTreeMap<String, Option<String>>>());
    s.query::<235, _, _>("an enumeration as query", false, |r| r.pick(&[Colour::Red, Colour::Grey(200)]).clone());
}
fn head(s: &mut Set) {
    s.header::<300, _, _>("ordinary headers", true, |r| head_a(r));
    s.header::<301, _, _>("binary header", true, |r| head_b(r));
    s.header::<302, _, _>("header map", true, |r| headers(r));
    s.header::<303, _, _>("library types in headers", true, |r| HeadC { ip: ip(r), nz: nz(r), shown: Shown(r.next() as i32, 4), boxed: Box::new(7) });
    s.response::<310, _, _>("ordinary response headers", true, Num { status: 200, header: HeadA::default(), body: vec![] }, |r| Num { status: code(r), header: head_a(r), body: b"b".to_vec() });
    s.response::<311, _, _>("binary response header", true, Num { status: 200, header: HeadB::default(), body: vec![] }, |r| Num { status: code(r), header: head_b(r), body: vec![] });
    s.response::<312, _, _>("response header map", true, Num { status: 200, header: BTreeMap::new(), body: vec![] }, |r| Num { status: code(r), header: headers(r), body: vec![] });
    s.header::<320, _, _>("a character in a header", false, |r| {
        let c = *r.pick(&['a', '&', '=', '日', '\n', '\r']);
        field(r, c)
    });
    s.header::<321, _, _>("a list in a header", false, |r| {
        let v = vec![text(r), text(r)];
        field(r, v)
    });
    s.header::<322, _, _>("a struct in a header", false, |r| {
        let v = Rec { a: text(r), b: 3 };
        field(r, v)
    });
    s.header::<323, _, _>("a map in a header", false, |r| {
        let v = headers(r);
        field(r, v)
    });
    s.header::<324, _, _>("a tuple in a header", false, |r| {
        let v = (text(r), 5u8);
        field(r, v)
    });
    s.header::<325, _, _>("a unit in a header", false, |r| field(r, ()));
    s.header::<326, _, _>("an enumeration in a header", false, |r| {
        let v = r.pick(&[Colour::Red, Colour::Green, Colour::Grey(3)]).clone();
        field(r, v)
    });
    s.header::<327, _, _>("arbitrary bytes in a header", false, |r| {
        // (blanks at the ends are not part of a value)
        let mut b = r.bytes(6);
        b.insert(0, b'x');
        b.push(b'x');
        field(r, Bin(b))
    });
    s.header::<328, _, _>("a map with numbers as keys in a header", false, |r| (0..r.below(4)).map(|i| (i as u8, text(r))).collect::<BTreeMap<u8, String>>());
    s.response::<330, _, _>("a struct in a response header", false, Num { status: 200, header: Nothing2::default(), body: vec![] }, |r| Num {
        status: code(r),
        header: Nothing2 { a: text(r), v: Some(BTreeMap::new()) },
        body: vec![],
    });
}
#[derive(Serialize, Deserialize, Debug, Clone, Default)]
struct Nothing2 {
    a: String,
    v: Option<BTreeMap<String, String>>,
}
fn responses(s: &mut Set) {
    s.response::<400, _, _>("status and body", true, plain(), |r| Plain { status: code(r), body: r.bytes(30) });
    s.response::<401, _, _>("wrapped response", true, WrapResp(Num { status: 200, header: BTreeMap::new(), body: vec![] }), |r| {
        WrapResp(Num { status: code(r), header: headers(r), body: r.bytes(3) })
    });
    s.response::<402, _, _>("header before the status", false, Late { header: HeadA::default(), status: 200 }, |r| Late { header: head_a(r), status: code(r) });
    s.response::<403, _, _>("alternatives", true, Alts::NotFound, |r| match r.below(6) {
        0 => Alts::Ok { header: head_a(r), body: r.bytes(9) },
        1 => Alts::Created { header: head_b(r), body: r.bytes(1000) },
        2 => Alts::Clash { header: headers(r) },
        3 => Alts::NotFound,
        4 => Alts::ServiceUnavailable(Num { status: 503, header: head_a(r), body: r.bytes(12) }),
        _ => Alts::NoContent {},
    });
    s.add::<404, 2, _, _, _>("wrapped request", true, plain(), |r, body| {
        (WrapReq(Req { path: (text(r), r.next()), query: query_a(r), header: head_a(r), body }), Plain { status: code(r), body: r.bytes(4) })
    });
    s.response::<420, _, _>("alternatives that are no status", false, Strange::Fine, |r| match r.below(7) {
        0 => Strange::Fine,
        1 => Strange::Ok2 { header: head_a(r) },
        2 => Strange::Ok(WithHead { header: head_a(r), body: vec![] }),
        3 => Strange::OK,
        4 => Strange::Created(1, 2),
        5 => Strange::Gone(Nothing {}),
        _ => Strange::NotFound(Some(WithHead { header: head_a(r), body: vec![] })),
    });
    s.response::<421, _, _>("unknown response field", false, Extra { status: 200, extra: String::new() }, |r| Extra { status: code(r), extra: text(r) });
    s.response::<422, _, _>("no status", false, NoStatus { header: HeadA::default() }, |r| NoStatus { header: head_a(r) });
    s.response::<423, _, _>("no such status number", false, plain(), |r| Plain { status: *r.pick(&[0u16, 1, 99, 199, 299, 306, 499, 600, 999, 1000, 65535]), body: r.bytes(4) });
}
/// Parts of ordinary requests as other clients write them: defaults, other names, absent options.
fn raw_queries(ctx: &Ctx, desk: &Desk, addr: std::net::SocketAddr, r: &mut Rng) {
    let full = query_a(r);
    let enc = |s: &str| s.bytes().map(|b| format!("%{:02x}", b)).collect::<String>();
    let mut want = full.clone();
    let mut q = vec![format!("text={}", enc(&full.text)), format!("the%20number={}", full.number), format!("name={}", enc(&full.name.0)), format!("%C3%A4hm={}", full.f), format!("cow={}", enc(&full.cow))];
    if r.chance(1, 2) {
        q.push(format!("flag={}", full.flag));
    } else {
        want.flag = false;
    }
    match r.below(3) {
        0 => q.push(format!("size={}", full.size)),
        1 => q.push(format!("sz={}", full.size)),
        _ => want.size = 7,
    }
    if let Some(m) = &full.maybe {
        q.push(format!("maybe={}", enc(m)));
    }
    if let Some(i) = &full.id {
        q.push(format!("id={}", i.v));
    }
    if let Some(m) = &full.boxed {
        q.push(format!("boxed={}", enc(m)));
    }
    if r.chance(1, 2) {
        q.push("unknown=1".into());
    }
    r.shuffle(&mut q);
    let refuse = match r.below(6) {
        0 => {
            q.retain(|x| !x.starts_with("text="));
            true
        }
        1 => {
            q.push(format!("size={}", full.size));
            q.push(format!("sz={}", full.size));
            true
        }
        _ => false,
    };
    let id = next_id();
    let body = id_body(id, b"raw");
    let expect = format!("{:?}", Req { path: (), query: want, header: Nothing {}, body: body.clone() });
    let target = format!("/s200?{}", q.join("&"));
    let mut last = String::new();
    for _ in 0..3 {
        let mut c = match Conn::connect(addr) {
            Ok(c) => c,
            Err(e) => {
                last = e.to_string();
                continue;
            }
        };
        c.send(&http_request("PUT", &target, &[], &body));
        let got = c.response(false);
        let ev: Vec<String> = {
            let mut g = desk.log.lock().unwrap();
            let (a, b): (Vec<_>, Vec<_>) = std::mem::take(&mut *g).into_iter().partition(|e| e.0 == id);
            *g = b;
            a.into_iter().map(|e| e.1).collect()
        };
        if refuse && !ev.is_empty() {
            ctx.violate("shape-malformed-ran", format!("{} ran the handler with {}", target, ev[0]));
            return;
        }
        if let Some(e) = ev.iter().find(|e| **e != expect) {
            ctx.violate("shape-raw-altered", format!("{}: expected {}, received {}", target, expect, e));
            return;
        }
        match got {
            Recv::Msg(m) => {
                ctx.eval(&format!("shape raw {}", target));
                ctx.count("shapes_raw", 1);
                let s = if refuse { 400 } else { 200 };
                if m.status() != s {
                    ctx.violate("shape-raw-status", format!("{} answered {} instead of {}", target, m.status(), s));
                }
                return;
            }
            o => last = o.describe(),
        }
    }
    ctx.violate("shape-no-response", format!("{}: {}", target, last));
}
#[derive(Clone, Copy, PartialEq)]
pub enum Part {
    Path,
    Query,
    Header,
    Response,
}
pub fn run(ctx: &Ctx, cli: &Exec, part: Part, seed: u64) {
    let mut r = Rng::new(seed);
    let desk = Arc::new(Desk::default());
    fn fill(s: &mut Set, part: Part) {
        match part {
            Part::Path => paths(s),
            Part::Query => queries(s),
            Part::Header => head(s),
            Part::Response => responses(s),
        }
    }
    let mut jobs = Vec::new();
    let d2 = desk.clone();
    let server = Server::start(r.range(1, 2), |b| {
        let mut s = Set { desk: d2.clone(), builder: Some(b), jobs: Vec::new() };
        fill(&mut s, part);
    });
    {
        let mut s = Set { desk: desk.clone(), builder: None, jobs: Vec::new() };
        fill(&mut s, part);
        jobs.append(&mut s.jobs);
    }
    for _ in 0..3 {
        for j in jobs.iter_mut() {
            if ctx.violation_count() >= 5 {
                return;
            }
            j(ctx, cli, server.addr, &mut r);
        }
        if part == Part::Query {
            for _ in 0..10 {
                raw_queries(ctx, &desk, server.addr, &mut r);
            }
        }
    }
    if !server.healthy() {
        ctx.violate("server-ended", "the server ended while serving calls with unusual types".into());
    }
    let left: Vec<_> = desk.log.lock().unwrap().iter().take(3).cloned().collect();
    if !left.is_empty() {
        ctx.violate("shape-stray", format!("handlers ran for no call: {:?}", left));
    }
    report_panics(ctx, "calls with unusual types");
}
