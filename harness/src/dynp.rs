//! Procedures whose entry point, method, argument schema and response schema are chosen at run
//! time. `Dp<N>` reads its definition from slot N; its (de)serialization code makes the same serde
//! calls that derived code makes.
use futures::Future;
use htrpc::types::{EntryPoint, HttpMethod, NeverFail, PathSegment};
use htrpc::{BodyReader, FutureExt, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse};
use serde::de::{self, DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct};
use serde::{Deserialize, Serialize, Serializer};
use std::collections::HashMap;
use std::fmt;
use std::sync::{Arc, Mutex};

pub const NSLOT: usize = 16;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Str,
    /// newtype struct around a string
    NewStr,
    /// newtype struct around u32
    NewU32,
    /// byte string (headers only)
    Bytes,
}
#[derive(Debug, Clone)]
pub enum Val {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Str(String),
    NewStr(String),
    NewU32(u32),
    Bytes(Vec<u8>),
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (I8(a), I8(b)) => a == b,
            (I16(a), I16(b)) => a == b,
            (I32(a), I32(b)) => a == b,
            (I64(a), I64(b)) => a == b,
            (U8(a), U8(b)) => a == b,
            (U16(a), U16(b)) => a == b,
            (U32(a), U32(b)) => a == b,
            (U64(a), U64(b)) => a == b,
            (F32(a), F32(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (F64(a), F64(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Str(a), Str(b)) => a == b,
            (NewStr(a), NewStr(b)) => a == b,
            (NewU32(a), NewU32(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            _ => false,
        }
    }
}
struct RawBytes<'a>(&'a [u8]);
impl<'a> Serialize for RawBytes<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
#[derive(Serialize, Deserialize)]
struct NewStrT(String);
#[derive(Serialize, Deserialize)]
struct NewU32T(u32);
struct BytesT(Vec<u8>);
impl<'de> Deserialize<'de> for BytesT {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = BytesT;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "bytes")
            }
            fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<BytesT, E> {
                Ok(BytesT(v.to_vec()))
            }
            fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<BytesT, E> {
                Ok(BytesT(v))
            }
        }
        d.deserialize_bytes(V)
    }
}
impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Val::Bool(v) => v.serialize(s),
            Val::I8(v) => v.serialize(s),
            Val::I16(v) => v.serialize(s),
            Val::I32(v) => v.serialize(s),
            Val::I64(v) => v.serialize(s),
            Val::U8(v) => v.serialize(s),
            Val::U16(v) => v.serialize(s),
            Val::U32(v) => v.serialize(s),
            Val::U64(v) => v.serialize(s),
            Val::F32(v) => v.serialize(s),
            Val::F64(v) => v.serialize(s),
            Val::Str(v) => v.serialize(s),
            Val::NewStr(v) => NewStrT(v.clone()).serialize(s),
            Val::NewU32(v) => NewU32T(*v).serialize(s),
            Val::Bytes(v) => RawBytes(v).serialize(s),
        }
    }
}
impl<'de> DeserializeSeed<'de> for Ty {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(match self {
            Ty::Bool => Val::Bool(Deserialize::deserialize(d)?),
            Ty::I8 => Val::I8(Deserialize::deserialize(d)?),
            Ty::I16 => Val::I16(Deserialize::deserialize(d)?),
            Ty::I32 => Val::I32(Deserialize::deserialize(d)?),
            Ty::I64 => Val::I64(Deserialize::deserialize(d)?),
            Ty::U8 => Val::U8(Deserialize::deserialize(d)?),
            Ty::U16 => Val::U16(Deserialize::deserialize(d)?),
            Ty::U32 => Val::U32(Deserialize::deserialize(d)?),
            Ty::U64 => Val::U64(Deserialize::deserialize(d)?),
            Ty::F32 => Val::F32(Deserialize::deserialize(d)?),
            Ty::F64 => Val::F64(Deserialize::deserialize(d)?),
            Ty::Str => Val::Str(Deserialize::deserialize(d)?),
            Ty::NewStr => Val::NewStr(NewStrT::deserialize(d)?.0),
            Ty::NewU32 => Val::NewU32(NewU32T::deserialize(d)?.0),
            Ty::Bytes => Val::Bytes(BytesT::deserialize(d)?.0),
        })
    }
}
/// Optional variant of a typed value, through `deserialize_option`.
struct OptSeed(Ty);
impl<'de> DeserializeSeed<'de> for OptSeed {
    type Value = Option<Val>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<Val>, D::Error> {
        struct V(Ty);
        impl<'de> Visitor<'de> for V {
            type Value = Option<Val>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "option")
            }
            fn visit_none<E: de::Error>(self) -> Result<Self::Value, E> {
                Ok(None)
            }
            fn visit_unit<E: de::Error>(self) -> Result<Self::Value, E> {
                Ok(None)
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
                self.0.deserialize(d).map(Some)
            }
        }
        d.deserialize_option(V(self.0))
    }
}

#[derive(Debug, Clone)]
pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    pub opt: bool,
}
#[derive(Debug, Clone)]
pub enum Sect {
    /// The request type has no such field.
    Absent,
    Struct(Vec<Field>),
    /// Map of strings.
    Map,
}
#[derive(Debug, Clone)]
pub enum PathSect {
    Absent,
    Unit,
    UnitStruct,
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
}
impl PathSect {
    pub fn tys(&self) -> &[Ty] {
        match self {
            PathSect::Tuple(t) | PathSect::TupleStruct(t) => t,
            _ => &[],
        }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Vals {
    Absent,
    Struct(Vec<Option<Val>>),
    Map(Vec<(String, String)>),
}
#[derive(Debug, Clone)]
pub enum RespShape {
    /// struct { status: u16, header }
    Num(Sect),
    /// enum with one alternative per listed status; Absent = unit alternative
    Named(Vec<(u16, Sect)>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum ReadMode {
    All,
    Skip,
    Part(usize),
}
#[derive(Debug, Clone)]
pub struct Schema {
    pub method: HttpMethod,
    pub ep: EntryPoint,
    pub path: PathSect,
    pub query: Sect,
    pub header: Sect,
    pub resp: RespShape,
    pub read: ReadMode,
    /// The call id is the first path argument (a u64) instead of the first 8 body bytes.
    pub id_in_path: bool,
}
pub fn entry_point(segs: &[Option<&str>]) -> EntryPoint {
    let v: Vec<PathSegment> = segs
        .iter()
        .map(|s| match s {
            Some(s) => PathSegment::Val(Box::leak(s.to_string().into_boxed_str())),
            None => PathSegment::Var,
        })
        .collect();
    EntryPoint::new(Box::leak(v.into_boxed_slice()))
}
pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

static SLOTS: Mutex<Vec<Option<Arc<Schema>>>> = Mutex::new(Vec::new());
pub fn set_slot(n: usize, s: Schema) {
    let mut g = SLOTS.lock().unwrap_or_else(|e| e.into_inner());
    if g.len() < NSLOT {
        g.resize(NSLOT, None);
    }
    g[n] = Some(Arc::new(s));
}
pub fn slot(n: usize) -> Arc<Schema> {
    SLOTS.lock().unwrap_or_else(|e| e.into_inner())[n]
        .clone()
        .expect("slot not set")
}

pub struct Dp<const N: usize>;
impl<const N: usize> Procedure for Dp<N> {
    type Request = DReq<N>;
    type Response = DResp<N>;
    fn method() -> HttpMethod {
        slot(N).method
    }
    fn entry_point() -> EntryPoint {
        slot(N).ep
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct ReqVal {
    pub path: Vec<Val>,
    pub query: Vals,
    pub header: Vals,
    pub body: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct RespVal {
    pub status: u16,
    pub header: Vals,
    pub body: Vec<u8>,
}
#[derive(Debug, Clone)]
pub struct DReq<const N: usize>(pub ReqVal);
#[derive(Debug, Clone)]
pub struct DResp<const N: usize>(pub RespVal);

struct PathSer<'a>(&'a PathSect, &'a [Val]);
impl<'a> Serialize for PathSer<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            PathSect::Absent => unreachable!(),
            PathSect::Unit => s.serialize_unit(),
            PathSect::UnitStruct => s.serialize_unit_struct("Path"),
            PathSect::Tuple(_) => {
                let mut t = s.serialize_tuple(self.1.len())?;
                for v in self.1 {
                    t.serialize_element(v)?;
                }
                t.end()
            }
            PathSect::TupleStruct(_) => {
                let mut t = s.serialize_tuple_struct("Path", self.1.len())?;
                for v in self.1 {
                    t.serialize_field(v)?;
                }
                t.end()
            }
        }
    }
}
/// Text that is the canonical form of a number or boolean is serialized as such.
struct Loose<'a>(&'a str);
impl<'a> Serialize for Loose<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        fn canon<T: std::str::FromStr + ToString>(t: &str) -> Option<T> {
            t.parse::<T>().ok().filter(|v| v.to_string() == t)
        }
        let t = self.0;
        if let Some(v) = canon::<bool>(t) {
            v.serialize(s)
        } else if let Some(v) = canon::<u8>(t) {
            v.serialize(s)
        } else if let Some(v) = canon::<i16>(t) {
            v.serialize(s)
        } else if let Some(v) = canon::<i64>(t) {
            v.serialize(s)
        } else if let Some(v) = canon::<u64>(t) {
            v.serialize(s)
        } else if let Some(v) = canon::<f64>(t) {
            v.serialize(s)
        } else {
            t.serialize(s)
        }
    }
}
struct SectSer<'a>(&'a Sect, &'a Vals);
impl<'a> Serialize for SectSer<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Sect::Struct(fs), Vals::Struct(vs)) => {
                let mut t = s.serialize_struct("Sect", fs.len())?;
                for (f, v) in fs.iter().zip(vs) {
                    if f.opt {
                        t.serialize_field(f.name, v)?;
                    } else {
                        t.serialize_field(f.name, v.as_ref().expect("required"))?;
                    }
                }
                t.end()
            }
            (Sect::Map, Vals::Map(kv)) => {
                // Maps with optional, numeric and boolean values (or numeric keys) look the same on
                // the wire; which one is sent is a function of the contents.
                let h = kv.iter().fold(kv.len() as u64, |h, (k, v)| h.rotate_left(7) ^ crate::rng::fnv(k.as_bytes()) ^ crate::rng::fnv(v.as_bytes()).rotate_left(3));
                let optional = h % 3 == 0;
                let typed = h % 2 == 0;
                let hole = (h >> 8) as usize % (kv.len() + 1);
                let mut m = s.serialize_map(if h % 5 == 0 { None } else { Some(kv.len()) })?;
                for (i, (k, v)) in kv.iter().enumerate() {
                    if optional && i == hole {
                        m.serialize_entry("x-no-such-value", &None::<String>)?;
                    }
                    if typed {
                        m.serialize_key(&Loose(k))?;
                        if optional {
                            m.serialize_value(&Some(Loose(v)))?;
                        } else {
                            m.serialize_value(&Loose(v))?;
                        }
                    } else if optional {
                        m.serialize_entry(k, &Some(v))?;
                    } else {
                        m.serialize_entry(k, v)?;
                    }
                }
                if optional && hole == kv.len() {
                    m.serialize_entry("x-no-such-value", &None::<u64>)?;
                }
                m.end()
            }
            _ => Err(serde::ser::Error::custom("harness: schema mismatch")),
        }
    }
}
impl<const N: usize> Serialize for DReq<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let sc = slot(N);
        let mut t = s.serialize_struct("Request", 3)?;
        if !matches!(sc.path, PathSect::Absent) {
            t.serialize_field("path", &PathSer(&sc.path, &self.0.path))?;
        }
        if !matches!(sc.query, Sect::Absent) {
            t.serialize_field("query", &SectSer(&sc.query, &self.0.query))?;
        }
        if !matches!(sc.header, Sect::Absent) {
            t.serialize_field("header", &SectSer(&sc.header, &self.0.header))?;
        }
        t.end()
    }
}

struct Key(String);
impl<'de> Deserialize<'de> for Key {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Key, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Key;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "field identifier")
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<Key, E> {
                Ok(Key(v.to_owned()))
            }
        }
        d.deserialize_identifier(V)
    }
}
struct PathSeed<'a>(&'a PathSect);
impl<'a, 'de> DeserializeSeed<'de> for PathSeed<'a> {
    type Value = Vec<Val>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Vec<Val>, D::Error> {
        struct V<'a>(&'a [Ty]);
        impl<'a, 'de> Visitor<'de> for V<'a> {
            type Value = Vec<Val>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "path")
            }
            fn visit_unit<E: de::Error>(self) -> Result<Vec<Val>, E> {
                Ok(Vec::new())
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
                let mut v = Vec::new();
                for (i, t) in self.0.iter().enumerate() {
                    match a.next_element_seed(*t)? {
                        Some(x) => v.push(x),
                        None => return Err(de::Error::invalid_length(i, &"more elements")),
                    }
                }
                Ok(v)
            }
        }
        match self.0 {
            PathSect::Absent => unreachable!(),
            PathSect::Unit => d.deserialize_unit(V(&[])),
            PathSect::UnitStruct => d.deserialize_unit_struct("Path", V(&[])),
            PathSect::Tuple(t) => d.deserialize_tuple(t.len(), V(t)),
            PathSect::TupleStruct(t) => d.deserialize_tuple_struct("Path", t.len(), V(t)),
        }
    }
}
struct SectSeed<'a>(&'a Sect);
impl<'a, 'de> DeserializeSeed<'de> for SectSeed<'a> {
    type Value = Vals;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Vals, D::Error> {
        match self.0 {
            Sect::Absent => unreachable!(),
            Sect::Struct(fs) => {
                let names: Vec<&'static str> = fs.iter().map(|f| f.name).collect();
                let names: &'static [&'static str] = intern(names);
                d.deserialize_struct("Sect", names, StructV(fs))
            }
            Sect::Map => d.deserialize_map(MapV),
        }
    }
}
fn intern(names: Vec<&'static str>) -> &'static [&'static str] {
    static TABLE: Mutex<Vec<&'static [&'static str]>> = Mutex::new(Vec::new());
    let mut t = TABLE.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = t.iter().find(|x| ***x == names[..]) {
        return x;
    }
    let l: &'static [&'static str] = Box::leak(names.into_boxed_slice());
    if t.len() > 4000 {
        t.clear();
    }
    t.push(l);
    l
}
struct StructV<'a>(&'a [Field]);
impl<'a, 'de> Visitor<'de> for StructV<'a> {
    type Value = Vals;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "struct")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vals, A::Error> {
        let mut out: Vec<Option<Option<Val>>> = vec![None; self.0.len()];
        while let Some(Key(k)) = a.next_key()? {
            if let Some(i) = self.0.iter().position(|f| f.name == k) {
                if out[i].is_some() {
                    return Err(de::Error::duplicate_field(self.0[i].name));
                }
                out[i] = Some(if self.0[i].opt {
                    a.next_value_seed(OptSeed(self.0[i].ty))?
                } else {
                    Some(a.next_value_seed(self.0[i].ty)?)
                });
            } else {
                a.next_value::<IgnoredAny>()?;
            }
        }
        let mut v = Vec::new();
        for (i, o) in out.into_iter().enumerate() {
            match o {
                Some(x) => v.push(x),
                None if self.0[i].opt => v.push(None),
                None => return Err(de::Error::missing_field(self.0[i].name)),
            }
        }
        Ok(Vals::Struct(v))
    }
}
struct MapV;
impl<'de> Visitor<'de> for MapV {
    type Value = Vals;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vals, A::Error> {
        let mut v = Vec::new();
        loop {
            // maps of strings and of optional strings alike
            if v.len() % 2 == 0 {
                match a.next_entry::<String, String>()? {
                    Some(e) => v.push(e),
                    None => break,
                }
            } else {
                match a.next_entry::<String, Option<String>>()? {
                    Some((k, Some(x))) => v.push((k, x)),
                    Some((k, None)) => v.push((k, "<none>".into())),
                    None => break,
                }
            }
        }
        Ok(Vals::Map(v))
    }
}
impl<'de, const N: usize> Deserialize<'de> for DReq<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V(Arc<Schema>);
        impl<'de> Visitor<'de> for V {
            type Value = ReqVal;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "request")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<ReqVal, A::Error> {
                let s = &*self.0;
                let (mut p, mut q, mut h) = (None, None, None);
                while let Some(Key(k)) = a.next_key()? {
                    if k == "path" && !matches!(s.path, PathSect::Absent) {
                        p = Some(a.next_value_seed(PathSeed(&s.path))?);
                    } else if k == "query" && !matches!(s.query, Sect::Absent) {
                        q = Some(a.next_value_seed(SectSeed(&s.query))?);
                    } else if k == "header" && !matches!(s.header, Sect::Absent) {
                        h = Some(a.next_value_seed(SectSeed(&s.header))?);
                    } else {
                        a.next_value::<IgnoredAny>()?;
                    }
                }
                if p.is_none() && !matches!(s.path, PathSect::Absent) {
                    return Err(de::Error::missing_field("path"));
                }
                if q.is_none() && !matches!(s.query, Sect::Absent) {
                    return Err(de::Error::missing_field("query"));
                }
                if h.is_none() && !matches!(s.header, Sect::Absent) {
                    return Err(de::Error::missing_field("header"));
                }
                Ok(ReqVal {
                    path: p.unwrap_or_default(),
                    query: q.unwrap_or(Vals::Absent),
                    header: h.unwrap_or(Vals::Absent),
                    body: Vec::new(),
                })
            }
        }
        d.deserialize_struct("Request", &["path", "query", "header"], V(slot(N)))
            .map(DReq)
    }
}
impl<const N: usize> RpcRequest for DReq<N> {
    fn body(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.0.body)
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        match slot(N).read {
            ReadMode::All => Box::new(body.read_all_bytes().map_err(htrpc::Error::from).map(
                move |(b, bytes)| {
                    self.0.body = bytes;
                    (b, self)
                },
            )),
            ReadMode::Skip => Box::new(futures::finished((body, self))),
            ReadMode::Part(n) => Box::new(
                PartRead {
                    r: Some(body),
                    want: n,
                    got: Vec::new(),
                }
                .map(move |(b, bytes)| {
                    self.0.body = bytes;
                    (b, self)
                }),
            ),
        }
    }
}
struct PartRead {
    r: Option<BodyReader>,
    want: usize,
    got: Vec<u8>,
}
impl Future for PartRead {
    type Item = (BodyReader, Vec<u8>);
    type Error = htrpc::Error;
    fn poll(&mut self) -> futures::Poll<Self::Item, Self::Error> {
        use std::io::Read;
        loop {
            let left = self.want - self.got.len();
            if left == 0 {
                break;
            }
            let mut tmp = vec![0u8; left.min(4096)];
            match self.r.as_mut().unwrap().read(&mut tmp) {
                Ok(0) => break,
                Ok(n) => self.got.extend_from_slice(&tmp[..n]),
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    return Ok(futures::Async::NotReady)
                }
                Err(e) => return Err(htrpc::Error::from(e)),
            }
        }
        Ok(futures::Async::Ready((
            self.r.take().unwrap(),
            std::mem::take(&mut self.got),
        )))
    }
}

impl<const N: usize> Serialize for DResp<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let sc = slot(N);
        match &sc.resp {
            RespShape::Num(h) => {
                let mut t = s.serialize_struct("Response", 2)?;
                t.serialize_field("status", &self.0.status)?;
                if !matches!(h, Sect::Absent) {
                    t.serialize_field("header", &SectSer(h, &self.0.header))?;
                }
                t.end()
            }
            RespShape::Named(alts) => {
                let (i, alt) = match alts.iter().enumerate().find(|a| (a.1).0 == self.0.status) {
                    Some(x) => x,
                    None => return Err(serde::ser::Error::custom("harness: no such alternative")),
                };
                let name = crate::status::name_of(alt.0).unwrap();
                match &alt.1 {
                    Sect::Absent => s.serialize_unit_variant("Response", i as u32, name),
                    h => {
                        let mut t = s.serialize_struct_variant("Response", i as u32, name, 1)?;
                        t.serialize_field("header", &SectSer(h, &self.0.header))?;
                        t.end()
                    }
                }
            }
        }
    }
}
struct NumRespV(Arc<Schema>);
impl<'de> Visitor<'de> for NumRespV {
    type Value = RespVal;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "response")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<RespVal, A::Error> {
        let h = match &self.0.resp {
            RespShape::Num(h) => h,
            _ => unreachable!(),
        };
        let mut status = None;
        let mut header = None;
        while let Some(Key(k)) = a.next_key()? {
            match &k[..] {
                "status" => status = Some(a.next_value::<u16>()?),
                "header" if !matches!(h, Sect::Absent) => {
                    header = Some(a.next_value_seed(SectSeed(h))?)
                }
                _ => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        if header.is_none() && !matches!(h, Sect::Absent) {
            return Err(de::Error::missing_field("header"));
        }
        Ok(RespVal {
            status: status.ok_or_else(|| de::Error::missing_field("status"))?,
            header: header.unwrap_or(Vals::Absent),
            body: Vec::new(),
        })
    }
}
struct NamedRespV(Arc<Schema>);
impl<'de> Visitor<'de> for NamedRespV {
    type Value = RespVal;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "response alternative")
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<RespVal, A::Error> {
        use serde::de::VariantAccess;
        let alts = match &self.0.resp {
            RespShape::Named(a) => a,
            _ => unreachable!(),
        };
        let (Key(k), va) = a.variant::<Key>()?;
        let alt = alts
            .iter()
            .find(|x| crate::status::name_of(x.0) == Some(&k[..]))
            .ok_or_else(|| <A::Error as de::Error>::custom("unknown variant"))?;
        let header = match &alt.1 {
            Sect::Absent => {
                va.unit_variant()?;
                Vals::Absent
            }
            h => {
                struct HV<'a>(&'a Sect);
                impl<'a, 'de> Visitor<'de> for HV<'a> {
                    type Value = Vals;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        write!(f, "alternative fields")
                    }
                    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vals, A::Error> {
                        let mut h = None;
                        while let Some(Key(k)) = a.next_key()? {
                            if k == "header" {
                                h = Some(a.next_value_seed(SectSeed(self.0))?);
                            } else {
                                a.next_value::<IgnoredAny>()?;
                            }
                        }
                        h.ok_or_else(|| de::Error::missing_field("header"))
                    }
                }
                va.struct_variant(&["header"], HV(h))?
            }
        };
        Ok(RespVal {
            status: alt.0,
            header,
            body: Vec::new(),
        })
    }
}
impl<'de, const N: usize> Deserialize<'de> for DResp<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let sc = slot(N);
        match sc.resp {
            RespShape::Num(_) => d
                .deserialize_struct("Response", &["status", "header"], NumRespV(sc))
                .map(DResp),
            RespShape::Named(_) => d
                .deserialize_enum("Response", crate::status::NAMES, NamedRespV(sc))
                .map(DResp),
        }
    }
}
impl<const N: usize> RpcResponse for DResp<N> {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(std::mem::take(&mut self.0.body))
    }
    fn set_body(&mut self, body: Vec<u8>) {
        self.0.body = body;
    }
}

/// What the handlers observed.
#[derive(Clone)]
pub struct Event {
    pub slot: usize,
    pub req: ReqVal,
}
/// Shared between all handlers of a server: the event log and the responses to give.
#[derive(Default)]
pub struct Board {
    pub events: Mutex<Vec<Event>>,
    /// Response by call id (first 8 body bytes); the default is 200/204-like per schema.
    pub plan: Mutex<HashMap<u64, RespVal>>,
    /// Response by slot when there is no plan for the id.
    pub slot_plan: Mutex<HashMap<usize, RespVal>>,
    /// The handler of this call waits until the gate is opened (or its sender dropped).
    pub gates: Mutex<HashMap<u64, fibers::sync::oneshot::Receiver<()>>>,
    /// The handler of this call waits so many milliseconds.
    pub delays: Mutex<HashMap<u64, u64>>,
    /// Ids in the order in which their handlers finished.
    pub done: Mutex<Vec<u64>>,
}
impl Board {
    /// Makes the handler of this call wait until the returned sender sends or is dropped.
    pub fn gate(&self, id: u64) -> fibers::sync::oneshot::Sender<()> {
        let (tx, rx) = fibers::sync::oneshot::channel();
        self.gates.lock().unwrap().insert(id, rx);
        tx
    }
    pub fn take(&self) -> Vec<Event> {
        std::mem::take(&mut self.events.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn len(&self) -> usize {
        self.events.lock().unwrap_or_else(|e| e.into_inner()).len()
    }
}
pub fn call_id(body: &[u8]) -> Option<u64> {
    if body.len() >= 8 {
        let mut b = [0; 8];
        b.copy_from_slice(&body[..8]);
        Some(u64::from_le_bytes(b))
    } else {
        None
    }
}
pub struct Dh<const N: usize>(pub Arc<Board>);
impl<const N: usize> Clone for Dh<N> {
    fn clone(&self) -> Self {
        Dh(self.0.clone())
    }
}
impl<const N: usize> HandleRpc<Dp<N>> for Dh<N> {
    type Future = Box<dyn Future<Item = DResp<N>, Error = NeverFail> + Send + 'static>;
    fn handle_rpc(self, request: DReq<N>) -> Self::Future {
        let id = event_id(&slot(N), &request.0);
        let resp = id
            .and_then(|id| self.0.plan.lock().unwrap().get(&id).cloned())
            .or_else(|| self.0.slot_plan.lock().unwrap().get(&N).cloned())
            .unwrap_or_else(|| default_resp(&slot(N), &request.0));
        self.0.events.lock().unwrap().push(Event {
            slot: N,
            req: request.0,
        });
        let id = match id {
            None => return Box::new(futures::finished(DResp(resp))),
            Some(id) => id,
        };
        let gate = self.0.gates.lock().unwrap().remove(&id);
        let delay = self.0.delays.lock().unwrap().remove(&id);
        let board = self.0.clone();
        let end = move || {
            board.done.lock().unwrap().push(id);
            DResp(resp)
        };
        match (gate, delay) {
            (None, None) => Box::new(futures::finished(end())),
            (Some(g), _) => Box::new(g.then(move |_| Ok(end()))),
            (_, Some(ms)) => Box::new(
                fibers::time::timer::timeout(std::time::Duration::from_millis(ms)).then(move |_| Ok(end())),
            ),
        }
    }
}
pub fn event_id(s: &Schema, req: &ReqVal) -> Option<u64> {
    if s.id_in_path {
        match req.path.first() {
            Some(Val::U64(x)) => Some(*x),
            _ => None,
        }
    } else {
        call_id(&req.body)
    }
}
pub fn default_resp(s: &Schema, req: &ReqVal) -> RespVal {
    let (status, sect) = match &s.resp {
        RespShape::Num(h) => (200, h),
        RespShape::Named(a) => (a[0].0, &a[0].1),
    };
    RespVal {
        status,
        header: match sect {
            Sect::Absent => Vals::Absent,
            Sect::Struct(f) if f.iter().all(|f| f.opt) => Vals::Struct(vec![None; f.len()]),
            Sect::Struct(_) => Vals::Absent,
            Sect::Map => Vals::Map(vec![]),
        },
        body: event_id(s, req).map(|i| i.to_le_bytes().to_vec()).unwrap_or_default(),
    }
}

macro_rules! by_slot {
    ($n:expr, $c:ident, $body:expr) => {
        match $n {
            0 => { const $c: usize = 0; $body }
            1 => { const $c: usize = 1; $body }
            2 => { const $c: usize = 2; $body }
            3 => { const $c: usize = 3; $body }
            4 => { const $c: usize = 4; $body }
            5 => { const $c: usize = 5; $body }
            6 => { const $c: usize = 6; $body }
            7 => { const $c: usize = 7; $body }
            8 => { const $c: usize = 8; $body }
            9 => { const $c: usize = 9; $body }
            10 => { const $c: usize = 10; $body }
            11 => { const $c: usize = 11; $body }
            12 => { const $c: usize = 12; $body }
            13 => { const $c: usize = 13; $body }
            14 => { const $c: usize = 14; $body }
            15 => { const $c: usize = 15; $body }
            _ => unreachable!(),
        }
    };
}
/// Registers slot n; returns whether registration succeeded.
pub fn register(b: &mut htrpc::RpcServerBuilder, n: usize, board: &Arc<Board>) -> bool {
    by_slot!(n, C, b.register(Dh::<C>(board.clone()), Dp::<C>).is_ok())
}
pub type CallFut = Box<dyn Future<Item = RespVal, Error = htrpc::Error> + Send + 'static>;
pub fn call(addr: std::net::SocketAddr, n: usize, req: ReqVal) -> CallFut {
    by_slot!(n, C, Box::new(
        htrpc::RpcClient::new(addr).call::<Dp<C>>(DReq(req)).map(|r| r.0)
    ))
}
pub fn pool_call(h: &htrpc::pool::RpcClientPoolHandle, addr: std::net::SocketAddr, n: usize, req: ReqVal) -> CallFut {
    by_slot!(n, C, Box::new(
        h.client(addr).call::<Dp<C>>(DReq(req)).map(|r| r.0)
    ))
}
