//! C04 (payload round trips and layouts), C05 (malformed payloads)
use crate::ensure;
use crate::gen::*;
use crate::refcodec::{self, Frame};
use crate::runner::{cases, Info, Outcome, Runner};
use crate::sim::{IoPlan, Net};
use crate::util::*;
use bromine::error_event::ErrorEventData;
use bromine::prelude::*;
use bytes::Bytes;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Read;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    Nothing,
    Wrapped(i32),
    Pair(u8, String),
    Named { a: Option<u16>, b: Vec<bool> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Inner {
    pub flag: bool,
    pub ch: char,
    pub shapes: Vec<Shape>,
    pub half: f32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sample {
    pub small: u8,
    pub neg: i64,
    pub big: u64,
    pub text: String,
    pub list: Vec<u16>,
    pub map: BTreeMap<String, i32>,
    pub opt: Option<Box<Inner>>,
    pub eighth: f64,
    pub unit: (),
    pub tuple: (i8, u32, Shape),
}

/// Values of several types, each serialised as its own type
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    U(u64),
    I(i64),
    Str(String),
    Long(Text),
    Bytes(Blob),
    OptU(Option<u32>),
    Tup(u8, String, i16),
    Map(BTreeMap<u32, String>),
    Shape(Shape),
    Sample(Sample),
    /// has another form in formats for humans
    Ip(std::net::IpAddr),
    Times(std::time::Duration, Option<i64>),
}

fn shape() -> BoxedStrategy<Shape> {
    prop_oneof![
        Just(Shape::Nothing),
        any::<i32>().prop_map(Shape::Wrapped),
        (any::<u8>(), text(6)).prop_map(|(a, b)| Shape::Pair(a, b)),
        (opt(any::<u16>()), vec(any::<bool>(), 0..4)).prop_map(|(a, b)| Shape::Named { a, b }),
    ]
    .boxed()
}

fn int64() -> BoxedStrategy<i64> {
    prop_oneof![any::<i64>(), -130i64..130, Just(i64::MIN), Just(i64::MAX)].boxed()
}

fn sample() -> BoxedStrategy<Sample> {
    let inner = (any::<bool>(), any::<char>(), vec(shape(), 0..4), any::<i16>())
        .prop_map(|(flag, ch, shapes, h)| Box::new(Inner { flag, ch, shapes, half: h as f32 / 2.0 }));
    (
        (any::<u8>(), int64(), ids(), text(20), vec(any::<u16>(), 0..20)),
        proptest::collection::btree_map(text(5), any::<i32>(), 0..4),
        opt(inner),
        any::<i32>(),
        (any::<i8>(), any::<u32>(), shape()),
    )
        .prop_map(|((small, neg, big, text, list), map, opt, e, tuple)| Sample {
            small, neg, big, text, list, map, opt, eighth: e as f64 / 8.0, unit: (), tuple,
        })
        .boxed()
}

pub fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        1 => Just(Val::Unit),
        1 => any::<bool>().prop_map(Val::Bool),
        1 => ids().prop_map(Val::U),
        1 => int64().prop_map(Val::I),
        1 => text(30).prop_map(Val::Str),
        1 => name().prop_map(Val::Long),
        2 => blob(100_000).prop_map(Val::Bytes),
        1 => opt(any::<u32>()).prop_map(Val::OptU),
        1 => (any::<u8>(), text(5), any::<i16>()).prop_map(|(a, b, c)| Val::Tup(a, b, c)),
        1 => proptest::collection::btree_map(any::<u32>(), text(5), 0..4).prop_map(Val::Map),
        1 => shape().prop_map(Val::Shape),
        1 => any::<std::net::IpAddr>().prop_map(Val::Ip),
        1 => (any::<u32>(), 0u32..1_000_000_000, opt(any::<i64>()))
            .prop_map(|(s, n, i)| Val::Times(std::time::Duration::new(s as u64, n), i)),
        4 => sample().prop_map(Val::Sample),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pv {
    Raw(Blob),
    RawFromBytes(Blob),
    Error(u16, Text),
    /// serialised with the given format
    Serde(u8, Val),
    /// serialised with the default of the context
    Plain(Val),
    Tandem(Box<Pv>, Box<Pv>),
}

fn pv() -> BoxedStrategy<Pv> {
    let leaf = prop_oneof![
        2 => blob(70_000).prop_map(Pv::Raw),
        1 => blob(70_000).prop_map(Pv::RawFromBytes),
        2 => (any::<u16>(), name()).prop_map(|(c, m)| Pv::Error(c, m)),
        3 => (0u8..4, val()).prop_map(|(f, v)| Pv::Serde(f, v)),
        2 => val().prop_map(Pv::Plain),
    ];
    let leaf = leaf.boxed();
    let tandem = leaf.clone().prop_recursive(4, 10, 2, |inner| {
        (inner.clone(), inner).prop_map(|(a, b)| Pv::Tandem(Box::new(a), Box::new(b)))
    });
    prop_oneof![leaf, tandem].boxed()
}

/// The independent encoder of the formats that are compiled in
pub fn available() -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    if cfg!(feature = "fmt_rmp") {
        v.push(0)
    }
    if cfg!(feature = "fmt_bincode") {
        v.push(1)
    }
    if cfg!(feature = "fmt_postcard") {
        v.push(2)
    }
    if cfg!(feature = "fmt_json") {
        v.push(3)
    }
    v
}

#[cfg(feature = "serialize")]
pub mod with_serde {
    use super::*;
    use serde::de::DeserializeOwned;

    pub fn serializer(f: u8) -> DynamicSerializer {
        match f {
            0 => DynamicSerializer::Messagepack,
            1 => DynamicSerializer::Bincode,
            2 => DynamicSerializer::Postcard,
            _ => DynamicSerializer::Json,
        }
    }

    /// Calls `$f` with the value as its own type
    macro_rules! with_val {
        ($v:expr, $x:ident => $e:expr) => {
            match $v.clone() {
                Val::Unit => { let $x = (); $e }
                Val::Bool($x) => $e,
                Val::U($x) => $e,
                Val::I($x) => $e,
                Val::Str($x) => $e,
                Val::Long(t) => { let $x = t.get(); $e }
                Val::Bytes(b) => { let $x = b.bytes(); $e }
                Val::OptU($x) => $e,
                Val::Tup(a, b, c) => { let $x = (a, b, c); $e }
                Val::Map($x) => $e,
                Val::Shape($x) => $e,
                Val::Sample($x) => $e,
                Val::Ip($x) => $e,
                Val::Times(a, b) => { let $x = (a, b); $e }
            }
        };
    }

    pub fn ref_encode<T: Serialize>(f: u8, x: &T) -> Vec<u8> {
        let _ = x;
        match f {
            #[cfg(feature = "fmt_rmp")]
            0 => rmp_serde::to_vec(x).unwrap(),
            #[cfg(feature = "fmt_bincode")]
            1 => bincode::serialize(x).unwrap(),
            #[cfg(feature = "fmt_postcard")]
            2 => postcard::to_allocvec(x).unwrap(),
            #[cfg(feature = "fmt_json")]
            3 => serde_json::to_vec(x).unwrap(),
            f => unreachable!("format {f}"),
        }
    }

    /// Everything that decoding these bytes may give, each as a result
    pub fn ref_decode<T: DeserializeOwned>(f: u8, b: &[u8]) -> Vec<Option<T>> {
        let _ = b;
        match f {
            #[cfg(feature = "fmt_rmp")]
            0 => vec![rmp_serde::from_slice(b).ok(), rmp_serde::from_read(b).ok()],
            #[cfg(feature = "fmt_bincode")]
            1 => vec![bincode::deserialize(b).ok()],
            #[cfg(feature = "fmt_postcard")]
            2 => vec![postcard::from_bytes(b).ok()],
            #[cfg(feature = "fmt_json")]
            3 => vec![serde_json::from_slice(b).ok(), serde_json::from_reader(b).ok()],
            _ => vec![None],
        }
    }

    pub fn val_bytes(f: u8, v: &Val) -> Vec<u8> {
        let mut out = vec![f];
        out.extend(with_val!(v, x => ref_encode(f, &x)));
        out
    }

    pub fn encode_plain(v: &Val, ctx: &Context) -> IPCResult<Bytes> {
        with_val!(v, x => x.into_payload(ctx))
    }

    pub fn encode_serde(f: u8, v: &Val, ctx: &Context) -> IPCResult<Bytes> {
        with_val!(v, x => {
            let p = SerdePayload::new(serializer(f), x);
            let again = p.clone().try_into_bytes();
            let b = p.into_payload(ctx);
            match (again, b) {
                (Ok(a), Ok(b)) if a != b => panic!("try_into_bytes differs from into_payload"),
                (_, b) => b,
            }
        })
    }

    fn same<T: DeserializeOwned + PartialEq + std::fmt::Debug>(x: T, bytes: &[u8], rd: &[u16]) -> Result<(), String> {
        let plain = T::from_payload(Dribble::new(bytes, rd)).map_err(|e| format!("decoding as plain type failed: {e:?}"))?;
        ensure!(plain == x, "decoded as plain type: {plain:?} instead of {x:?}");
        let wrapped: SerdePayload<T> =
            SerdePayload::from_payload(Dribble::new(bytes, rd)).map_err(|e| format!("decoding as serde payload failed: {e:?}"))?;
        let wrapped = wrapped.data();
        ensure!(wrapped == x, "decoded as serde payload: {wrapped:?} instead of {x:?}");
        Ok(())
    }

    pub fn check_val(v: &Val, bytes: &[u8], rd: &[u16]) -> Result<(), String> {
        with_val!(v, x => same(x, bytes, rd))
    }

    #[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
    pub enum Ty {
        Unit,
        Bool,
        U,
        I,
        Str,
        VecU8,
        OptU,
        Tup,
        Map,
        Shape,
        Sample,
    }
    pub const TYS: [Ty; 11] = [
        Ty::Unit, Ty::Bool, Ty::U, Ty::I, Ty::Str, Ty::VecU8, Ty::OptU, Ty::Tup, Ty::Map, Ty::Shape, Ty::Sample,
    ];

    /// Arbitrary bytes as a serialised payload of type T: what the library makes of them must be what the format's
    /// own implementation makes of them.
    fn malformed<T: DeserializeOwned + PartialEq + std::fmt::Debug>(bytes: &[u8], rd: &[u16]) -> Result<bool, String> {
        let expected: Vec<Option<T>> = match bytes.first() {
            Some(f) if available().contains(f) => ref_decode(*f, &bytes[1..]),
            _ => vec![None],
        };
        let got = T::from_payload(Dribble::new(bytes, rd)).ok();
        let wrapped = SerdePayload::<T>::from_payload(Dribble::new(bytes, rd)).map(|p| p.data()).ok();
        let of_event = Event::initiator(None, "x".into(), Bytes::from(bytes.to_vec())).payload::<T>().ok();
        for got in [got, wrapped, of_event] {
            // an equality check that also accepts the same NaN
            let fits = |e: &Option<T>| *e == got || (e.is_some() && format!("{e:?}") == format!("{got:?}"));
            ensure!(expected.iter().any(fits), "decoding gives {got:?}, the format says {:?}", expected[0]);
        }
        Ok(expected[0].is_some())
    }

    pub fn malformed_as(ty: Ty, bytes: &[u8], rd: &[u16]) -> Result<bool, String> {
        match ty {
            Ty::Unit => malformed::<()>(bytes, rd),
            Ty::Bool => malformed::<bool>(bytes, rd),
            Ty::U => malformed::<u64>(bytes, rd),
            Ty::I => malformed::<i64>(bytes, rd),
            Ty::Str => malformed::<String>(bytes, rd),
            Ty::VecU8 => malformed::<Vec<u8>>(bytes, rd),
            Ty::OptU => malformed::<Option<u32>>(bytes, rd),
            Ty::Tup => malformed::<(u8, String, i16)>(bytes, rd),
            Ty::Map => malformed::<BTreeMap<u32, String>>(bytes, rd),
            Ty::Shape => malformed::<Shape>(bytes, rd),
            Ty::Sample => malformed::<Sample>(bytes, rd),
        }
    }
}
#[cfg(feature = "serialize")]
pub use with_serde::*;

/// A blocking reader that gives a few bytes per call
struct Dribble<'a> {
    data: &'a [u8],
    plan: Vec<u16>,
    at: usize,
}

impl<'a> Dribble<'a> {
    fn new(data: &'a [u8], plan: &[u16]) -> Self {
        Self { data, plan: plan.to_vec(), at: 0 }
    }
}

impl Read for Dribble<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = buf.len().min(self.data.len());
        if !self.plan.is_empty() {
            let limit = self.plan[self.at % self.plan.len()];
            self.at += 1;
            n = n.min(limit.max(1) as usize);
        }
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

struct Tree(Pv);

impl IntoPayload for Tree {
    fn into_payload(self, ctx: &Context) -> IPCResult<Bytes> {
        match self.0 {
            Pv::Raw(b) => BytePayload::new(b.bytes()).into_payload(ctx),
            Pv::RawFromBytes(b) => BytePayload::from(Bytes::from(b.bytes())).into_payload(ctx),
            Pv::Error(code, m) => ErrorEventData { code, message: m.get() }.into_payload(ctx),
            #[cfg(feature = "serialize")]
            Pv::Serde(f, v) => encode_serde(f, &v, ctx),
            #[cfg(feature = "serialize")]
            Pv::Plain(v) => encode_plain(&v, ctx),
            #[cfg(not(feature = "serialize"))]
            Pv::Serde(..) | Pv::Plain(..) => ().into_payload(ctx),
            Pv::Tandem(a, b) => TandemPayload::new(Tree(*a), Tree(*b)).into_payload(ctx),
        }
    }
}

fn error_bytes(code: u16, message: &[u8]) -> Vec<u8> {
    let mut out = code.to_be_bytes().to_vec();
    out.extend((message.len() as u32).to_be_bytes());
    out.extend(message);
    out
}

fn tandem_bytes(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut out = (a.len() as u64).to_be_bytes().to_vec();
    out.extend(a);
    out.extend((b.len() as u64).to_be_bytes());
    out.extend(b);
    out
}

/// The documented layout; None when a format is needed that is not compiled in
fn layout(p: &Pv, default: u8) -> Option<Vec<u8>> {
    Some(match p {
        Pv::Raw(b) | Pv::RawFromBytes(b) => b.bytes(),
        Pv::Error(c, m) => error_bytes(*c, m.get().as_bytes()),
        #[cfg(feature = "serialize")]
        Pv::Serde(f, v) => {
            if !available().contains(f) {
                return None;
            }
            val_bytes(*f, v)
        }
        #[cfg(feature = "serialize")]
        Pv::Plain(v) => {
            if !available().contains(&default) {
                return None;
            }
            val_bytes(default, v)
        }
        #[cfg(not(feature = "serialize"))]
        Pv::Serde(..) | Pv::Plain(..) => {
            let _ = default;
            vec![]
        }
        Pv::Tandem(a, b) => tandem_bytes(&layout(a, default)?, &layout(b, default)?),
    })
}

/// Decodes the bytes with the library and compares with the value
fn check_tree(p: &Pv, bytes: &[u8], rd: &[u16]) -> Result<(), String> {
    match p {
        Pv::Raw(b) | Pv::RawFromBytes(b) => {
            let got = BytePayload::from_payload(Dribble::new(bytes, rd)).map_err(|e| format!("raw payload: {e:?}"))?;
            ensure!(got.clone().into_inner() == b.bytes(), "a raw payload of {} bytes came back different", b.n);
            ensure!(got.into_bytes()[..] == b.bytes()[..], "a raw payload of {} bytes came back different", b.n);
        }
        Pv::Error(c, m) => {
            let got = ErrorEventData::from_payload(Dribble::new(bytes, rd)).map_err(|e| format!("error payload: {e:?}"))?;
            ensure!(got.code == *c && got.message == m.get(), "error payload came back as {:?}", got.code);
        }
        #[cfg(feature = "serialize")]
        Pv::Serde(_, v) | Pv::Plain(v) => check_val(v, bytes, rd)?,
        #[cfg(not(feature = "serialize"))]
        Pv::Serde(..) | Pv::Plain(..) => {}
        Pv::Tandem(a, b) => {
            let got = TandemPayload::<BytePayload, BytePayload>::from_payload(Dribble::new(bytes, rd))
                .map_err(|e| format!("tandem payload: {e:?}"))?;
            let (x, y) = got.into_inner();
            check_tree(a, &x.into_inner(), rd)?;
            check_tree(b, &y.into_inner(), rd)?;
            // the same with the inner types given at once
            match (&**a, &**b) {
                (Pv::Error(c, m), Pv::Raw(r)) => {
                    let (e, r2) = TandemPayload::<ErrorEventData, BytePayload>::from_payload(Dribble::new(bytes, rd))
                        .map_err(|e| format!("tandem(error, raw): {e:?}"))?
                        .into_inner();
                    ensure!(e.code == *c && e.message == m.get() && r2.into_inner() == r.bytes(), "tandem(error, raw)");
                }
                (Pv::Tandem(..), _) => {
                    type Nested = TandemPayload<TandemPayload<BytePayload, BytePayload>, BytePayload>;
                    let (l, r) = Nested::from_payload(Dribble::new(bytes, rd))
                        .map_err(|e| format!("nested tandem: {e:?}"))?
                        .into_inner();
                    let (l1, l2) = l.into_inner();
                    let again = tandem_bytes(&tandem_bytes(&l1.into_inner(), &l2.into_inner()), &r.into_inner());
                    ensure!(again == bytes, "nested tandem came back different");
                }
                #[cfg(feature = "serialize")]
                (Pv::Serde(_, Val::Sample(s)) | Pv::Plain(Val::Sample(s)), Pv::Raw(r)) => {
                    let (s2, r2) = TandemPayload::<SerdePayload<Sample>, BytePayload>::from_payload(Dribble::new(bytes, rd))
                        .map_err(|e| format!("tandem(serde, raw): {e:?}"))?
                        .into_inner();
                    ensure!(s2.data() == *s && r2.into_inner() == r.bytes(), "tandem(serde, raw)");
                }
                _ => {}
            }
        }
    }
    Ok(())
}

fn depth(p: &Pv) -> u32 {
    match p {
        Pv::Tandem(a, b) => 1 + depth(a).max(depth(b)),
        _ => 0,
    }
}

fn builder_with(default: u8) -> Builder {
    let b = Builder::new();
    #[cfg(feature = "serialize")]
    let b = b.default_serializer(serializer(default));
    let _ = default;
    b
}

pub fn first_available() -> u8 {
    available().first().copied().unwrap_or(0)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Local {
    payload: Pv,
    /// None: the builder's own default
    default: Option<u8>,
    /// what is set at the context afterwards
    #[serde(default)]
    own: Option<u8>,
    rd: Vec<u16>,
}

fn c04_local(c: &Local) -> Outcome {
    run_virtual(async {
        let net = Net::default();
        let b = match c.default {
            Some(f) => builder_with(f),
            None => Builder::new(),
        };
        let (ctx, _peer) = client_and_raw(&net, b).await?;
        let default = c.default.unwrap_or(first_available());
        #[cfg(feature = "serialize")]
        let (ctx, default) = match c.own {
            Some(f) => {
                let mut ctx = ctx;
                ctx.default_serializer = serializer(f);
                (ctx, f)
            }
            None => (ctx, default),
        };
        let expected = layout(&c.payload, default);
        let got = Tree(c.payload.clone()).into_payload(&ctx);
        let mut info = Info::new(!matches!(c.payload, Pv::Raw(Blob { n: 0, .. })))
            .label(depth(&c.payload) > 0, "tandem")
            .label(depth(&c.payload) > 1, "nested tandem")
            .label(expected.is_none(), "format not compiled in");
        match (expected, got) {
            (Some(e), Ok(g)) => {
                ensure!(
                    e[..] == g[..],
                    "the encoding differs from the documented layout at byte {:?}",
                    e.iter().zip(g.iter()).position(|(a, b)| a != b).unwrap_or(e.len().min(g.len()))
                );
                check_tree(&c.payload, &g, &c.rd)?;
                // an event gives the same
                let ev = Event::initiator(None, "x".into(), g.clone());
                if let Pv::Error(code, _) = &c.payload {
                    let p: ErrorEventData = ev.payload().map_err(|e| format!("{e:?}"))?;
                    ensure!(p.code == *code, "payload() of an event");
                }
            }
            (None, Err(_)) => info.nontrivial = true,
            (None, Ok(_)) => return Err("serialising with a format that is not available succeeded".into()),
            (Some(_), Err(e)) => return Err(format!("encoding failed: {e:?}")),
        }
        Ok(info)
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wire {
    request: Pv,
    answer: Pv,
    client: u8,
    server: u8,
    io: (IoPlan, IoPlan),
    /// replies from ctx.emit instead of the response
    emitted: bool,
}

/// From one endpoint to the other and back, each with its own default format
fn c04_wire(c: &Wire) -> Outcome {
    run_virtual(async {
        let avail = available();
        let pick = |i: u8| if avail.is_empty() { 0 } else { avail[i as usize % avail.len()] };
        let (cf, sf) = (pick(c.client), pick(c.server));
        let (Some(request_bytes), Some(answer_bytes)) = (layout(&c.request, cf), layout(&c.answer, sf)) else {
            return Ok(Info::new(false).label(true, "format not compiled in"));
        };
        let net = Net::new(vec![c.io.clone()]);
        let seen: std::sync::Arc<std::sync::Mutex<Vec<Result<(), String>>>> = Default::default();
        let (seen2, request, answer, emitted) = (seen.clone(), c.request.clone(), c.answer.clone(), c.emitted);
        let server = builder_with(sf).on("call", move |ctx, event| {
            let (seen, request, answer) = (seen2.clone(), request.clone(), answer.clone());
            Box::pin(async move {
                seen.lock().unwrap().push(check_tree(&request, event.data_raw(), &[]));
                if emitted {
                    ctx.emit("answer", Tree(answer)).await?;
                    Ok(Response::empty())
                } else {
                    ctx.response(Tree(answer))
                }
            })
        });
        start_server(&net, server).await?;
        let ctx = builder_with(cf).address(net.clone()).build_client().await.map_err(|e| format!("{e:?}"))?;
        let reply = ctx.emit("call", Tree(c.request.clone())).await_reply().await.map_err(|e| format!("request: {e:?}"))?;
        let seen = seen.lock().unwrap().clone();
        ensure!(seen.len() == 1, "the handler ran {} times", seen.len());
        seen[0].clone().map_err(|e| format!("the handler received: {e}"))?;
        check_tree(&c.answer, reply.data_raw(), &[]).map_err(|e| format!("the caller received: {e}"))?;
        settle().await;
        let (up, _) = log_frames(&net.wires(0), true)?;
        let (down, _) = log_frames(&net.wires(0), false)?;
        ensure!(up.first().map(|f| f.data == request_bytes) == Some(true), "the request's bytes on the wire");
        ensure!(down.first().map(|f| f.data == answer_bytes) == Some(true), "the answer's bytes on the wire");
        Ok(Info::new(request_bytes.len() + answer_bytes.len() > 0).label(cf != sf, "different defaults"))
    })
}

#[cfg(feature = "serialize")]
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Formats {
    id: u64,
    v: u32,
}

#[cfg(feature = "serialize")]
fn c04_formats(c: &Formats) -> Outcome {
    let id = c.id as usize;
    let avail = available();
    match DynamicSerializer::from_primitive(id) {
        Ok(s) => {
            ensure!(id < 4 && avail.contains(&(id as u8)), "the id {id} gives {s:?}");
            ensure!(s == serializer(id as u8), "the id {id} gives {s:?}");
            ensure!(s as u8 as usize == id, "{s:?} has the id {}", s as u8);
        }
        Err(_) => ensure!(id >= 4 || !avail.contains(&(id as u8)), "the id {id} of an available format is refused"),
    }
    ensure!(
        DynamicSerializer::first_available() == serializer(avail[0]),
        "first_available gives {:?}",
        DynamicSerializer::first_available()
    );
    for f in 0..4u8 {
        let s = serializer(f);
        let ser = s.serialize(c.v);
        if avail.contains(&f) {
            let b = ser.map_err(|e| format!("{s:?}: {e:?}"))?;
            ensure!(b[..] == ref_encode(f, &c.v)[..], "{s:?} encodes differently");
            let back: u32 = s.deserialize(&b[..]).map_err(|e| format!("{s:?}: {e:?}"))?;
            ensure!(back == c.v, "{s:?} decodes {back}");
        } else {
            ensure!(ser.is_err(), "{s:?} is not available but serialises");
            let back: Result<u32, _> = s.deserialize(&[1u8, 2, 3, 4][..]);
            ensure!(back.is_err(), "{s:?} is not available but deserialises");
        }
    }
    // the id byte decides, whatever follows
    let mut bytes = vec![c.id as u8];
    bytes.extend(ref_encode(avail[0], &c.v));
    if !avail.contains(&(c.id as u8)) {
        ensure!(u32::from_payload(&bytes[..]).is_err(), "the format id {} is not available but decodes", c.id as u8);
    }
    Ok(Info::new(true))
}

pub fn c04(r: &mut Runner) {
    r.rule("A case is non-trivial if it encodes at least one byte or asks for a format that is not compiled in.");
    let rd = || vec(prop_oneof![0u16..9, 1u16..4000], 0..4);
    r.part(
        "local",
        cases(150_000, 3_000_000),
        || {
            let own = prop_oneof![4 => Just(None), 1 => (0u8..4).prop_map(Some)];
            (pv(), opt(0u8..4), own, rd()).prop_map(|(payload, default, own, rd)| Local { payload, default, own, rd })
        },
        c04_local,
    );
    // contents of 64 KiB to 16 MiB, alone and in tandem
    let big = || {
        let leaf = prop_oneof![
            3 => huge_blob(16, 24).prop_map(Pv::Raw),
            1 => huge_blob(16, 24).prop_map(Pv::RawFromBytes),
            1 => (any::<u16>(), (chars(), 16u32..21)).prop_map(|(c, (ch, k))| Pv::Error(c, Text::Rep(ch, (1 << k) + 3))),
            1 => (0u8..4, (chars(), 16u32..21)).prop_map(|(f, (ch, k))| Pv::Serde(f, Val::Long(Text::Rep(ch, (1 << k) + 3)))),
            1 => (0u8..4, huge_blob(16, 18)).prop_map(|(f, b)| Pv::Serde(f, Val::Bytes(b))),
        ];
        let leaf = leaf.boxed();
        let small = blob(20).prop_map(Pv::Raw).boxed();
        prop_oneof![
            2 => leaf.clone(),
            2 => (leaf.clone(), small.clone()).prop_map(|(a, b)| Pv::Tandem(Box::new(a), Box::new(b))),
            2 => (small, leaf.clone()).prop_map(|(a, b)| Pv::Tandem(Box::new(a), Box::new(b))),
            1 => (leaf.clone(), leaf).prop_map(|(a, b)| Pv::Tandem(Box::new(a), Box::new(b))),
        ]
    };
    r.part(
        "huge",
        cases(240, 6000),
        move || (big(), vec(1000u16..65_535, 0..2)).prop_map(|(payload, rd)| Local { payload, default: None, own: None, rd }),
        c04_local,
    );
    r.part(
        "wire",
        cases(40_000, 800_000),
        || {
            (pv(), pv(), 0u8..4, 0u8..4, (io_plan_coarse(), io_plan_coarse()), any::<bool>()).prop_map(
                |(request, answer, client, server, io, emitted)| Wire { request, answer, client, server, io, emitted },
            )
        },
        c04_wire,
    );
    #[cfg(feature = "serialize")]
    r.part(
        "formats",
        cases(5_000, 20_000),
        || (prop_oneof![0u64..6, 0u64..300, any::<u64>()], any::<u32>()).prop_map(|(id, v)| Formats { id, v }),
        c04_formats,
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Cut(u16),
    Flip(u16, u8),
    Set(u16, u8),
    Append(Blob),
    Remove(u16, u8),
    /// a length field set to something else
    Len(u16, u64),
    /// overwritten by a length of four bytes
    Len4(u16, u32),
}

fn edit() -> BoxedStrategy<Edit> {
    let lens = prop_oneof![Just(u64::MAX), Just(1 << 62), Just(1u64 << 32), Just(0x7FFF_FFFF), 0u64..100, any::<u64>()];
    prop_oneof![
        3 => any::<u16>().prop_map(Edit::Cut),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Edit::Flip(a, b)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Edit::Set(a, b)),
        1 => blob(100).prop_map(Edit::Append),
        1 => (any::<u16>(), 1u8..9).prop_map(|(a, b)| Edit::Remove(a, b)),
        2 => (any::<u16>(), lens.clone()).prop_map(|(a, l)| Edit::Len(a, l)),
        2 => (any::<u16>(), lens).prop_map(|(a, l)| Edit::Len4(a, l as u32)),
    ]
    .boxed()
}

fn apply(b: &mut Vec<u8>, edits: &[Edit]) {
    for e in edits {
        let at = |i: u16, len: usize| if len == 0 { 0 } else if i < 64 { i as usize % len } else { (i as usize * len) >> 16 };
        match e {
            Edit::Cut(n) => b.truncate(at(*n, b.len() + 1)),
            Edit::Flip(i, m) if !b.is_empty() => {
                let i = at(*i, b.len());
                b[i] ^= m
            }
            Edit::Set(i, v) if !b.is_empty() => {
                let i = at(*i, b.len());
                b[i] = *v
            }
            Edit::Append(x) => b.extend(x.bytes()),
            Edit::Remove(i, n) if !b.is_empty() => {
                let i = at(*i, b.len());
                let n = (*n as usize).min(b.len() - i);
                b.drain(i..i + n);
            }
            Edit::Len(i, l) => {
                let i = at(*i, b.len());
                let n = 8.min(b.len() - i);
                b[i..i + n].copy_from_slice(&l.to_be_bytes()[..n])
            }
            Edit::Len4(i, l) => {
                let i = at(*i, b.len());
                let n = 4.min(b.len() - i);
                b[i..i + n].copy_from_slice(&l.to_be_bytes()[..n])
            }
            _ => {}
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Malformed {
    base: Pv,
    edits: Vec<Edit>,
    /// random bytes instead, behind the id of a format
    random: Option<(u8, Blob)>,
    rd: Vec<u16>,
    ty: u8,
}

fn ref_error(b: &[u8]) -> Option<(u16, String, usize)> {
    if b.len() < 6 {
        return None;
    }
    let n = u32::from_be_bytes(b[2..6].try_into().unwrap()) as usize;
    let m = b.get(6..6usize.checked_add(n)?)?;
    Some((u16::from_be_bytes(b[..2].try_into().unwrap()), String::from_utf8(m.to_vec()).ok()?, b.len() - 6 - n))
}

fn ref_tandem(b: &[u8]) -> Option<(&[u8], &[u8], usize)> {
    fn one(b: &[u8]) -> Option<(&[u8], &[u8])> {
        let n = u64::from_be_bytes(b.get(..8)?.try_into().unwrap());
        let rest = &b[8..];
        if n > rest.len() as u64 {
            return None;
        }
        Some(rest.split_at(n as usize))
    }
    let (x, rest) = one(b)?;
    let (y, rest) = one(rest)?;
    Some((x, y, rest.len()))
}

impl Malformed {
    fn bytes(&self) -> Vec<u8> {
        let mut b = match &self.random {
            Some((f, blob)) => {
                let mut v = vec![*f];
                v.extend(blob.bytes());
                v
            }
            None => layout(&self.base, first_available()).unwrap_or_default(),
        };
        apply(&mut b, &self.edits);
        b
    }
}

fn alloc_ok(len: usize) -> Result<(), String> {
    let max = crate::alloc::max_request();
    ensure!(max <= (2 << 20) + 16 * len, "{max} bytes were allocated at once for a payload of {len} bytes");
    Ok(())
}

fn c05_decode(c: &Malformed) -> Outcome {
    let b = c.bytes();
    crate::alloc::reset_max_request();
    let rd = &c.rd[..];
    let mut good = false;
    let raw = BytePayload::from_payload(Dribble::new(&b, rd)).map_err(|e| format!("any bytes are a raw payload: {e:?}"))?;
    ensure!(raw.into_inner() == b, "a raw payload came back different");
    alloc_ok(b.len())?;
    // the payload of an event is decoded in the same way
    let event = Event::initiator(None, "x".into(), Bytes::from(b.clone()));
    let from_event: BytePayload = event.payload().map_err(|e| format!("the raw payload of an event: {e:?}"))?;
    ensure!(from_event.into_inner() == b, "the raw payload of an event is different");
    let from_event = event.payload::<ErrorEventData>().ok().map(|e| (e.code, e.message));
    let direct = ErrorEventData::from_payload(&b[..]).ok().map(|e| (e.code, e.message));
    ensure!(from_event == direct, "an error payload of an event gives {from_event:?} instead of {direct:?}");
    let parts = |t: TandemPayload<BytePayload, BytePayload>| {
        let (x, y) = t.into_inner();
        (x.into_inner(), y.into_inner())
    };
    let from_event = event.payload().ok().map(parts);
    let direct = TandemPayload::<BytePayload, BytePayload>::from_payload(&b[..]).ok().map(parts);
    ensure!(from_event == direct, "a tandem payload of an event is decoded differently");

    // what follows the last field may be ignored or refused
    let got = ErrorEventData::from_payload(Dribble::new(&b, rd)).ok().map(|e| (e.code, e.message));
    let expected = ref_error(&b);
    match (&expected, &got) {
        (Some((code, m, _)), Some((c2, m2))) => ensure!(code == c2 && m == m2, "error payload decoded as {c2} {m2:?}"),
        (None, Some(g)) => return Err(format!("a malformed error payload was decoded as {g:?}")),
        (Some((_, _, 0)), None) => return Err("a valid error payload was refused".into()),
        _ => {}
    }
    good |= expected.is_some();
    alloc_ok(b.len())?;

    let got = TandemPayload::<BytePayload, BytePayload>::from_payload(Dribble::new(&b, rd))
        .ok()
        .map(|t| t.into_inner())
        .map(|(x, y)| (x.into_inner(), y.into_inner()));
    let expected = ref_tandem(&b);
    match (&expected, &got) {
        (Some((x, y, _)), Some((x2, y2))) => ensure!(x == x2 && y == y2, "tandem payload decoded differently"),
        (None, Some(g)) => return Err(format!("a malformed tandem payload was decoded ({} + {} bytes)", g.0.len(), g.1.len())),
        (Some((_, _, 0)), None) => return Err("a valid tandem payload was refused".into()),
        _ => {}
    }
    good |= expected.is_some();
    alloc_ok(b.len())?;
    // a tandem of an error is valid only if both parts are
    let got = TandemPayload::<ErrorEventData, BytePayload>::from_payload(Dribble::new(&b, rd)).ok().map(|t| t.into_inner());
    let expected = ref_tandem(&b).and_then(|(x, y, _)| ref_error(x).map(|e| (e, y)));
    match (expected, got) {
        (Some((e, y)), Some((e2, y2))) => {
            ensure!(e.0 == e2.code && e.1 == e2.message && y == y2.into_inner(), "tandem(error, raw) decoded differently")
        }
        (None, Some(_)) => return Err("a malformed tandem(error, raw) was decoded".into()),
        _ => {}
    }
    alloc_ok(b.len())?;
    #[cfg(feature = "serialize")]
    {
        for ty in [TYS[c.ty as usize % TYS.len()], Ty::Sample] {
            crate::alloc::reset_max_request();
            good |= malformed_as(ty, &b, rd).map_err(|e| format!("as {ty:?}: {e}"))?;
            alloc_ok(b.len())?;
        }
    }
    Ok(Info::new(!b.is_empty()).label(good, "decodes as something").label(!good, "decodes as nothing but raw bytes"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conn {
    /// (payload, kind the handler decodes it as, reply type of the raw peer)
    events: Vec<(Malformed, u8)>,
    server: bool,
}

async fn decode_as(kind: u8, event: &Event) -> IPCResult<()> {
    match kind % 4 {
        0 => event.payload::<ErrorEventData>().map(|_| ()),
        1 => event.payload::<TandemPayload<BytePayload, BytePayload>>().map(|_| ()),
        #[cfg(feature = "serialize")]
        2 => event.payload::<Sample>().map(|_| ()),
        #[cfg(feature = "serialize")]
        3 => event.payload::<(u8, String, i16)>().map(|_| ()),
        _ => event.payload::<TandemPayload<ErrorEventData, BytePayload>>().map(|_| ()),
    }
}

/// Handlers that cannot decode what they get
fn c05_connection(c: &Conn) -> Outcome {
    run_virtual(async {
        let net = Net::default();
        let results: std::sync::Arc<std::sync::Mutex<BTreeMap<u64, bool>>> = Default::default();
        let mut b = Builder::new();
        for kind in 0..4u8 {
            let results = results.clone();
            b = b.on(&format!("k{kind}"), move |_, event| {
                let results = results.clone();
                Box::pin(async move {
                    let r = decode_as(kind, &event).await;
                    results.lock().unwrap().insert(event.id(), r.is_ok());
                    r.map(|_| Response::empty())
                })
            });
        }
        let ctx;
        let mut peer = if c.server {
            ctx = None;
            server_and_raw(&net, b).await?
        } else {
            let (x, p) = client_and_raw(&net, b).await?;
            ctx = Some(x);
            p
        };
        let mut failures = 0;
        for (i, (m, kind)) in c.events.iter().enumerate() {
            let id = 1000 + i as u64;
            peer.send(&Frame::new(id, 0, None, None, &format!("k{}", kind % 4), m.bytes())).await?;
            let answers = peer.drain(50).await?;
            let ok = results.lock().unwrap().get(&id).copied();
            let Some(ok) = ok else { return Err(format!("event {i} reached no handler")) };
            ensure!(answers.len() == 1, "event {i} got {} answers", answers.len());
            let a = &answers[0];
            ensure!(a.ref_id == Some(id), "event {i}: the answer references {:?}", a.ref_id);
            if ok {
                ensure!(a.ty == refcodec::END, "event {i} was decoded but the answer is {}", a.short());
            } else {
                failures += 1;
                ensure!(a.ty == refcodec::ERROR, "event {i} was not decoded but the answer is {}", a.short());
                let e = ref_error(&a.data).ok_or("the error event's payload is malformed")?;
                ensure!(e.0 == 500, "the error code is {}", e.0);
            }
            // the builder's handler of error events
            let before = crate::runner::panics_so_far().len();
            peer.send(&Frame::new(5000 + i as u64, 3, None, None, "error", m.bytes())).await?;
            let answers = peer.drain(50).await?;
            ensure!(answers.len() == 1 && answers[0].ref_id == Some(5000 + i as u64), "error event {i}: {} answers", answers.len());
            ensure!(crate::runner::panics_so_far().len() == before, "panic in the handler of error events");
            // a malformed error as the reply to a request
            if let Some(ctx) = &ctx {
                let ctx = ctx.clone();
                let h = tokio::spawn(async move { ctx.emit("req", BytePayload::new(vec![])).await_reply().await.map(|e| to_frame(&e)) });
                let req = peer.expect().await?;
                peer.send(&Frame::new(9000 + i as u64, 3, Some(req.id), None, "error", m.bytes())).await?;
                match h.await.map_err(|e| format!("the request panicked: {e}"))? {
                    Ok(f) => return Err(format!("an error event was returned as reply: {}", f.short())),
                    Err(IPCError::ErrorEvent(e)) => {
                        let r = ref_error(&m.bytes());
                        ensure!(
                            r.map(|r| r.0 == e.code && r.1 == e.message) == Some(true),
                            "a malformed error reply was decoded as {e:?}"
                        );
                    }
                    Err(_) => ensure!(
                        !matches!(ref_error(&m.bytes()), Some((_, _, 0))),
                        "a well-formed error reply was not decoded"
                    ),
                }
            }
        }
        Ok(Info::new(failures > 0).label(failures > 0 && failures < c.events.len(), "good and bad payloads"))
    })
}

fn malformed() -> BoxedStrategy<Malformed> {
    let rd = vec(prop_oneof![0u16..9, 1u16..4000], 0..4);
    (pv(), vec(edit(), 0..4), opt((0u8..6, blob(300))), rd, any::<u8>())
        .prop_map(|(base, edits, random, rd, ty)| Malformed { base, edits, random, rd, ty })
        .boxed()
}

fn malformed_mostly_structured() -> BoxedStrategy<Malformed> {
    (malformed(), 0u8..4).prop_map(|(mut m, k)| {
        if k > 0 {
            m.random = None
        }
        m
    })
    .boxed()
}

pub fn c05(r: &mut Runner) {
    r.rule("A payload is non-trivial if it has bytes; a connection if a handler failed to decode at least one payload.");
    r.part("decode", cases(300_000, 6_000_000), malformed_mostly_structured, c05_decode);
    r.part(
        "connection",
        cases(60_000, 1_000_000),
        || {
            (vec((malformed_mostly_structured(), 0u8..4), 1..5), any::<bool>())
                .prop_map(|(events, server)| Conn { events, server })
        },
        c05_connection,
    );
}
