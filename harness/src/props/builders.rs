//! C24 (builders)
use crate::ensure;
use crate::gen::*;
use crate::props::payload;
use crate::refcodec::{self, Frame};
use crate::runner::{cases, Info, Outcome, Runner};
use crate::sim::{IoPlan, Net, SimListener, SimOptions};
use crate::util::*;
use bromine::error::Error as BromineError;
use bromine::prelude::*;
use bromine::trait_bound_typemap::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

struct A;
impl TypeMapKey for A {
    type Value = u32;
}
struct B;
impl TypeMapKey for B {
    type Value = String;
}

/// One call of the builder
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Call {
    Address(u8),
    /// ms
    Timeout(u32),
    ServerOptions(u32),
    ClientOptions(u32),
    /// name, value of the handler
    On(u8, u8),
    OnError(u8),
    /// namespace with its handlers for all names
    Namespace(u8, u8),
    /// the same as a value
    AddNamespace(u8, u8),
    InsertA(u32),
    InsertB(u32),
    /// both at once
    InsertAll(u32, u32),
    Serializer(u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Target {
    Server,
    Client,
    Pool(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
    calls: Vec<Call>,
    target: Target,
    /// the transport fails: at binding, or at the connection with this index
    fails: Option<u8>,
    io: (IoPlan, IoPlan),
}

const NAMES: [&str; 3] = ["one", "two", "three"];
const SPACES: [&str; 2] = ["first", "second"];

#[derive(Default, Debug)]
struct Model {
    address: Option<usize>,
    timeout: Option<u64>,
    server: u32,
    client: u32,
    on: BTreeMap<u8, u8>,
    on_error: Option<u8>,
    spaces: BTreeMap<u8, u8>,
    a: Option<u32>,
    b: Option<u32>,
    format: Option<u8>,
}

fn model(calls: &[Call]) -> Model {
    let mut m = Model::default();
    for c in calls {
        match c {
            Call::Address(a) => m.address = Some(*a as usize % 3),
            Call::Timeout(ms) => m.timeout = Some(*ms as u64),
            Call::ServerOptions(o) => m.server = *o,
            Call::ClientOptions(o) => m.client = *o,
            Call::On(n, v) => {
                m.on.insert(n % 3, *v);
            }
            Call::OnError(v) => m.on_error = Some(*v),
            Call::Namespace(n, v) | Call::AddNamespace(n, v) => {
                m.spaces.insert(n % 2, *v);
            }
            Call::InsertA(v) => m.a = Some(*v),
            Call::InsertB(v) => m.b = Some(*v),
            Call::InsertAll(a, b) => {
                m.a = Some(*a);
                m.b = Some(*b);
            }
            Call::Serializer(f) => m.format = Some(*f),
        }
    }
    m
}

fn formats() -> Vec<u8> {
    payload::available()
}

fn namespace(name: &str, v: u8) -> Namespace {
    let mut h = EventHandler::new();
    for n in NAMES {
        h.on(n, move |ctx, _| Box::pin(async move { ctx.response(raw(vec![v, 1])) }));
    }
    Namespace::new(name, h)
}

fn build(calls: &[Call], nets: &[Net]) -> Builder {
    let mut b = Builder::new();
    for c in calls {
        b = match c {
            Call::Address(a) => b.address(nets[*a as usize % 3].clone()),
            Call::Timeout(ms) => b.timeout(Duration::from_millis(*ms as u64)),
            Call::ServerOptions(o) => b.server_options(SimOptions(*o)),
            Call::ClientOptions(o) => b.client_options(SimOptions(*o)),
            Call::On(n, v) => {
                let v = *v;
                b.on(NAMES[*n as usize % 3], move |ctx, _| Box::pin(async move { ctx.response(raw(vec![v])) }))
            }
            Call::OnError(v) => {
                let v = *v;
                b.on("error", move |ctx, _| Box::pin(async move { ctx.response(raw(vec![v, v])) }))
            }
            Call::Namespace(n, v) => {
                let v = *v;
                let mut nb = b.namespace(SPACES[*n as usize % 2]);
                for n in NAMES {
                    nb = nb.on(n, move |ctx, _| Box::pin(async move { ctx.response(raw(vec![v, 1])) }));
                }
                nb.build()
            }
            Call::AddNamespace(n, v) => b.add_namespace(namespace(SPACES[*n as usize % 2], *v)),
            Call::InsertA(v) => b.insert::<A>(*v),
            Call::InsertB(v) => b.insert::<B>(v.to_string()),
            Call::InsertAll(x, y) => {
                let mut map = SendSyncTypeMap::new();
                map.insert::<A>(*x);
                map.insert::<B>(y.to_string());
                b.insert_all(map)
            }
            #[cfg(feature = "serialize")]
            Call::Serializer(f) => b.default_serializer(payload::with_serde::serializer(*f)),
            #[cfg(not(feature = "serialize"))]
            Call::Serializer(_) => b,
        };
    }
    // what the checks need
    b.on("ask", |ctx, _| {
        Box::pin(async move {
            let r = ctx.emit("question", raw(vec![])).await_reply().await;
            ctx.response(raw(vec![matches!(r, Err(BromineError::Timeout)) as u8]))
        })
    })
    .on("data", |ctx, _| {
        Box::pin(async move {
            let d = ctx.data.read().await;
            let text = format!("{:?} {:?}", d.get::<A>(), d.get::<B>());
            ctx.response(raw(text.into_bytes()))
        })
    })
    .on("format", |ctx, _| {
        Box::pin(async move {
            #[cfg(feature = "serialize")]
            return ctx.response(ctx.create_serde_payload(77u16));
            #[cfg(not(feature = "serialize"))]
            ctx.response(raw(vec![]))
        })
    })
}

fn untouched(nets: &[Net], except: Option<usize>) -> Result<(), String> {
    for (i, n) in nets.iter().enumerate() {
        if Some(i) != except {
            ensure!(n.binds().is_empty(), "the builder binds an address that it was not given (last)");
            ensure!(n.connects().is_empty(), "the builder connects to an address that it was not given (last)");
        }
    }
    Ok(())
}

/// Sends an event and returns the type and the payload of its only answer
async fn ask(peer: &mut RawPeer, ty: u8, ns: Option<&str>, name: &str, data: Vec<u8>) -> Result<(u8, Vec<u8>), String> {
    peer.next_id += 1;
    let id = peer.next_id;
    let reference = (ty != refcodec::INITIATOR).then_some(1 << 60);
    peer.send(&Frame::new(id, ty, reference, ns, name, data)).await?;
    let f = peer.expect().await?;
    ensure!(f.ref_id == Some(id), "{} is no answer to {name}", f.short());
    Ok((f.ty, f.data))
}

async fn check_endpoint(m: &Model, peer: &mut RawPeer) -> Result<(), String> {
    use refcodec::{END, ERROR, INITIATOR};
    for (i, n) in NAMES.iter().enumerate() {
        let want = m.on.get(&(i as u8)).map(|v| vec![*v]).unwrap_or_default();
        let got = ask(peer, INITIATOR, None, n, vec![]).await?;
        ensure!(got == (END, want.clone()), "the handler of {n} answers {got:?} instead of {want:?}");
        for (k, s) in SPACES.iter().enumerate() {
            let want = m.spaces.get(&(k as u8)).map(|v| vec![*v, 1]).unwrap_or_default();
            let got = ask(peer, INITIATOR, Some(s), n, vec![]).await?;
            ensure!(got == (END, want.clone()), "the handler of {n} in {s} answers {got:?} instead of {want:?}");
        }
    }
    // error events
    let got = ask(peer, ERROR, None, "error", error_payload(404, "nothing there")).await?;
    let want = m.on_error.map(|v| vec![v, v]).unwrap_or_default();
    ensure!(got == (END, want.clone()), "an error event is answered with {got:?} instead of {want:?}");
    let got = ask(peer, ERROR, None, "error", vec![1, 2, 3]).await?;
    match m.on_error {
        Some(v) => ensure!(got == (END, vec![v, v]), "a malformed error event is answered with {got:?}"),
        None => {
            ensure!(got.0 == ERROR, "a malformed error event is answered with {got:?}");
            ensure!(parse_error(&got.1)?.0 == 500, "a malformed error event is answered with {got:?}");
        }
    }
    let got = ask(peer, INITIATOR, None, "data", vec![]).await?;
    let want = format!("{:?} {:?}", m.a, m.b.map(|b| b.to_string()));
    ensure!(got.1 == want.as_bytes(), "the data is {:?} instead of {want}", String::from_utf8_lossy(&got.1));
    if cfg!(feature = "serialize") && !formats().is_empty() {
        let f = m.format.unwrap_or(payload::first_available());
        let got = ask(peer, INITIATOR, None, "format", vec![]).await?;
        if formats().contains(&f) {
            ensure!(got.0 == END && got.1.first() == Some(&f), "the format is {:?} instead of {f}", got.1.first());
        } else {
            ensure!(got.0 == ERROR, "a format that is not there is used: {got:?}");
        }
    }
    // the timeout of handlers
    let timeout = m.timeout.unwrap_or(60_000);
    peer.next_id += 1;
    let id = peer.next_id;
    let start = tokio::time::Instant::now();
    peer.send(&Frame::new(id, INITIATOR, None, None, "ask", vec![])).await?;
    let q = peer.expect().await?;
    ensure!(q.name == "question", "{} instead of a question", q.short());
    let f = peer.expect().await?;
    let took = now_ms(start);
    ensure!(f.ref_id == Some(id) && f.ty == END && f.data == [1], "the handler's wait ended with {}", f.short());
    ensure!(took.abs_diff(timeout) <= 2, "a handler's wait took {took} ms instead of {timeout} ms");
    Ok(())
}

fn c24_build(c: &Built) -> Outcome {
    run_virtual(async {
        let nets: Vec<Net> = (0..3).map(|_| Net::new(vec![c.io.clone()])).collect();
        let m = model(&c.calls);
        let builder = build(&c.calls, &nets);
        let kinds = c.calls.iter().map(std::mem::discriminant).collect::<std::collections::HashSet<_>>().len();
        let info = Info::new(c.calls.len() > 1)
            .label(m.address.is_none(), "no address")
            .label(c.fails.is_some() && m.address.is_some(), "the transport fails")
            .label(kinds < c.calls.len(), "values set again");
        let io_error = |e: &BromineError| matches!(e, BromineError::IoError(_));
        if c.target == Target::Server {
            if let (Some(a), Some(_)) = (m.address, c.fails) {
                nets[a].refuse_bind();
            }
            let server = tokio::spawn(builder.build_server());
            settle().await;
            untouched(&nets, m.address)?;
            let Some(a) = m.address else {
                ensure!(server.is_finished(), "a server without address starts");
                let r = server.await.map_err(|e| format!("panic: {e}"))?;
                ensure!(matches!(r, Err(BromineError::BuildError(_))), "a server without address: {r:?}");
                return Ok(info);
            };
            ensure!(nets[a].connects().is_empty(), "a server connects to its address");
            ensure!(nets[a].binds() == [SimOptions(m.server)], "bound with {:?} instead of {}", nets[a].binds(), m.server);
            if c.fails.is_some() {
                ensure!(server.is_finished(), "a server goes on although it cannot bind");
                let r = server.await.map_err(|e| format!("panic: {e}"))?;
                ensure!(matches!(&r, Err(e) if io_error(e)), "a server that cannot bind: {r:?}");
                return Ok(info);
            }
            ensure!(nets[a].is_bound() && !server.is_finished(), "the server does not listen");
            let mut one = RawPeer::connect(&nets[a])?;
            check_endpoint(&m, &mut one).await?;
            let mut two = RawPeer::connect(&nets[a])?;
            check_endpoint(&m, &mut two).await.map_err(|e| format!("second connection: {e}"))?;
            return Ok(info.label(true, "server"));
        }
        let n = match c.target {
            Target::Pool(n) => n as usize,
            _ => 1,
        };
        let listeners: Vec<SimListener> = nets.iter().map(|n| n.listen()).collect();
        let fails = c.fails.map(|k| k as usize % n.max(1));
        if let (Some(a), Some(k)) = (m.address, fails) {
            nets[a].refuse_after(k);
        }
        let (mut ctxs, mut guards, mut pool) = (vec![], vec![], None);
        let result = match c.target {
            Target::Pool(n) => match builder.build_pooled_client(n as usize).await {
                Ok(p) => {
                    for _ in 0..n {
                        let g = p.acquire();
                        ctxs.push(Context::clone(&g));
                        guards.push(g);
                    }
                    pool = Some(p);
                    Ok(())
                }
                Err(e) => Err(e),
            },
            _ => builder.build_client().await.map(|ctx| ctxs.push(ctx)),
        };
        untouched(&nets, m.address)?;
        let address = if n == 0 { None } else { m.address };
        let Some(a) = address else {
            ensure!(matches!(result, Err(BromineError::BuildError(_))), "a client without address or of size 0: {result:?}");
            return untouched(&nets, None).map(|_| info.label(n == 0, "pool of size 0"));
        };
        ensure!(nets[a].binds().is_empty(), "a client binds its address");
        let connects = nets[a].connects();
        ensure!(connects.iter().all(|o| *o == SimOptions(m.client)), "connected with {connects:?} instead of {}", m.client);
        if let Some(k) = fails {
            ensure!(matches!(&result, Err(e) if io_error(e)), "connection {k} fails: {result:?}");
            return Ok(info.label(k > 0, "a later connection fails"));
        }
        ensure!(result.is_ok(), "building failed: {result:?}");
        ensure!(connects.len() == n && nets[a].connections() == n, "{} connections instead of {n}", connects.len());
        let mut peers = vec![];
        for _ in 0..n {
            peers.push(RawPeer::new(listeners[a].accept().await));
        }
        for p in &mut peers {
            check_endpoint(&m, p).await?;
        }
        // the timeout and the format of contexts
        let timeout = m.timeout.unwrap_or(60_000);
        for ctx in &ctxs {
            let start = tokio::time::Instant::now();
            let r = ctx.emit("question", raw(vec![])).await_reply().await;
            let took = now_ms(start);
            ensure!(matches!(r, Err(BromineError::Timeout)), "a request without reply: {r:?}");
            ensure!(took.abs_diff(timeout) <= 2, "a wait took {took} ms instead of {timeout} ms");
            #[cfg(feature = "serialize")]
            if !formats().is_empty() {
                let f = m.format.unwrap_or(payload::first_available());
                let got = ctx.create_serde_payload(77u16).into_payload(ctx);
                let ok = if formats().contains(&f) { matches!(&got, Ok(b) if b.first() == Some(&f)) } else { got.is_err() };
                ensure!(ok, "the format of a context is not {f}: {got:?}");
            }
            let d = ctx.data.read().await;
            ensure!(d.get::<A>() == m.a.as_ref(), "the data of a context");
        }
        // each connection got its one question
        for p in &mut peers {
            let f = p.drain(5).await?;
            ensure!(f.len() == 1 && f[0].name == "question", "{} events instead of one question", f.len());
        }
        drop((guards, pool));
        Ok(info.label(n > 1, "pool").label(c.target == Target::Client, "client"))
    })
}

pub fn c24(r: &mut Runner) {
    r.rule("A case is non-trivial if the builder got at least two calls.");
    r.part(
        "calls",
        cases(400_000, 5_000_000),
        || {
            let format = prop_oneof![6 => 0u8..4].prop_map(|f| {
                let all = formats();
                // sometimes one that is not compiled in
                if all.is_empty() || f == 3 { f } else { all[f as usize % all.len()] }
            });
            let call = prop_oneof![
                3 => (0u8..3).prop_map(Call::Address),
                2 => prop_oneof![Just(0u32), 1u32..100, 1u32..200_000].prop_map(Call::Timeout),
                2 => (0u32..9).prop_map(Call::ServerOptions),
                2 => (0u32..9).prop_map(Call::ClientOptions),
                3 => (0u8..3, any::<u8>()).prop_map(|(a, b)| Call::On(a, b)),
                2 => any::<u8>().prop_map(Call::OnError),
                2 => (0u8..2, any::<u8>()).prop_map(|(a, b)| Call::Namespace(a, b)),
                1 => (0u8..2, any::<u8>()).prop_map(|(a, b)| Call::AddNamespace(a, b)),
                1 => any::<u32>().prop_map(Call::InsertA),
                1 => any::<u32>().prop_map(Call::InsertB),
                1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Call::InsertAll(a, b)),
                2 => format.prop_map(Call::Serializer),
            ];
            let target = prop_oneof![
                3 => Just(Target::Server),
                3 => Just(Target::Client),
                3 => (0u8..5).prop_map(Target::Pool),
            ];
            let address = prop_oneof![4 => (0u8..3, any::<proptest::sample::Index>()).prop_map(Some), 1 => Just(None)];
            let fails = prop_oneof![4 => Just(None), 1 => any::<u8>().prop_map(Some)];
            (vec(call, 0..12), address, target, fails, (io_plan_coarse(), io_plan_coarse())).prop_map(
                |(mut calls, address, target, fails, mut io)| {
                    // the peer does not read while a request waits
                    io.0.cap = 0;
                    match address {
                        Some((a, at)) => calls.insert(at.index(calls.len() + 1), Call::Address(a)),
                        None => calls.retain(|c| !matches!(c, Call::Address(_))),
                    }
                    Built { calls, target, fails, io }
                },
            )
        },
        c24_build,
    );
}
