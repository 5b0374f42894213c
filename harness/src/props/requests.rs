//! C08 (replies reach their waiters), C09 (reply streams), C10 (timeouts), C11 (nothing is left behind)
use crate::ensure;
use crate::gen::*;
use crate::refcodec::{self, Frame};
use crate::runner::{cases, Info, Outcome, Runner};
use crate::sim::{IoPlan, Net};
use crate::util::*;
use bromine::prelude::*;
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use tokio::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Rep {
    /// 0 initiator, 1 response, 2 end, 3 error
    ty: u8,
    ns: bool,
    name: u8,
    data: Blob,
    /// 1: the reply's own id is that of the event which it references, 2: an error's payload is not that of an error
    #[serde(default)]
    odd: u8,
}

const NAMES: [&str; 5] = ["h0", "h1", "error", "end", "other"];

impl Rep {
    fn frame(&self, id: u64, ref_id: u64) -> Frame {
        let data = if self.ty == 3 && self.odd & 2 == 0 { error_payload(self.data.n as u16, &format!("m{}", self.data.s)) } else { self.data.bytes() };
        let id = if self.odd & 1 != 0 { ref_id } else { id };
        Frame::new(id, self.ty, Some(ref_id), if self.ns { Some("n0") } else { None }, NAMES[self.name as usize % 5], data)
    }
}

fn rep() -> BoxedStrategy<Rep> {
    let ty = prop_oneof![8 => 1u8..4, 1 => Just(0u8)];
    let odd = prop_oneof![8 => Just(0u8), 2 => 1u8..4];
    (ty, any::<bool>(), 0u8..5, blob(200), odd).prop_map(|(ty, ns, name, data, odd)| Rep { ty, ns, name, data, odd }).boxed()
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Reply(Frame),
    Error(u16, String),
    Timeout,
    Other(String),
    End,
}

fn got(r: IPCResult<Event>) -> Got {
    match r {
        Ok(e) => Got::Reply(to_frame(&e)),
        Err(IPCError::ErrorEvent(e)) => Got::Error(e.code, e.message),
        Err(IPCError::Timeout) => Got::Timeout,
        Err(e) => Got::Other(format!("{e:?}")),
    }
}

/// Whether an item fits to a reply of the peer
fn fits(g: &Got, f: &Frame) -> bool {
    match g {
        Got::Reply(x) => x == f,
        // an error event whose payload is not quite that of an error is an error in any case
        Got::Error(code, m) => f.ty == refcodec::ERROR && parse_error(&f.data).map_or(true, |e| e == (*code, m.clone())),
        Got::Other(_) => f.ty == refcodec::ERROR && parse_error(&f.data).is_err(),
        _ => false,
    }
}

type Results<T> = Arc<Mutex<BTreeMap<usize, T>>>;

// ------------------------------------------------------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Req {
    ctx: u8,
    ns: bool,
    name: u8,
    data: Blob,
    replies: Vec<Rep>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Match {
    role: Role,
    reqs: Vec<Req>,
    order: Vec<u16>,
    /// events of the peer itself, with the id of the given request: (before which reply, request)
    own: Vec<(u8, u8)>,
    /// replies to no request of the connection: (before which reply, request, what is different, reply); below 64 one
    /// bit of the referenced id is flipped, above it is the id of a request of another connection
    #[serde(default)]
    foreign: Vec<(u8, u8, u8, Rep)>,
    /// answer each request as soon as it arrives
    eager: bool,
    io: (IoPlan, IoPlan),
    /// where the ids of the peer begin
    #[serde(default)]
    base: u64,
}

const WAIT: Duration = Duration::from_secs(50);

async fn request(ctx: Context, idx: usize, r: Req) -> Got {
    let mut data = vec![idx as u8];
    data.extend(r.data.bytes());
    let e = if r.ns { ctx.emit_to("n0", NAMES[r.name as usize % 5], raw(data)) } else { ctx.emit(NAMES[r.name as usize % 5], raw(data)) };
    got(e.await_reply().with_timeout(WAIT).await)
}

fn c08_matching(c: &Match) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let rec = Recorder::default();
        let results: Results<Got> = Default::default();
        let mut b = Builder::new();
        let mut eh = EventHandler::new();
        for n in NAMES {
            b = b.on(n, super::dispatch::recording(&rec, format!("global {n}")));
            eh.on(n, super::dispatch::recording(&rec, format!("n0 {n}")));
        }
        b = b.add_namespace(Namespace::new("n0", eh)).on("own", super::dispatch::recording(&rec, "own".into()));
        let (reqs, res) = (Arc::new(c.reqs.clone()), results.clone());
        b = b.on("go", move |ctx, event| {
            let (reqs, res) = (reqs.clone(), res.clone());
            Box::pin(async move {
                let i = event.data_raw()[0] as usize;
                let g = request(ctx.clone(), i, reqs[i].clone()).await;
                res.lock().unwrap().insert(i, g);
                Ok(Response::empty())
            })
        });
        let mut ep = endpoint(c.role, &net, b).await?;
        let n = ep.peers.len();
        let mut tasks = vec![];
        for (i, r) in c.reqs.iter().enumerate() {
            let at = r.ctx as usize % n;
            if ep.ctxs.is_empty() {
                ep.peers[at].send(&Frame::new(c.base.wrapping_add(i as u64), 0, None, None, "go", vec![i as u8])).await?;
            } else {
                let (ctx, r, res) = (ep.ctxs[at].clone(), r.clone(), results.clone());
                tasks.push(tokio::spawn(async move {
                    let g = request(ctx, i, r).await;
                    res.lock().unwrap().insert(i, g);
                }));
            }
        }
        // the peers learn the ids
        let mut ids: BTreeMap<usize, (usize, u64)> = BTreeMap::new();
        let mut sent: BTreeMap<usize, Vec<Frame>> = BTreeMap::new();
        let mut next = c.base.wrapping_add(1000);
        for conn in 0..n {
            loop {
                // eager: replies go out while the emits of the others (and of this one) are still under way
                let f = match tokio::time::timeout(Duration::from_millis(5), ep.peers[conn].recv()).await {
                    Ok(r) => r?.ok_or("closed")?,
                    Err(_) => break,
                };
                if f.ty == refcodec::END || f.ty == refcodec::ERROR {
                    continue; // the end of handling "go"
                }
                let i = f.data.first().copied().ok_or("an event without data")? as usize;
                ensure!(i < c.reqs.len() && ids.insert(i, (conn, f.id)).is_none(), "unexpected {}", f.short());
                if c.eager {
                    for r in &c.reqs[i].replies {
                        let reply = r.frame(next, f.id);
                        next = next.wrapping_add(1);
                        ep.peers[conn].send(&reply).await?;
                        sent.entry(i).or_default().push(reply);
                    }
                }
            }
        }
        ensure!(ids.len() == c.reqs.len(), "{} requests of {} arrived", ids.len(), c.reqs.len());
        let mut own_sent = vec![];
        let mut foreign_sent = vec![];
        if !c.eager {
            let mut left: Vec<(usize, usize)> = vec![];
            let mut cursor: Vec<usize> = vec![0; c.reqs.len()];
            for (i, r) in c.reqs.iter().enumerate() {
                left.extend(r.replies.iter().map(|_| (i, 0)));
            }
            // any interleaving that keeps the order per request
            for k in (1..left.len()).rev() {
                let j = c.order.get(k).copied().unwrap_or(0) as usize % (k + 1);
                left.swap(k, j);
            }
            for (step, (i, _)) in left.iter().enumerate() {
                for (_, r) in c.own.iter().filter(|(before, _)| *before as usize == step) {
                    let (conn, id) = ids[&(*r as usize % c.reqs.len())];
                    let f = Frame::new(id, 0, None, None, "own", vec![step as u8]);
                    ep.peers[conn].send(&f).await?;
                    own_sent.push(f);
                }
                for (_, r, what, rep) in c.foreign.iter().filter(|(before, ..)| *before as usize == step) {
                    let (own, id) = ids[&(*r as usize % c.reqs.len())];
                    let (conn, id) = if *what < 64 { (own, id ^ (1 << what)) } else { ((own + 1) % n, id) };
                    // the connections of a pool share their waiters, on purpose
                    if ids.values().any(|x| x.1 == id && (x.0 == conn || matches!(c.role, Role::Pool(_)))) {
                        continue;
                    }
                    let f = rep.frame(next, id);
                    next = next.wrapping_add(1);
                    ep.peers[conn].send(&f).await?;
                    foreign_sent.push(f);
                }
                let (conn, id) = ids[i];
                let reply = c.reqs[*i].replies[cursor[*i]].frame(next, id);
                cursor[*i] += 1;
                next = next.wrapping_add(1);
                ep.peers[conn].send(&reply).await?;
                sent.entry(*i).or_default().push(reply);
            }
        }
        sleep_ms(WAIT.as_millis() as u64 * 2).await;
        for t in tasks {
            ensure!(t.is_finished(), "a request is still waiting long after its timeout");
            t.await.map_err(|e| format!("a request panicked: {e}"))?;
        }
        let results = results.lock().unwrap().clone();
        for i in 0..c.reqs.len() {
            let g = results.get(&i).ok_or_else(|| format!("request {i} is still waiting long after its timeout"))?;
            match sent.get(&i).and_then(|s| s.first()) {
                None => ensure!(*g == Got::Timeout, "request {i} was never answered but got {g:?}"),
                Some(f) if f.ty == refcodec::ERROR => {
                    let error = !matches!(g, Got::Reply(_)) && fits(g, f);
                    ensure!(error, "request {i} got {g:?} instead of the error {}", f.short())
                }
                Some(f) => ensure!(*g == Got::Reply(f.clone()), "request {i} got {g:?} instead of {}", f.short()),
            }
        }
        // handlers: the peer's own events, and at most what came after the first reply
        let mut calls = rec.calls();
        for f in &own_sent {
            let at = calls.iter().position(|c| c.tag == "own" && c.frame == *f);
            calls.remove(at.ok_or_else(|| format!("the peer's own event {} was not handled once", f.short()))?);
        }
        for call in calls {
            let later = sent.values().any(|s| s.iter().skip(1).any(|f| *f == call.frame)) || foreign_sent.contains(&call.frame);
            ensure!(later, "{} ran for {} although somebody waited for it", call.tag, call.frame.short());
        }
        let answered = sent.len();
        Ok(Info::new(answered > 0)
            .label(answered > 1, "several requests")
            .label(c.eager, "replies while emitting")
            .label(!own_sent.is_empty(), "colliding ids")
            .label(!foreign_sent.is_empty(), "replies to nobody")
            .label(sent.values().any(|s| s.len() > 1), "more than one reply")
            .label(answered < c.reqs.len(), "unanswered requests")
            .label(n > 1, "several connections"))
    })
}

fn matching() -> BoxedStrategy<Match> {
    let replies = prop_oneof![5 => vec(rep(), 1..2), 2 => vec(rep(), 2..4), 1 => Just(vec![])];
    let req = (0u8..4, any::<bool>(), 0u8..5, blob(200), replies)
        .prop_map(|(ctx, ns, name, data, replies)| Req { ctx, ns, name, data, replies });
    let foreign = (prop_oneof![2 => Just(0u8), 1 => 0u8..12], 0u8..9, prop_oneof![3 => 0u8..64, 1 => Just(64u8)], rep());
    (
        role(),
        vec(req, 1..9),
        vec(any::<u16>(), 24),
        vec((0u8..12, 0u8..9), 0..4),
        prop_oneof![1 => Just(vec![]), 1 => vec(foreign, 1..5)],
        any::<bool>(),
        (io_plan(), io_plan()),
        ids(),
    )
        .prop_map(|(role, reqs, order, own, foreign, eager, io, base)| Match { role, reqs, order, own, foreign, eager, io, base })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Duplex {
    /// (by the server, payload, delay of the answer, answer: 0 response, 1 emit, 2 error)
    calls: Vec<(bool, Blob, u16, u8)>,
    clients: u8,
    pooled: bool,
    io: (IoPlan, IoPlan),
}

fn answering(who: &'static str, calls: Arc<Vec<(bool, Blob, u16, u8)>>) -> impl for<'a> Fn(&'a Context, Event) -> HFut<'a> + Send + Sync + 'static {
    hf(move |ctx, event| {
        let calls = calls.clone();
        Box::pin(async move {
            let i = event.data_raw()[0] as usize;
            let (_, data, delay, how) = &calls[i];
            sleep_ms(*delay as u64).await;
            let mut out = vec![i as u8];
            out.extend(who.as_bytes());
            out.extend(data.bytes());
            match how % 3 {
                0 => ctx.response(raw(out)),
                1 => {
                    ctx.emit("reply", raw(out)).await?;
                    Ok(Response::empty())
                }
                _ => Err(format!("fail{i}{who}").into()),
            }
        })
    })
}

async fn ask(ctx: &Context, who: &str, i: usize, calls: &[(bool, Blob, u16, u8)]) -> Result<(), String> {
    let (_, data, _, how) = &calls[i];
    let r = ctx.emit("ask", raw(vec![i as u8])).await_reply().with_timeout(Duration::from_secs(1000)).await;
    match (how % 3, r) {
        (2, Err(IPCError::ErrorEvent(e))) => {
            ensure!(e.code == 500 && e.message.contains(&format!("fail{i}{who}")), "request {i} got the error {e:?}")
        }
        (0 | 1, Ok(r)) => {
            let mut out = vec![i as u8];
            out.extend(who.as_bytes());
            out.extend(data.bytes());
            ensure!(r.data_raw() == &out[..], "request {i} got another reply");
        }
        (_, r) => return Err(format!("request {i} answered in way {how} got {:?}", r.map(|e| to_frame(&e).short()))),
    }
    Ok(())
}

/// Requests in both directions at once, those of the server from within handlers
fn c08_duplex(c: &Duplex) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let calls = Arc::new(c.calls.clone());
        let results: Results<Result<(), String>> = Default::default();
        let (calls2, res) = (calls.clone(), results.clone());
        let server = Builder::new().on("ask", answering("server", calls.clone())).on("go", move |ctx, event| {
            let (calls, res) = (calls2.clone(), res.clone());
            Box::pin(async move {
                let i = event.data_raw()[0] as usize;
                let r = ask(ctx, "client", i, &calls).await;
                res.lock().unwrap().insert(i, r);
                Ok(Response::empty())
            })
        });
        start_server(&net, server).await?;
        let client = || Builder::new().on("ask", answering("client", calls.clone())).address(net.clone());
        let mut ctxs: Vec<Context> = vec![];
        let mut pool = None;
        if c.pooled {
            let p = client().build_pooled_client(c.clients.max(1) as usize).await.map_err(|e| format!("{e:?}"))?;
            let guards: Vec<_> = (0..c.clients.max(1)).map(|_| p.acquire()).collect();
            ctxs.extend(guards.iter().map(|g| Context::clone(g)));
            pool = Some((p, guards));
        } else {
            for _ in 0..c.clients.max(1) {
                ctxs.push(client().build_client().await.map_err(|e| format!("{e:?}"))?);
            }
        }
        let mut tasks = vec![];
        for (i, (by_server, ..)) in c.calls.iter().enumerate() {
            let ctx = ctxs[i % ctxs.len()].clone();
            if *by_server {
                ctx.emit("go", raw(vec![i as u8])).await.map_err(|e| format!("{e:?}"))?;
            } else {
                let (calls, res) = (calls.clone(), results.clone());
                tasks.push(tokio::spawn(async move {
                    let r = ask(&ctx, "server", i, &calls).await;
                    res.lock().unwrap().insert(i, r);
                }));
            }
        }
        sleep_ms(3_000_000).await;
        let results = results.lock().unwrap().clone();
        for i in 0..c.calls.len() {
            results.get(&i).ok_or_else(|| format!("request {i} never ended"))?.clone()?;
        }
        drop(pool);
        let up = c.calls.iter().filter(|c| c.0).count();
        Ok(Info::new(c.calls.len() > 1).label(up > 0 && up < c.calls.len(), "both directions"))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Outstanding {
    role: Role,
    count: u16,
    /// the order of the replies: in order, reversed, shuffled by this seed
    order: u32,
    /// every n-th request is not answered
    unanswered: u16,
    /// the peer's own events with the ids of so many of the requests, before the replies
    own: u16,
    io: (IoPlan, IoPlan),
}

/// Thousands of requests wait at once
fn c08_outstanding(c: &Outstanding) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let n_req = c.count as usize;
        let results: Results<(u32, Got)> = Default::default();
        let handled: Arc<Mutex<(usize, usize)>> = Default::default();
        let ask = {
            let results = results.clone();
            move |ctx: Context, i: usize| {
                let results = results.clone();
                async move {
                    let e = ctx.emit("call", raw((i as u32).to_be_bytes().to_vec()));
                    let g = got(e.await_reply().with_timeout(WAIT).await);
                    let mut r = results.lock().unwrap();
                    let n = r.get(&i).map(|x| x.0).unwrap_or(0) + 1;
                    r.insert(i, (n, g));
                }
            }
        };
        let (ask2, h1, h2) = (ask.clone(), handled.clone(), handled.clone());
        let b = Builder::new()
            .on("go", move |ctx, event| {
                let i = u32::from_be_bytes(event.data_raw()[..4].try_into().unwrap()) as usize;
                let fut = ask2(ctx.clone(), i);
                Box::pin(async move {
                    fut.await;
                    Ok(Response::empty())
                })
            })
            .on("own", move |_, _| {
                h1.lock().unwrap().0 += 1;
                Box::pin(async { Ok(Response::empty()) })
            })
            .on("reply", move |_, _| {
                h2.lock().unwrap().1 += 1;
                Box::pin(async { Ok(Response::empty()) })
            });
        let mut ep = endpoint(c.role, &net, b).await?;
        let n = ep.peers.len();
        let mut peers = vec![];
        for (conn, mut peer) in std::mem::take(&mut ep.peers).into_iter().enumerate() {
            let mine: Vec<usize> = (0..n_req).filter(|i| i % n == conn).collect();
            let listening = ep.ctxs.is_empty();
            peers.push(tokio::spawn(async move {
                let crate::sim::SimStream { read, write } = peer.stream;
                let mut reader = RawPeer::new(read);
                let mut writer = RawPeer::new(write);
                writer.listener = peer.listener.take();
                let go = mine.clone();
                let sender = tokio::spawn(async move {
                    if listening {
                        for i in go {
                            let f = Frame::new(7000 + i as u64, 0, None, None, "go", (i as u32).to_be_bytes().to_vec());
                            writer.send(&f).await?;
                        }
                    }
                    Ok::<_, String>(writer)
                });
                let mut ids = vec![];
                while ids.len() < mine.len() {
                    let f = reader.recv().await?.ok_or("closed")?;
                    if f.name == "call" {
                        ids.push((u32::from_be_bytes(f.data[..4].try_into().map_err(|_| "data")?) as usize, f.id));
                    }
                }
                let writer = sender.await.map_err(|e| e.to_string())??;
                // from here on somebody has to read what the endpoint answers
                tokio::spawn(async move { while let Ok(Some(_)) = reader.recv().await {} });
                Ok::<_, String>((ids, writer))
            }));
        }
        for i in 0..n_req {
            if !ep.ctxs.is_empty() {
                tokio::spawn(ask(ep.ctxs[i % n].clone(), i));
            }
        }
        let mut sent: BTreeMap<usize, Frame> = BTreeMap::new();
        let mut own = 0;
        let mut keep = vec![];
        for p in peers {
            let (mut ids, mut writer) = p.await.map_err(|e| e.to_string())??;
            match c.order {
                0 => {}
                1 => ids.reverse(),
                seed => {
                    let mut x = seed as u64 | 1;
                    for k in (1..ids.len()).rev() {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        ids.swap(k, x as usize % (k + 1));
                    }
                }
            }
            for (_, id) in ids.iter().take(c.own as usize) {
                writer.send(&Frame::new(*id, 0, None, None, "own", vec![])).await?;
                own += 1;
            }
            for (k, (i, id)) in ids.iter().enumerate() {
                if c.unanswered > 0 && i % c.unanswered as usize == 0 {
                    continue;
                }
                let ty = 1 + (i % 3) as u8;
                let data = if ty == 3 { error_payload(*i as u16, "no") } else { (*i as u32).to_le_bytes().to_vec() };
                let f = Frame::new((1 << 43) + k as u64, ty, Some(*id), None, "reply", data);
                writer.send(&f).await?;
                sent.insert(*i, f);
            }
            keep.push(writer);
        }
        sleep_ms(WAIT.as_millis() as u64 * 2).await;
        let results = results.lock().unwrap();
        for i in 0..n_req {
            let (times, g) = results.get(&i).ok_or_else(|| format!("request {i} of {n_req} never ended"))?;
            ensure!(*times == 1, "request {i} was made {times} times");
            match sent.get(&i) {
                None => ensure!(*g == Got::Timeout, "request {i} was not answered but got {g:?}"),
                Some(f) => ensure!(fits(g, f), "request {i} of {n_req} got {g:?} instead of {}", f.short()),
            }
        }
        let (owns, replies) = *handled.lock().unwrap();
        ensure!(owns == own, "{owns} of the peer's own {own} events were handled");
        ensure!(replies == 0, "{replies} replies went to a handler although somebody waited for them");
        drop(keep);
        Ok(Info::new(n_req > 1).label(n_req > 1000, "over 1000 at once").label(own > 0, "colliding ids"))
    })
}

pub fn c08(r: &mut Runner) {
    r.rule("A case is non-trivial if at least one request is answered (part duplex: at least two).");
    r.part("matching", cases(400_000, 6_000_000), matching, c08_matching);
    r.part(
        "outstanding",
        cases(960, 16_000),
        || {
            let count = prop_oneof![2 => 20u16..300, 2 => 300u16..1500, 1 => 1500u16..6000];
            let unanswered = prop_oneof![2 => Just(0u16), 1 => 2u16..100];
            let own = prop_oneof![1 => Just(0u16), 1 => 1u16..300];
            (role(), count, prop_oneof![1 => 0u32..2, 2 => any::<u32>()], unanswered, own, (io_plan_coarse(), io_plan_coarse()))
                .prop_map(|(role, count, order, unanswered, own, io)| Outstanding { role, count, order, unanswered, own, io })
        },
        c08_outstanding,
    );
    r.part(
        "duplex",
        cases(150_000, 2_000_000),
        || {
            let call = (any::<bool>(), blob(200), prop_oneof![Just(0u16), 0u16..500], 0u8..3);
            (vec(call, 1..12), 1u8..4, any::<bool>(), (io_plan(), io_plan()))
                .prop_map(|(calls, clients, pooled, io)| Duplex { calls, clients, pooled, io })
        },
        c08_duplex,
    );
}

// ------------------------------------------------------------------------------------------------------ C09 and C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Timed {
    ctx: u8,
    stream: bool,
    /// when it is emitted
    start: u32,
    with_timeout: Option<u32>,
    /// the default timeout that is set at the context itself
    #[serde(default)]
    ctx_timeout: Option<u32>,
    /// (what, milliseconds since the one before)
    replies: Vec<(Rep, u32)>,
    /// pause of the consumer between items
    slow: u16,
    drop_after: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Schedule {
    role: Role,
    builder_timeout: Option<u32>,
    calls: Vec<Timed>,
    /// events of the peer itself, sent at these times
    noise: Vec<(u8, u32)>,
    /// nothing that the endpoint writes gets through in this time
    frozen: Option<(u32, u16)>,
    io: (IoPlan, IoPlan),
}

#[derive(Clone, Debug)]
struct Log {
    items: Vec<(Got, u64)>,
    dropped: bool,
}

const EXTRA_POLLS: usize = 3;

async fn consume(mut ctx: Context, idx: usize, t: Timed, start: Instant) -> Log {
    if let Some(ms) = t.ctx_timeout {
        ctx.default_reply_timeout = timeout(ms);
    }
    let mut log = Log { items: vec![], dropped: false };
    tokio::time::sleep_until(start + Duration::from_millis(t.start as u64)).await;
    let e = ctx.emit("call", raw(vec![idx as u8]));
    if !t.stream {
        let mut e = e.await_reply();
        if let Some(ms) = t.with_timeout {
            e = e.with_timeout(timeout(ms));
        }
        let g = got(e.await);
        log.items.push((g, now_ms(start)));
        return log;
    }
    let mut e = e.stream_replies();
    if let Some(ms) = t.with_timeout {
        e = e.with_timeout(timeout(ms));
    }
    let mut stream = match e.await {
        Ok(s) => s,
        Err(e) => {
            log.items.push((Got::Other(format!("{e:?}")), now_ms(start)));
            return log;
        }
    };
    let mut ends = 0;
    loop {
        if t.drop_after == Some(log.items.len() as u8) {
            log.dropped = true;
            return log;
        }
        match stream.next().await {
            Some(r) => {
                log.items.push((got(r), now_ms(start)));
                if t.slow > 0 {
                    sleep_ms(t.slow as u64).await;
                }
            }
            None => {
                log.items.push((Got::End, now_ms(start)));
                ends += 1;
                if ends == EXTRA_POLLS {
                    return log;
                }
            }
        }
        if log.items.len() > 500 {
            return log;
        }
    }
}

/// u32::MAX stands for the longest duration there is
fn timeout(ms: u32) -> Duration {
    if ms == u32::MAX {
        Duration::MAX
    } else {
        Duration::from_millis(ms as u64)
    }
}

#[derive(Debug)]
enum Expect {
    /// the reply with this number
    Item(usize),
    Timeout,
    End,
}

/// What happens according to the property: (expectation, virtual time), whether it is too close to call
fn model(t: &Timed, sent: u64, default: u64) -> (Vec<(Expect, u64)>, bool, bool) {
    let limit = match t.with_timeout.or(t.ctx_timeout) {
        Some(u32::MAX) => u64::MAX / 4,
        Some(ms) => ms as u64,
        None => default,
    };
    let mut out = vec![];
    let mut close = false;
    let mut arrival = sent;
    let mut poll = sent;
    let mut i = 0;
    loop {
        if t.stream && t.drop_after == Some(out.len() as u8) {
            return (out, close, true);
        }
        let a = t.replies.get(i).map(|(_, gap)| arrival + *gap as u64);
        if let Some(a) = a {
            arrival = a;
        }
        let deadline = poll + limit;
        match a {
            Some(a) if a < deadline => {
                close |= a + 4 > deadline;
                let at = a.max(poll);
                out.push((Expect::Item(i), at));
                poll = at + t.slow as u64;
                let ty = t.replies[i].0.ty;
                i += 1;
                if !t.stream {
                    return (out, close, false);
                }
                if ty == refcodec::END || ty == refcodec::ERROR {
                    break;
                }
            }
            _ => {
                close |= a.map(|a| a < deadline + 4) == Some(true);
                out.push((Expect::Timeout, deadline));
                if !t.stream {
                    return (out, close, false);
                }
                poll = deadline + t.slow as u64;
                break;
            }
        }
    }
    for _ in 0..EXTRA_POLLS {
        if t.drop_after == Some(out.len() as u8) {
            return (out, close, true);
        }
        out.push((Expect::End, poll));
    }
    (out, close, false)
}

fn run_schedule(c: &Schedule, check_times: bool) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let results: Results<Log> = Default::default();
        let rec = Recorder::default();
        let mut b = Builder::new().on("own", super::dispatch::recording(&rec, "own".into()));
        if let Some(t) = c.builder_timeout {
            b = b.timeout(timeout(t));
        }
        let default = match c.builder_timeout {
            Some(u32::MAX) => u64::MAX / 4,
            Some(t) => t as u64,
            None => 60_000,
        };
        let start = Instant::now() + Duration::from_millis(10);
        let (calls, res) = (Arc::new(c.calls.clone()), results.clone());
        b = b.on("go", move |ctx, event| {
            let (calls, res) = (calls.clone(), res.clone());
            Box::pin(async move {
                let i = event.data_raw()[0] as usize;
                let log = consume(ctx.clone(), i, calls[i].clone(), start).await;
                res.lock().unwrap().insert(i, log);
                Ok(Response::empty())
            })
        });
        let mut ep = endpoint(c.role, &net, b).await?;
        let n = ep.peers.len();
        for (i, t) in c.calls.iter().enumerate() {
            let at = t.ctx as usize % n;
            if ep.ctxs.is_empty() {
                ep.peers[at].send(&Frame::new(7000 + i as u64, 0, None, None, "go", vec![i as u8])).await?;
            } else {
                let (ctx, t, res) = (ep.ctxs[at].clone(), t.clone(), results.clone());
                tokio::spawn(async move {
                    let log = consume(ctx, i, t, start).await;
                    res.lock().unwrap().insert(i, log);
                });
            }
        }
        ensure!(Instant::now() <= start, "harness: late");
        // the peers: one task reads, one writes what is due
        let sent_frames: Results<Vec<Frame>> = Default::default();
        let mut noise_sent = 0;
        for conn in 0..n {
            let mut peer = ep.peers.remove(0);
            let (mut tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<(Option<usize>, Frame)>();
            for (k, (_, at)) in c.noise.iter().enumerate().filter(|(_, (c, _))| *c as usize % n == conn) {
                let (tx, at) = (tx.clone(), *at as u64);
                noise_sent += 1;
                tokio::spawn(async move {
                    tokio::time::sleep_until(start + Duration::from_millis(at)).await;
                    let _ = tx.send((None, Frame::new(500 + k as u64, 0, None, None, "own", vec![])));
                });
            }
            let (calls, sent_frames) = (c.calls.clone(), sent_frames.clone());
            tokio::spawn(async move {
                let mut next = 1u64 << 42;
                loop {
                    tokio::select! {
                        f = peer.recv() => {
                            let Ok(Some(f)) = f else { break };
                            if f.name != "call" { continue }
                            let i = f.data[0] as usize;
                            let now = Instant::now();
                            let mut due = 0;
                            let mut list = vec![];
                            for (r, gap) in &calls[i].replies {
                                due += *gap as u64;
                                list.push((due, r.frame(next, f.id)));
                                next += 1;
                            }
                            let tx2 = tx.clone();
                            tokio::spawn(async move {
                                for (due, f) in list {
                                    if due > 0 {
                                        tokio::time::sleep_until(now + Duration::from_millis(due)).await;
                                    }
                                    let _ = tx2.send((Some(i), f));
                                }
                            });
                        }
                        Some((i, f)) = rx.recv() => {
                            if let Some(i) = i {
                                sent_frames.lock().unwrap().entry(i).or_default().push(f.clone());
                            }
                            if peer.send(&f).await.is_err() { break }
                        }
                    }
                }
                tx = tokio::sync::mpsc::unbounded_channel().0;
                drop(tx);
            });
        }
        if let Some((from, len)) = c.frozen {
            let wires: Vec<_> = (0..n).map(|i| net.wires(i)).collect();
            let server = matches!(c.role, Role::Server(_));
            tokio::spawn(async move {
                let pipes: Vec<_> =
                    wires.iter().map(|w| if server { &w.server_to_client } else { &w.client_to_server }).collect();
                tokio::time::sleep_until(start + Duration::from_millis(from as u64)).await;
                pipes.iter().for_each(|p| p.freeze(true));
                sleep_ms(len as u64).await;
                pipes.iter().for_each(|p| p.freeze(false));
            });
        }
        // long enough for all of it
        tokio::time::sleep(Duration::from_secs(20_000_000)).await;
        let results = results.lock().unwrap().clone();
        let sent_frames = sent_frames.lock().unwrap().clone();
        let (mut items, mut timeouts, mut ties, mut many, mut dropped, mut unlimited) = (0, 0, 0, 0, 0, 0);
        for (i, t) in c.calls.iter().enumerate() {
            let mut sent = t.start as u64;
            if let Some((from, len)) = c.frozen {
                let end = from as u64 + len as u64;
                // equal times: either may come first
                if sent + 3 > from as u64 && sent < from as u64 + 3 || sent + 3 > end && sent < end + 3 {
                    ties += 1;
                    continue;
                }
                if sent > from as u64 && sent < end {
                    sent = end;
                }
            }
            let (expected, close, drops) = model(t, sent, default);
            if close {
                ties += 1;
                continue;
            }
            if expected.last().map(|(_, at)| *at > 19_000_000_000) == Some(true) {
                let log = results.get(&i);
                ensure!(log.is_none(), "call {i} has nothing to end it but ended: {log:?}");
                unlimited += 1;
                continue;
            }
            let log = results.get(&i).ok_or_else(|| format!("call {i} has not ended"))?;
            let frames = sent_frames.get(&i).cloned().unwrap_or_default();
            let text = || {
                format!(
                    "call {i} ({}): got {:?}, expected {:?}",
                    if t.stream { "stream" } else { "request" },
                    log.items.iter().map(|(g, t)| match g {
                        Got::Reply(f) => format!("{} at {t}", f.short()),
                        g => format!("{g:?} at {t}"),
                    }).collect::<Vec<_>>(),
                    expected
                )
            };
            ensure!(log.items.len() == expected.len(), "{}", text());
            ensure!(log.dropped == drops, "{}", text());
            dropped += drops as usize;
            for ((g, at), (e, when)) in log.items.iter().zip(&expected) {
                let ok = match e {
                    Expect::Item(k) => {
                        items += 1;
                        fits(g, &frames[*k])
                    }
                    Expect::Timeout => {
                        timeouts += 1;
                        *g == Got::Timeout
                    }
                    Expect::End => *g == Got::End,
                };
                ensure!(ok, "{}", text());
                if check_times {
                    ensure!(*at >= *when && *at <= *when + 2, "at {at} instead of {when} ms: {}", text());
                }
            }
            many += (frames.len() > 8) as usize;
        }
        // everything else went on
        let own = rec.len();
        ensure!(own == noise_sent, "{own} of {noise_sent} other events were handled");
        Ok(Info::new(items + timeouts > 0)
            .label(items > 0, "replies")
            .label(timeouts > 0, "timeouts")
            .label(many > 0, "more than eight replies")
            .label(dropped > 0, "dropped streams")
            .label(c.calls.len() > 1, "several at once")
            .label(c.frozen.is_some(), "delayed sending")
            .label(unlimited > 0, "waits without end")
            .label(ties > 0, "too close to call"))
    })
}

fn schedule(max_replies: usize, timing: bool) -> BoxedStrategy<Schedule> {
    let t = || {
        prop_oneof![1 => 0u32..5, 4 => 5u32..2000, 2 => 2000u32..200_000, 1 => 200_000u32..20_000_000, 1 => Just(u32::MAX)]
    };
    // gaps are relative to the limit that applies
    #[derive(Clone, Debug)]
    enum Gap {
        Abs(u32),
        Permille(u32),
        Before(u32),
        After(u32),
    }
    let gap = if timing {
        prop_oneof![
            2 => (0u32..1000).prop_map(Gap::Abs),
            4 => (0u32..990).prop_map(Gap::Permille),
            2 => (5u32..12).prop_map(Gap::Before),
            1 => (5u32..12).prop_map(Gap::After),
            1 => (1010u32..3000).prop_map(Gap::Permille),
        ]
        .boxed()
    } else {
        prop_oneof![
            6 => Just(Gap::Abs(0)),
            3 => (0u32..20).prop_map(Gap::Abs),
            3 => (0u32..900).prop_map(Gap::Permille),
            1 => (1100u32..3000).prop_map(Gap::Permille),
        ]
        .boxed()
    };
    let last = prop_oneof![3 => Just(2u8), 1 => Just(3u8), 2 => Just(1u8)];
    let reps = (prop_oneof![vec((rep(), gap.clone()), 0..4), vec((rep(), gap), 0..max_replies)], last, any::<bool>());
    let call = (
        0u8..4,
        if timing { any::<bool>().boxed() } else { prop_oneof![5 => Just(true), 1 => Just(false)].boxed() },
        prop_oneof![Just(0u32), 0u32..3000],
        (opt(t()), prop_oneof![7 => Just(None), 1 => t().prop_map(Some)]),
        reps,
        prop_oneof![4 => Just(0u16), 1 => 1u16..300],
        prop_oneof![4 => Just(None), 1 => (0u8..6).prop_map(Some)],
    );
    (
        role(),
        opt(t()),
        vec(call, 1..6),
        vec((0u8..4, 0u32..100_000), 0..4),
        if timing { opt((1u32..3000, 1u16..40_000)) } else { Just(None).boxed() },
        (io_plan(), io_plan()),
    )
        .prop_map(move |(role, builder_timeout, calls, noise, frozen, io)| {
            let calls = calls
                .into_iter()
                .map(|(ctx, stream, start, (with_timeout, ctx_timeout), (reps, last, terminated), slow, drop_after)| {
                    let limit = with_timeout.or(ctx_timeout).or(builder_timeout).unwrap_or(60_000).min(100_000_000);
                    let n = reps.len();
                    let mut replies: Vec<(Rep, u32)> = reps
                        .into_iter()
                        .enumerate()
                        .map(|(i, (mut r, g))| {
                            // most streams have their terminating event at the end
                            if i + 1 < n && !timing && r.data.s % 16 != 0 {
                                r.ty = r.ty.min(1)
                            } else if i + 1 == n && terminated {
                                r.ty = last
                            }
                            let gap = match g {
                                Gap::Abs(g) => g,
                                Gap::Permille(p) => (limit as u64 * p as u64 / 1000) as u32,
                                Gap::Before(d) => limit.saturating_sub(d),
                                Gap::After(d) => limit + d,
                            };
                            (r, gap)
                        })
                        .collect();
                    // a consumer that does not read fast enough stops the connection: only as much as is buffered
                    let drop_after = if slow > 0 || drop_after.is_some() { replies.truncate(7); drop_after } else { None };
                    Timed { ctx, stream, start, with_timeout, ctx_timeout, replies, slow, drop_after }
                })
                .collect();
            Schedule { role, builder_timeout, calls, noise, frozen, io }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EndToEnd {
    /// per stream: (replies, how the handler ends, pause between)
    streams: Vec<(Vec<Blob>, u8, u16)>,
    requests: u8,
    io: (IoPlan, IoPlan),
}

/// Streams between two real endpoints
fn c09_end_to_end(c: &EndToEnd) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let streams = Arc::new(c.streams.clone());
        let s2 = streams.clone();
        let server = Builder::new()
            .on("many", move |ctx, event| {
                let streams = s2.clone();
                Box::pin(async move {
                    let (replies, end, pause) = &streams[event.data_raw()[0] as usize];
                    for (i, r) in replies.iter().enumerate() {
                        let mut d = vec![i as u8];
                        d.extend(r.bytes());
                        ctx.emit("item", raw(d)).await?;
                        if *pause > 0 {
                            sleep_ms(*pause as u64).await;
                        }
                    }
                    match end % 3 {
                        0 => Ok(Response::empty()),
                        1 => ctx.response(raw(vec![99])),
                        _ => Err("no more".into()),
                    }
                })
            })
            .on("echo", |ctx, event| Box::pin(async move { ctx.response(raw(event.data_raw().to_vec())) }));
        start_server(&net, server).await?;
        let ctx = Builder::new().address(net.clone()).build_client().await.map_err(|e| format!("{e:?}"))?;
        let mut tasks = vec![];
        for i in 0..c.streams.len() {
            let (ctx, streams) = (ctx.clone(), streams.clone());
            tasks.push(tokio::spawn(async move {
                let (replies, end, _) = &streams[i];
                let mut s = ctx.emit("many", raw(vec![i as u8])).stream_replies().await.map_err(|e| format!("{e:?}"))?;
                for (k, r) in replies.iter().enumerate() {
                    let e = s.next().await.ok_or("the stream ended early")?.map_err(|e| format!("{e:?}"))?;
                    let mut d = vec![k as u8];
                    d.extend(r.bytes());
                    ensure!(e.data_raw() == &d[..], "item {k} of stream {i} is another one");
                    ensure!(type_num(e.event_type()) == refcodec::RESPONSE, "item {k} has another type");
                }
                let e = got(s.next().await.ok_or("the terminating event is missing")?);
                let ok = match (end % 3, &e) {
                    (0, Got::Reply(f)) => f.ty == refcodec::END && f.data.is_empty(),
                    (1, Got::Reply(f)) => f.ty == refcodec::END && f.data == [99],
                    (2, Got::Reply(f)) => f.ty == refcodec::ERROR && parse_error(&f.data)?.1.contains("no more"),
                    (2, Got::Error(500, m)) => m.contains("no more"),
                    _ => false,
                };
                ensure!(ok, "stream {i} ended with {e:?}");
                for _ in 0..3 {
                    ensure!(s.next().await.is_none(), "the stream goes on after its end");
                }
                Ok(())
            }));
        }
        for k in 0..c.requests {
            let ctx = ctx.clone();
            tasks.push(tokio::spawn(async move {
                let r = ctx.emit("echo", raw(vec![k; 5])).await_reply().await.map_err(|e| format!("{e:?}"))?;
                ensure!(r.data_raw() == [k; 5], "another reply");
                Ok(())
            }));
        }
        for t in tasks {
            t.await.map_err(|e| format!("panic: {e}"))??;
        }
        Ok(Info::new(c.streams.iter().any(|s| !s.0.is_empty())).label(c.streams.iter().any(|s| s.0.len() > 8), "more than eight replies"))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Backlog {
    role: Role,
    /// (connection, replies, pause before the first one is read, pauses between, type of the last one)
    streams: Vec<(u8, u16, u16, Vec<u8>, u8)>,
    /// replies of the streams of a connection are sent one by one in turn
    interleave: bool,
    /// the streams are dropped after so many items
    drop_after: Option<u16>,
    requests: u8,
    io: (IoPlan, IoPlan),
}

/// Streams whose consumers are far behind the peer
fn c09_backlog(c: &Backlog) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let listening = matches!(c.role, Role::Server(_));
        let done: Arc<Mutex<Vec<Result<(), String>>>> = Default::default();
        let (streams, drop_after, done2) = (Arc::new(c.streams.clone()), c.drop_after, done.clone());
        let run = move |ctx: Context, i: usize| {
            let (streams, done) = (streams.clone(), done2.clone());
            async move {
                let r = read_behind(ctx, i, &streams, drop_after).await;
                done.lock().unwrap().push(r.map_err(|e| format!("stream {i}: {e}")));
            }
        };
        let run2 = run.clone();
        let b = Builder::new()
            .timeout(FOREVER)
            .on("go", move |ctx, event| {
                let i = u16::from_be_bytes([event.data_raw()[0], event.data_raw()[1]]) as usize;
                let fut = run2(ctx.clone(), i);
                Box::pin(async move {
                    fut.await;
                    Ok(Response::empty())
                })
            })
            // dropped streams leave replies that nobody waits for
            .on("item", |_, _| Box::pin(async { Ok(Response::empty()) }));
        let mut ep = endpoint(c.role, &net, b).await?;
        let n = ep.peers.len();
        let wanted = c.streams.len() + c.requests as usize;
        for (conn, mut peer) in std::mem::take(&mut ep.peers).into_iter().enumerate() {
            let mine: Vec<usize> = (0..c.streams.len()).filter(|i| c.streams[*i].0 as usize % n == conn).collect();
            let c = c.clone();
            let done = done.clone();
            if listening {
                for i in &mine {
                    peer.send(&Frame::new(7000 + *i as u64, 0, None, None, "go", (*i as u16).to_be_bytes().to_vec())).await?;
                }
            }
            let total = mine.len();
            tokio::spawn(async move {
                let mut asked = vec![];
                let mut next = 1u64 << 42;
                // first all streams are opened, then everything is answered at once, requests last
                while asked.len() < total {
                    let Ok(Some(f)) = peer.recv().await else { return };
                    if f.name == "call" {
                        asked.push((u16::from_be_bytes([f.data[0], f.data[1]]) as usize, f.id, 0u16));
                    }
                }
                // reading goes on, so that the endpoint is never blocked by its peer
                let crate::sim::SimStream { read, write } = peer.stream;
                let mut reader = RawPeer::new(read);
                let mut writer = RawPeer::new(write);
                writer.listener = peer.listener;
                let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
                tokio::spawn(async move {
                    while let Ok(Some(f)) = reader.recv().await {
                        if f.name == "quick" && tx.send(f).is_err() {
                            return;
                        }
                    }
                });
                loop {
                    let mut any = false;
                    for (i, id, sent) in asked.iter_mut() {
                        let (_, count, _, _, last) = &c.streams[*i];
                        while *sent < *count {
                            let ty = if *sent + 1 == *count { 2 + last % 2 } else { 1 };
                            let data = if ty == 3 { error_payload(7, "last") } else { sent.to_be_bytes().to_vec() };
                            next += 1;
                            if writer.send(&Frame::new(next, ty, Some(*id), None, "item", data)).await.is_err() {
                                return;
                            }
                            *sent += 1;
                            any = true;
                            if c.interleave {
                                break;
                            }
                        }
                    }
                    if !any {
                        break;
                    }
                }
                while let Some(f) = rx.recv().await {
                    next += 1;
                    if writer.send(&Frame::new(next, 1, Some(f.id), None, "quick", f.data)).await.is_err() {
                        return;
                    }
                }
                drop(done);
            });
        }
        if !listening {
            for i in 0..c.streams.len() {
                tokio::spawn(run(ep.ctxs[c.streams[i].0 as usize % n].clone(), i));
            }
            for k in 0..c.requests {
                let (ctx, done) = (ep.ctxs[k as usize % n].clone(), done.clone());
                tokio::spawn(async move {
                    sleep_ms(2).await;
                    let r = match ctx.emit("quick", raw(vec![k; 3])).await_reply().await {
                        Ok(e) if e.data_raw() == [k; 3] => Ok(()),
                        Ok(e) => Err(format!("request {k} gets {}", to_frame(&e).short())),
                        Err(e) => Err(format!("request {k}: {e:?}")),
                    };
                    done.lock().unwrap().push(r);
                });
            }
        }
        sleep_ms(100_000_000).await;
        let done = done.lock().unwrap();
        for r in done.iter() {
            r.clone()?;
        }
        let wanted = if listening { c.streams.len() } else { wanted };
        ensure!(done.len() == wanted, "{} of {wanted} streams and requests have ended", done.len());
        let most = c.streams.iter().map(|s| s.1).max().unwrap_or(0);
        Ok(Info::new(most > 8)
            .label(most > 300, "more than 300 replies")
            .label(c.requests > 0 && !listening, "requests behind them")
            .label(c.drop_after.is_some(), "dropped streams"))
    })
}

async fn read_behind(ctx: Context, i: usize, streams: &[(u8, u16, u16, Vec<u8>, u8)], drop_after: Option<u16>) -> Result<(), String> {
    let (_, count, first, pauses, last) = &streams[i];
    let mut s = ctx
        .emit("call", raw((i as u16).to_be_bytes().to_vec()))
        .stream_replies()
        .await
        .map_err(|e| format!("{e:?}"))?;
    sleep_ms(*first as u64).await;
    for k in 0..*count {
        if drop_after == Some(k) {
            return Ok(());
        }
        let r = s.next().await.ok_or_else(|| format!("ended before item {k} of {count}"))?;
        let g = got(r);
        let ok = match &g {
            Got::Reply(f) if f.ty == 3 => k + 1 == *count && last % 2 == 1 && f.data == error_payload(7, "last"),
            Got::Reply(f) => f.data == k.to_be_bytes() && (f.ty == 2) == (k + 1 == *count),
            Got::Error(7, m) => k + 1 == *count && last % 2 == 1 && m == "last",
            _ => false,
        };
        ensure!(ok, "item {k} of {count} is {g:?}");
        if let Some(p) = pauses.get(k as usize % pauses.len().max(1)) {
            if *p > 0 {
                sleep_ms(*p as u64).await;
            }
        }
    }
    ensure!(s.next().await.is_none(), "the stream goes on after its last reply");
    Ok(())
}

fn backlog() -> BoxedStrategy<Backlog> {
    let count = prop_oneof![2 => 1u16..12, 3 => 8u16..120, 1 => 100u16..1500];
    let pauses = prop_oneof![3 => Just(vec![]), 1 => vec(0u8..4, 1..4)];
    let stream = (0u8..4, count, prop_oneof![1 => Just(0u16), 3 => 1u16..2000], pauses, any::<u8>());
    (role(), vec(stream, 1..4), any::<bool>(), prop_oneof![4 => Just(None), 1 => (0u16..40).prop_map(Some)], 0u8..4, (io_plan_coarse(), io_plan_coarse()))
        .prop_map(|(role, streams, interleave, drop_after, requests, io)| Backlog { role, streams, interleave, drop_after, requests, io })
        .boxed()
}

pub fn c09(r: &mut Runner) {
    r.rule("A case is non-trivial if a stream or request yields at least one reply or a timeout.");
    r.part("raw peer", cases(250_000, 4_000_000), || schedule(40, false), |c| run_schedule(c, false));
    r.part(
        "end to end",
        cases(100_000, 1_500_000),
        || {
            let s = (prop_oneof![vec(blob(200), 0..6), vec(blob(20), 0..40)], 0u8..3, prop_oneof![Just(0u16), 0u16..100]);
            (vec(s, 1..6), 0u8..4, (io_plan(), io_plan()))
                .prop_map(|(streams, requests, io)| EndToEnd { streams, requests, io })
        },
        c09_end_to_end,
    );
    r.part("backlog", cases(20_000, 300_000), backlog, c09_backlog);
}

pub fn c10(r: &mut Runner) {
    r.rule("A case is non-trivial if a wait ends by a reply or by its timeout at a time that the model determines.");
    r.part("timing", cases(500_000, 8_000_000), || schedule(6, true), |c| run_schedule(c, true));
}

// ------------------------------------------------------------------------------------------------------------- C11

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ending {
    Reply,
    ErrorReply,
    MalformedError,
    Timeout,
    FailPayload,
    FailHeader,
    /// the request future is dropped after that many polls
    DropRequest(u8),
    /// dropped after it has waited for a while
    DropWaiting,
    NeverPolled,
    StreamEnd(u8),
    StreamError,
    StreamTimeout(u8),
    StreamDropped(u8),
    StreamNeverPolled,
    StreamFails,
    DropStreamFuture(u8),
    /// reply and further replies in one go
    ManyReplies,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leak {
    role: Role,
    endings: Vec<(u8, Ending)>,
    rounds: u16,
    io: (IoPlan, IoPlan),
}

/// What the peer answers to a request
pub fn answers(f: &Frame, next: &mut u64) -> Vec<Frame> {
    let mut reply = |ty: u8, data: Vec<u8>| {
        *next += 1;
        Frame::new(*next, ty, Some(f.id), None, "reply", data)
    };
    let mut out = vec![];
    match f.name.split('.').collect::<Vec<_>>()[..] {
        ["reply"] => out.push(reply(1, vec![1])),
        ["error"] => out.push(reply(3, error_payload(3, "x"))),
        ["malformed"] => out.push(reply(3, vec![0, 0])),
        ["serror"] => {
            out.push(reply(1, vec![]));
            out.push(reply(3, error_payload(3, "x")))
        }
        ["end", k] => {
            out.extend((0..k.parse::<usize>().unwrap()).map(|_| reply(1, vec![5])));
            out.push(reply(2, vec![]));
        }
        ["some", k] => out.extend((0..k.parse::<usize>().unwrap()).map(|_| reply(1, vec![5]))),
        ["many"] => out.extend((0..20).map(|_| reply(1, vec![5]))),
        _ => {}
    }
    out
}

pub fn ending() -> BoxedStrategy<Ending> {
    prop_oneof![
        Just(Ending::Reply),
        Just(Ending::ErrorReply),
        Just(Ending::MalformedError),
        Just(Ending::Timeout),
        Just(Ending::FailPayload),
        Just(Ending::FailHeader),
        (0u8..6).prop_map(Ending::DropRequest),
        Just(Ending::DropWaiting),
        Just(Ending::NeverPolled),
        (0u8..12).prop_map(Ending::StreamEnd),
        Just(Ending::StreamError),
        (0u8..5).prop_map(Ending::StreamTimeout),
        (0u8..5).prop_map(Ending::StreamDropped),
        Just(Ending::StreamNeverPolled),
        Just(Ending::StreamFails),
        (0u8..6).prop_map(Ending::DropStreamFuture),
        Just(Ending::ManyReplies),
    ]
    .boxed()
}

/// Polls a future so often, then drops it
async fn poll_times<F: Future + Unpin>(mut f: F, times: u8) -> Option<F::Output> {
    let mut n = 0;
    std::future::poll_fn(|cx| {
        if n >= times {
            return Poll::Ready(None);
        }
        n += 1;
        match std::pin::Pin::new(&mut f).poll(cx) {
            Poll::Ready(x) => Poll::Ready(Some(x)),
            Poll::Pending => {
                if n >= times {
                    return Poll::Ready(None);
                }
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    })
    .await
}

fn kind(e: Ending) -> String {
    match e {
        Ending::Reply => "reply".into(),
        Ending::ErrorReply => "error".into(),
        Ending::MalformedError => "malformed".into(),
        Ending::StreamEnd(n) => format!("end.{n}"),
        Ending::StreamError => "serror".into(),
        Ending::StreamTimeout(n) | Ending::StreamDropped(n) => format!("some.{n}"),
        Ending::ManyReplies => "many".into(),
        _ => "silence".into(),
    }
}

const SHORT: Duration = Duration::from_millis(40);

pub async fn end_like(ctx: &Context, e: Ending) -> Result<(), String> {
    let emit = || ctx.emit(kind(e), raw(vec![1, 2, 3]));
    let show = |r: Got| format!("{e:?} ended with {r:?}");
    match e {
        Ending::Reply | Ending::ManyReplies => match got(emit().await_reply().await) {
            Got::Reply(_) => {}
            g => return Err(show(g)),
        },
        Ending::ErrorReply => match got(emit().await_reply().await) {
            Got::Error(3, _) => {}
            g => return Err(show(g)),
        },
        Ending::MalformedError => match got(emit().await_reply().await) {
            Got::Other(_) => {}
            g => return Err(show(g)),
        },
        Ending::Timeout => match got(emit().await_reply().with_timeout(SHORT).await) {
            Got::Timeout => {}
            g => return Err(show(g)),
        },
        Ending::FailPayload => match got(ctx.emit("silence", MaybePayload(None)).await_reply().await) {
            Got::Other(_) => {}
            g => return Err(show(g)),
        },
        Ending::FailHeader => match got(ctx.emit("x".repeat(70_000), raw(vec![])).await_reply().await) {
            Got::Other(_) => {}
            g => return Err(show(g)),
        },
        Ending::DropRequest(n) => {
            poll_times(emit().await_reply(), n).await;
        }
        Ending::DropWaiting => {
            let _ = tokio::time::timeout(SHORT, emit().await_reply()).await;
        }
        Ending::NeverPolled => {
            drop(emit().await_reply());
            drop(emit().stream_replies());
            drop(emit());
        }
        Ending::StreamEnd(_) | Ending::StreamError => {
            let mut s = emit().stream_replies().await.map_err(|e| format!("{e:?}"))?;
            while s.next().await.is_some() {}
        }
        Ending::StreamTimeout(_) => {
            let mut s = emit().stream_replies().with_timeout(SHORT).await.map_err(|e| format!("{e:?}"))?;
            let mut last = None;
            while let Some(x) = s.next().await {
                last = Some(got(x))
            }
            if last != Some(Got::Timeout) {
                return Err(format!("{e:?} ended with {last:?}"));
            }
        }
        Ending::StreamDropped(n) => {
            let mut s = emit().stream_replies().await.map_err(|e| format!("{e:?}"))?;
            for _ in 0..n {
                s.next().await;
            }
            // while the next item is being waited for
            if n % 2 == 0 {
                poll_times(s.next(), 1).await;
            }
        }
        Ending::StreamNeverPolled => {
            let s = emit().stream_replies().await.map_err(|e| format!("{e:?}"))?;
            drop(s);
        }
        Ending::StreamFails => {
            if ctx.emit("silence", MaybePayload(None)).stream_replies().await.is_ok() {
                return Err("a stream without event".into());
            }
        }
        Ending::DropStreamFuture(n) => {
            poll_times(emit().stream_replies(), n).await;
        }
    }
    Ok(())
}

fn c11_leaks(c: &Leak) -> Outcome {
    run_virtual(async {
        const WARM: usize = 10;
        let rounds = c.rounds as usize;
        let net = Net::new(vec![c.io.clone()]);
        // (late replies handled in the namespace, other handler calls, failures)
        let state: Arc<Mutex<(u64, u64, Vec<String>)>> = Default::default();
        let (s1, s2, s3) = (state.clone(), state.clone(), state.clone());
        let mut eh = EventHandler::new();
        eh.on("late", move |_, _| {
            s1.lock().unwrap().0 += 1;
            Box::pin(async { Ok(Response::empty()) })
        });
        let endings = Arc::new(c.endings.clone());
        let e2 = endings.clone();
        let b = Builder::new()
            .add_namespace(Namespace::new("n0", eh))
            .on("late", move |_, _| {
                s2.lock().unwrap().1 += 1;
                Box::pin(async { Ok(Response::empty()) })
            })
            .on("go", move |ctx, event| {
                let (endings, s3) = (e2.clone(), s3.clone());
                Box::pin(async move {
                    if let Err(e) = end_like(ctx, endings[event.data_raw()[0] as usize].1).await {
                        s3.lock().unwrap().2.push(e);
                    }
                    Ok(Response::empty())
                })
            });
        let mut ep = endpoint(c.role, &net, b).await?;
        let n = ep.peers.len();
        for i in 0..n {
            net.wires(i).client_to_server.forget_log();
            net.wires(i).server_to_client.forget_log();
        }
        let mut next = 1u64 << 41;
        let mut at_warm = 0;
        let mut late_sent = 0u64;
        let mut replied = 0;
        let mut growth: Vec<isize> = Vec::with_capacity(rounds);
        for round in 0..WARM + rounds {
            if round == WARM {
                at_warm = crate::alloc::live();
            }
            let mut tasks = vec![];
            for (i, (conn, e)) in endings.iter().enumerate() {
                let conn = *conn as usize % n;
                if ep.ctxs.is_empty() {
                    ep.peers[conn].send(&Frame::new(i as u64, 0, None, None, "go", vec![i as u8])).await?;
                } else {
                    let (ctx, e) = (ep.ctxs[conn].clone(), *e);
                    tasks.push(tokio::spawn(async move { end_like(&ctx, e).await }));
                }
            }
            let mut ids: Vec<(usize, u64)> = vec![];
            for conn in 0..n {
                let peer = &mut ep.peers[conn];
                loop {
                    let f = match tokio::time::timeout(Duration::from_millis(3), peer.recv()).await {
                        Ok(r) => r?.ok_or("closed")?,
                        Err(_) => break,
                    };
                    if f.ty == refcodec::END || f.ty == refcodec::ERROR {
                        continue;
                    }
                    ids.push((conn, f.id));
                    let out = answers(&f, &mut next);
                    replied += out.len();
                    for f in out {
                        peer.send(&f).await?;
                    }
                }
            }
            sleep_ms(200_000).await;
            for t in tasks {
                ensure!(t.is_finished(), "a request has not ended");
                t.await.map_err(|e| format!("panic: {e}"))??;
            }
            // an emit that was dropped half-way is finished by the next one
            for ctx in &ep.ctxs {
                let ctx = ctx.clone();
                tokio::spawn(async move { ctx.emit("poke", raw(vec![])).await });
            }
            for conn in 0..n {
                for f in ep.peers[conn].drain(3).await? {
                    if f.ty != refcodec::END && f.ty != refcodec::ERROR && f.name != "poke" {
                        ids.push((conn, f.id));
                    }
                }
            }
            // late replies and ends
            for (conn, id) in &ids {
                let peer = &mut ep.peers[*conn];
                peer.send(&Frame::new(next + 1, 1, Some(*id), Some("n0"), "late", vec![])).await?;
                peer.send(&Frame::new(next + 2, 3, Some(*id), Some("n0"), "late", vec![])).await?;
                peer.send(&Frame::new(next + 3, 2, Some(*id), Some("n0"), "late", vec![])).await?;
                peer.send(&Frame::new(next + 4, 2, Some(*id), None, "late", vec![])).await?;
                next += 4;
                late_sent += 2;
            }
            for p in ep.peers.iter_mut() {
                let answers = p.drain(3).await?;
                let bad = answers.iter().find(|f| f.ty != refcodec::END);
                ensure!(bad.is_none(), "late replies caused {:?}", bad.map(|f| f.short()));
            }
            let (late, other, errors) = {
                let s = state.lock().unwrap();
                (s.0, s.1, s.2.first().cloned())
            };
            if let Some(e) = errors {
                return Err(e);
            }
            ensure!(late == late_sent, "{late} of {late_sent} late replies were handled in their namespace");
            ensure!(other == 0, "late replies or ends reached another handler");
            if round >= WARM {
                growth.push(crate::alloc::live() - at_warm);
            }
        }
        let total = *growth.last().unwrap();
        // tables (not their entries) may still grow to their final size: some kilobytes for each connection. An entry
        // that is left behind takes hundreds of bytes (or 8 where only an id is left, for which the long cases are).
        let limit = (6_000 * n + rounds * endings.len()) as isize;
        ensure!(
            total <= limit,
            "{total} bytes are retained after {} ended requests; growth over the rounds: {:?}",
            rounds * endings.len(),
            growth.iter().step_by((rounds / 6).max(1)).collect::<Vec<_>>()
        );
        Ok(Info::new(late_sent > 0).label(replied > 0, "replies").label(n > 1, "several connections").label(rounds > 1000, "thousands of requests").label(total == 0, "no growth at all"))
    })
}

pub fn c11(r: &mut Runner) {
    r.rule("A case is non-trivial if at least one of its requests was sent and a late reply to it processed. Each case repeats its requests 70 to 4000 times.");
    let strategy = || {
        let e = ending();
        let few = (Just(60u16), (io_plan(), io_plan())).boxed();
        let many = (3000u16..4000, (io_plan_coarse(), io_plan_coarse())).boxed();
        (role(), vec((0u8..3, e), 1..5), prop_oneof![20 => few, 1 => many])
            .prop_map(|(role, endings, (rounds, io))| Leak { role, endings, rounds, io })
    };
    r.part("rounds", cases(4_000, 80_000), strategy, c11_leaks);
}
