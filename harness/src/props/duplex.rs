//! C26 (both ends talk at once), C28 (pauses of any length), C31 (futures driven in any way)
use crate::drive::{drive, step, Step};
use crate::ensure;
use crate::gen::*;
use crate::refcodec;
use crate::runner::{cases, serial, Info, Outcome, Runner};
use crate::sim::{IoPlan, Net, SimListener};
use crate::util::*;
use bromine::prelude::*;
use bromine::protocol::AsyncStreamProtocolListener;
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Note(Blob),
    /// the same to a name that nobody handles
    Nobody(Blob),
    /// a request whose payload comes back
    Echo(Blob),
    /// ... in a namespace
    EchoIn(Blob),
    Fail(Blob),
    /// a request that nobody handles
    Unknown(Blob),
    /// that many replies of that size
    Stream(u8, Blob),
    Pause(u8),
    /// nothing for that many milliseconds
    Idle(u32),
    /// a request that is answered after that many milliseconds
    Slow(u32, Blob),
    /// a stream whose items come after that many milliseconds, and are taken after that many
    SlowStream(u8, u32, u32),
    /// a request that is not answered, with that timeout
    Silence(u16),
    /// a stream with that timeout whose replies stop after so many
    SilentStream(u8, u16),
    /// so many replies, before each of which so many calls for the next one are dropped
    Dropped(u8, u8),
    /// several requests in one task
    Together(u8, Blob),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talk {
    /// by the server, in a handler
    server: bool,
    conn: u8,
    ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Duplex {
    /// 0: a client, otherwise a pool of that size
    pool: u8,
    encrypted: bool,
    talks: Vec<Talk>,
    io: (IoPlan, IoPlan),
    /// for waits that are given no timeout, none of which is left to it
    #[serde(default)]
    timeout: Option<u32>,
    /// how everything is driven
    #[serde(default)]
    steps: Vec<Step>,
    /// in real time
    #[serde(default)]
    real: bool,
}

/// Who received which notes, how often
type Notes = Arc<Mutex<BTreeMap<(bool, Vec<u8>), usize>>>;
type Results = Arc<Mutex<BTreeMap<usize, Result<(), String>>>>;

/// The next item of a stream
async fn next(steps: &[Step], s: &mut Option<ResponseStream>) -> Option<IPCResult<Event>> {
    if steps.is_empty() {
        return s.as_mut().unwrap().next().await;
    }
    let mut taken = s.take().unwrap();
    let (back, item) = drive(steps, async move {
        let item = taken.next().await;
        (taken, item)
    })
    .await;
    *s = Some(back);
    item
}

/// The time that operations can lose by the way they are driven
fn slack(c: &Duplex) -> u64 {
    if c.real {
        return 1 << 40;
    }
    let busy: u64 = c.steps.iter().map(|s| if let Step::Busy(ms) = s { *ms as u64 } else { 0 }).sum();
    let ops = c.talks.iter().flat_map(|t| &t.ops);
    let waits: u64 = ops
        .map(|op| match op {
            Op::Pause(ms) => *ms as u64,
            Op::Stream(n, _) | Op::SilentStream(n, _) | Op::Dropped(n, _) => (*n as u64 + 2) * busy + 40 * *n as u64,
            _ => busy,
        })
        .sum();
    if busy == 0 && c.talks.iter().flat_map(|t| &t.ops).all(|op| !matches!(op, Op::Pause(_) | Op::Dropped(..))) {
        return 2;
    }
    waits * 2 + 10 * busy + 2
}

async fn talk(ctx: &Context, ops: &[Op], steps: &[Step], slack: u64) -> Result<(), String> {
    let show = |i: usize, op: &Op, r: &dyn std::fmt::Debug| format!("operation {i} ({op:?}): {r:.200?}");
    for (i, op) in ops.iter().enumerate() {
        let event = |r: IPCResult<Event>| r.map(|e| (type_num(e.event_type()), e.data_raw().to_vec()));
        match op {
            Op::Note(b) => drop(drive(steps, ctx.emit("note", raw(b.bytes()))).await.map_err(|e| show(i, op, &e))?),
            Op::Nobody(b) => drop(drive(steps, ctx.emit("nobody", raw(b.bytes()))).await.map_err(|e| show(i, op, &e))?),
            Op::Silence(ms) => {
                let timeout = Duration::from_millis(*ms as u64);
                let began = tokio::time::Instant::now();
                let r = event(drive(steps, ctx.emit("silence", raw(vec![])).await_reply().with_timeout(timeout)).await);
                ensure!(matches!(r, Err(IPCError::Timeout)), "{}", show(i, op, &r));
                in_time(began, *ms, slack).map_err(|e| show(i, op, &e))?;
            }
            Op::SilentStream(n, ms) => {
                let timeout = Duration::from_millis(*ms as u64);
                let s = drive(steps, ctx.emit("hesitate", raw(vec![*n])).stream_replies().with_timeout(timeout)).await;
                let mut s = Some(s.map_err(|e| show(i, op, &e))?);
                for k in 0..*n {
                    // the replies come without a pause
                    let r = next(steps, &mut s).await.map(event);
                    ensure!(matches!(&r, Some(Ok((refcodec::RESPONSE, d))) if *d == [k]), "item {k}: {}", show(i, op, &r));
                }
                let began = tokio::time::Instant::now();
                let r = next(steps, &mut s).await.map(event);
                ensure!(matches!(r, Some(Err(IPCError::Timeout))), "{}", show(i, op, &r));
                in_time(began, *ms, slack).map_err(|e| show(i, op, &e))?;
            }
            Op::Dropped(n, calls) => {
                let p = [vec![*n], 20u32.to_be_bytes().to_vec()].concat();
                let s = drive(steps, ctx.emit("slow many", raw(p)).stream_replies().with_timeout(FOREVER)).await;
                let mut s = Some(s.map_err(|e| show(i, op, &e))?);
                for k in 0..=*n {
                    let mut got = None;
                    for d in 0..*calls {
                        let pause = 3 * (d as u64 % 3);
                        let r = tokio::time::timeout(Duration::from_millis(pause), s.as_mut().unwrap().next()).await;
                        if let Ok(r) = r {
                            got = Some(r);
                            break;
                        }
                    }
                    let r = match got {
                        Some(r) => r,
                        None => next(steps, &mut s).await,
                    };
                    let r = r.map(event);
                    let want = if k == *n { (refcodec::END, vec![]) } else { (refcodec::RESPONSE, vec![k]) };
                    ensure!(matches!(&r, Some(Ok(e)) if *e == want), "item {k}: {}", show(i, op, &r));
                }
                let r = next(steps, &mut s).await.map(event);
                ensure!(r.is_none(), "after the last: {}", show(i, op, &r));
            }
            Op::Together(n, b) => {
                let all = (0..*n).map(|k| {
                    let mut p = b.bytes();
                    p.push(k);
                    ctx.emit("echo", raw(p)).await_reply().with_timeout(FOREVER)
                });
                let all = futures::future::join_all(all.collect::<Vec<_>>());
                for (k, r) in drive(steps, all).await.into_iter().enumerate() {
                    let r = event(r);
                    let mut p = b.bytes();
                    p.push(k as u8);
                    ensure!(matches!(&r, Ok((refcodec::END, d)) if *d == p), "request {k}: {}", show(i, op, &r));
                }
            }
            Op::Pause(ms) => sleep_ms(*ms as u64).await,
            Op::Idle(ms) => sleep_ms(*ms as u64).await,
            Op::Slow(ms, b) => {
                let mut p = ms.to_be_bytes().to_vec();
                p.extend(b.bytes());
                let r = event(drive(steps, ctx.emit("slow", raw(p.clone())).await_reply().with_timeout(FOREVER)).await);
                ensure!(matches!(&r, Ok((refcodec::END, d)) if *d == p), "{}", show(i, op, &r));
            }
            Op::SlowStream(n, sent, taken) => {
                let mut p = vec![*n];
                p.extend(sent.to_be_bytes());
                let s = ctx.emit("slow many", raw(p)).stream_replies().with_timeout(FOREVER).await;
                let mut s = s.map_err(|e| show(i, op, &e))?;
                let mut k = 0;
                while let Some(e) = s.next().await {
                    let e = event(e).map_err(|e| show(i, op, &e))?;
                    let end = k == *n as usize;
                    let want = if end { (refcodec::END, vec![]) } else { (refcodec::RESPONSE, vec![k as u8]) };
                    ensure!(e == want, "item {k}: {}", show(i, op, &e));
                    k += 1;
                    sleep_ms(*taken as u64).await;
                }
                ensure!(k == *n as usize + 1, "{k} items: {}", show(i, op, &()));
            }
            Op::Echo(b) | Op::EchoIn(b) | Op::Unknown(b) => {
                let p = raw(b.bytes());
                let r = match op {
                    Op::Echo(_) => event(drive(steps, ctx.emit("echo", p).await_reply().with_timeout(FOREVER)).await),
                    Op::EchoIn(_) => event(drive(steps, ctx.emit_to("n0", "echo", p).await_reply().with_timeout(FOREVER)).await),
                    _ => event(drive(steps, ctx.emit_to("n1", "echo", p).await_reply().with_timeout(FOREVER)).await),
                };
                let want = if matches!(op, Op::Unknown(_)) { vec![] } else { b.bytes() };
                ensure!(matches!(&r, Ok((refcodec::END, d)) if *d == want), "{}", show(i, op, &r));
            }
            Op::Fail(b) => {
                let r = event(drive(steps, ctx.emit("fail", raw(b.bytes())).await_reply().with_timeout(FOREVER)).await);
                ensure!(matches!(&r, Err(IPCError::ErrorEvent(e)) if e.code == 500), "{}", show(i, op, &r));
            }
            Op::Stream(n, b) => {
                let mut p = vec![*n];
                p.extend(b.bytes());
                let s = drive(steps, ctx.emit("many", raw(p)).stream_replies().with_timeout(FOREVER)).await;
                let mut s = Some(s.map_err(|e| show(i, op, &e))?);
                let mut k = 0;
                while let Some(e) = next(steps, &mut s).await {
                    let e = event(e).map_err(|e| show(i, op, &e))?;
                    let end = k == *n as usize;
                    let want = if end { (refcodec::END, vec![]) } else { (refcodec::RESPONSE, b.bytes()) };
                    ensure!(e == want, "item {k}: {}", show(i, op, &e));
                    k += 1;
                }
                ensure!(k == *n as usize + 1, "{k} items: {}", show(i, op, &()));
            }
        }
    }
    Ok(())
}

/// A timeout of so many milliseconds has just elapsed
fn in_time(began: tokio::time::Instant, ms: u16, slack: u64) -> Result<(), String> {
    let took = began.elapsed().as_millis() as u64;
    match took {
        t if t < ms as u64 => Err(format!("the timeout of {ms} ms elapsed after {t} ms")),
        t if t > ms as u64 + slack => Err(format!("the timeout of {ms} ms elapsed only after {t} ms (allowed {slack} more)")),
        _ => Ok(()),
    }
}

fn echo() -> impl for<'a> Fn(&'a Context, Event) -> HFut<'a> + Send + Sync + 'static {
    hf(|ctx, event| Box::pin(async move { ctx.response(raw(event.data_raw().to_vec())) }))
}

fn builder<L: AsyncStreamProtocolListener>(c: &Duplex, server: bool, notes: &Notes, results: &Results) -> IPCBuilder<L> {
    let (notes, results, talks) = (notes.clone(), results.clone(), Arc::new(c.talks.clone()));
    let (steps, slack) = (c.steps.clone(), slack(c));
    let mut eh = EventHandler::new();
    eh.on("echo", echo());
    IPCBuilder::<L>::new()
        .timeout(c.timeout.map(|ms| Duration::from_millis(ms as u64)).unwrap_or(FOREVER))
        .add_namespace(Namespace::new("n0", eh))
        .on("echo", echo())
        .on("fail", |_, _| Box::pin(async move { Err("it fails".into()) }))
        .on("note", move |_, event| {
            *notes.lock().unwrap().entry((server, event.data_raw().to_vec())).or_default() += 1;
            Box::pin(async move { Ok(Response::empty()) })
        })
        .on("slow", |ctx, event| {
            Box::pin(async move {
                let d = event.data_raw();
                sleep_ms(u32::from_be_bytes(d[..4].try_into().unwrap()) as u64).await;
                ctx.response(raw(d.to_vec()))
            })
        })
        .on("slow many", |ctx, event| {
            Box::pin(async move {
                let d = event.data_raw();
                for i in 0..d[0] {
                    sleep_ms(u32::from_be_bytes(d[1..5].try_into().unwrap()) as u64).await;
                    ctx.emit("one", raw(vec![i])).await?;
                }
                Ok(Response::empty())
            })
        })
        .on("many", |ctx, event| {
            Box::pin(async move {
                let d = event.data_raw();
                for _ in 0..d[0] {
                    ctx.emit("one", raw(d[1..].to_vec())).await?;
                }
                Ok(Response::empty())
            })
        })
        .on("silence", |_, _| Box::pin(std::future::pending()))
        .on("hesitate", |ctx, event| {
            Box::pin(async move {
                for i in 0..event.data_raw()[0] {
                    ctx.emit("one", raw(vec![i])).await?;
                }
                std::future::pending().await
            })
        })
        .on("start", move |ctx, event| {
            let (results, talks, steps) = (results.clone(), talks.clone(), steps.clone());
            Box::pin(async move {
                let t = event.data_raw()[0] as usize;
                let r = talk(ctx, &talks[t].ops, &steps, slack).await;
                results.lock().unwrap().insert(t, r);
                Ok(Response::empty())
            })
        })
}

async fn run<L: AsyncStreamProtocolListener<AddressType = Net> + 'static>(
    c: Duplex,
    so: L::ListenerOptions,
    co: <L::Stream as bromine::protocol::AsyncProtocolStream>::StreamOptions,
) -> Outcome {
    let net = Net::new(vec![c.io.clone()]);
    let (notes, results) = (Notes::default(), Results::default());
    let server = builder::<L>(&c, true, &notes, &results).server_options(so).address(net.clone());
    let steps = c.steps.clone();
    let server = tokio::spawn(async move { drive(&steps, server.build_server()).await });
    while !net.is_bound() {
        settle().await;
    }
    let client = builder::<L>(&c, false, &notes, &results).client_options(co).address(net.clone());
    let mut ctxs = vec![];
    let mut guards = vec![];
    if c.pool == 0 {
        ctxs.push(drive(&c.steps, client.build_client()).await.map_err(|e| format!("connecting failed: {e:?}"))?);
    } else {
        let pool = drive(&c.steps, client.build_pooled_client(c.pool as usize)).await.map_err(|e| format!("connecting failed: {e:?}"))?;
        guards.extend((0..c.pool).map(|_| pool.acquire()));
        ctxs.extend(guards.iter().map(|g| Context::clone(g)));
    }
    let slack = slack(&c);
    let mut tasks = vec![];
    for (t, k) in c.talks.iter().enumerate() {
        let ctx = ctxs[k.conn as usize % ctxs.len()].clone();
        let (ops, server, results, steps) = (k.ops.clone(), k.server, results.clone(), c.steps.clone());
        tasks.push(tokio::spawn(async move {
            if server {
                // fails only if the connection does, which shows below
                let _ = ctx.emit("start", raw(vec![t as u8])).await;
            } else {
                let r = talk(&ctx, &ops, &steps, slack).await;
                results.lock().unwrap().insert(t, r);
            }
        }));
    }
    for t in tasks {
        t.await.map_err(|e| format!("panic: {e}"))?;
    }
    let mut want: BTreeMap<(bool, Vec<u8>), usize> = BTreeMap::new();
    for k in &c.talks {
        for op in &k.ops {
            if let Op::Note(b) = op {
                *want.entry((!k.server, b.bytes())).or_default() += 1;
            }
        }
    }
    let mut pause = 1u64;
    loop {
        let r = results.lock().unwrap().clone();
        for (t, r) in &r {
            if let Err(e) = r {
                return Err(format!("task {t}: {e}"));
            }
        }
        let n = notes.lock().unwrap().clone();
        if let Some((k, _)) = n.iter().find(|(k, v)| want.get(*k).copied().unwrap_or(0) < **v) {
            return Err(format!("a note of {} bytes arrives that was not sent, or too often", k.1.len()));
        }
        if r.len() == c.talks.len() && n == want {
            break;
        }
        // waits for ever if something is stuck
        sleep_ms(pause).await;
        pause = (pause * 2).min(1 << 30);
    }
    ensure!(!server.is_finished(), "the server has stopped");
    server.abort();
    let both = c.talks.iter().any(|t| t.server && !t.ops.is_empty()) && c.talks.iter().any(|t| !t.server && !t.ops.is_empty());
    Ok(Info::new(both)
        .label(c.io.0.cap > 0 && c.io.1.cap > 0, "back-pressure both ways")
        .label(c.encrypted, "encrypted")
        .label(c.pool > 1, "several connections"))
}

async fn duplex(c: Duplex) -> Outcome {
    if c.encrypted {
        #[cfg(feature = "encryption")]
        {
            use super::encrypted::open_options;
            return run::<bromine::protocol::encrypted::EncryptedListener<SimListener>>(c, open_options(), open_options()).await;
        }
        #[cfg(not(feature = "encryption"))]
        return Ok(Info::new(false));
    }
    run::<SimListener>(c, Default::default(), Default::default()).await
}

fn strategy(large: bool) -> BoxedStrategy<Duplex> {
    let blob = move || match large {
        false => blob(3000),
        true => prop_oneof![3 => blob(200), 3 => blob(20_000), 2 => huge_blob(10, 18)].boxed(),
    };
    let op = prop_oneof![
        2 => blob().prop_map(Op::Note),
        1 => blob().prop_map(Op::Nobody),
        3 => blob().prop_map(Op::Echo),
        1 => blob().prop_map(Op::EchoIn),
        1 => blob().prop_map(Op::Fail),
        1 => blob().prop_map(Op::Unknown),
        2 => (0u8..30, blob()).prop_map(|(n, b)| Op::Stream(n, b)),
        1 => (0u8..5).prop_map(Op::Pause),
    ];
    let talk = (any::<bool>(), 0u8..4, vec(op, 0..6)).prop_map(|(server, conn, ops)| Talk { server, conn, ops });
    let io = if large { (io_plan_coarse(), io_plan_coarse()).boxed() } else { (io_plan(), io_plan()).boxed() };
    (prop_oneof![3 => Just(0u8), 1 => 1u8..4], prop_oneof![2 => Just(false), 1 => Just(true)], vec(talk, 1..8), io)
        .prop_map(|(pool, encrypted, talks, io)| Duplex { pool, encrypted, talks, io, timeout: None, steps: vec![], real: false })
        .boxed()
}

/// Many requests of both ends at once, whose handlers ask back before they answer
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    pool: u8,
    encrypted: bool,
    /// requests of the client and of the server's handler
    client: u16,
    server: u16,
    /// how often a question is answered with another one
    depth: u8,
    size: u16,
    io: (IoPlan, IoPlan),
}

type Slot = Arc<Mutex<Option<Context>>>;

/// What a handler emits with its own context would be taken for an answer to the question, so it asks with another
fn ask(slot: &Slot) -> impl for<'a> Fn(&'a Context, Event) -> HFut<'a> + Send + Sync + 'static {
    let slot = slot.clone();
    hf(move |ctx, event| {
        let asking = slot.lock().unwrap().clone();
        Box::pin(async move {
            let mut d = event.data_raw().to_vec();
            if d[0] > 0 {
                d[0] -= 1;
                let asking = asking.ok_or("no context")?;
                let answer = asking.emit("ask", raw(d.clone())).await_reply().await?;
                if answer.data_raw() != &d[..] {
                    return Err("a foreign answer".into());
                }
                d[0] += 1;
            }
            ctx.response(raw(d))
        })
    })
}

async fn questions(ctx: &Context, who: u8, n: u16, depth: u8, size: u16) -> Result<(), String> {
    let asked = (0..n).map(|i| async move {
        let mut d = vec![depth, who];
        d.extend(i.to_be_bytes());
        d.resize(4 + size as usize, i as u8);
        match ctx.emit("ask", raw(d.clone())).await_reply().await {
            Ok(e) if e.data_raw() == &d[..] => Ok(()),
            Ok(e) => Err(format!("question {i} is answered with {:.60?}", e.data_raw())),
            Err(e) => Err(format!("question {i}: {e:?}")),
        }
    });
    futures::future::join_all(asked).await.into_iter().collect()
}

async fn run_crowd<L: AsyncStreamProtocolListener<AddressType = Net> + 'static>(
    c: Crowd,
    so: L::ListenerOptions,
    co: <L::Stream as bromine::protocol::AsyncProtocolStream>::StreamOptions,
) -> Outcome {
    let net = Net::new(vec![c.io.clone()]);
    let result: Arc<Mutex<Option<Result<(), String>>>> = Default::default();
    let (n, depth, size, of_server) = (c.server, c.depth, c.size, result.clone());
    let (client_slot, server_slot) = (Slot::default(), Slot::default());
    let slot = server_slot.clone();
    let hello = move |ctx: &Context| *slot.lock().unwrap() = Some(ctx.clone());
    let server = IPCBuilder::<L>::new().timeout(FOREVER).on("ask", ask(&server_slot)).on("hello", move |ctx, _| {
        hello(ctx);
        Box::pin(async move { Ok(Response::empty()) })
    });
    let server = server.on("start", move |ctx, _| {
        let of_server = of_server.clone();
        Box::pin(async move {
            let r = questions(ctx, 1, n, depth, size).await;
            *of_server.lock().unwrap() = Some(r);
            Ok(Response::empty())
        })
    });
    let server = tokio::spawn(server.server_options(so).address(net.clone()).build_server());
    while !net.is_bound() {
        settle().await;
    }
    let client = IPCBuilder::<L>::new().timeout(FOREVER).on("ask", ask(&client_slot)).client_options(co).address(net.clone());
    let (pool, ctx) = if c.pool == 0 {
        (None, client.build_client().await.map_err(|e| format!("connecting failed: {e:?}"))?)
    } else {
        let pool = client.build_pooled_client(c.pool as usize).await.map_err(|e| format!("connecting failed: {e:?}"))?;
        let ctx = Context::clone(&pool.acquire());
        (Some(pool), ctx)
    };
    *client_slot.lock().unwrap() = Some(ctx.clone());
    ctx.emit("hello", raw(vec![])).await_reply().await.map_err(|e| format!("{e:?}"))?;
    ctx.emit("start", raw(vec![])).await.map_err(|e| format!("{e:?}"))?;
    questions(&ctx, 0, c.client, c.depth, c.size).await.map_err(|e| format!("the client's {e}"))?;
    let mut pause = 1u64;
    loop {
        if let Some(r) = result.lock().unwrap().clone() {
            r.map_err(|e| format!("the server's {e}"))?;
            break;
        }
        sleep_ms(pause).await;
        pause = (pause * 2).min(1 << 30);
    }
    ensure!(!server.is_finished(), "the server has stopped");
    server.abort();
    // these own the handlers that own these
    client_slot.lock().unwrap().take();
    server_slot.lock().unwrap().take();
    drop(pool);
    Ok(Info::new(c.client > 1 && c.server > 1)
        .label(c.client as u32 + c.server as u32 > 1000, "over 1000 questions at once")
        .label(c.depth > 0, "handlers wait for the other end")
        .label(c.encrypted, "encrypted"))
}

async fn crowd(c: Crowd) -> Outcome {
    if c.encrypted {
        #[cfg(feature = "encryption")]
        {
            use super::encrypted::open_options;
            return run_crowd::<bromine::protocol::encrypted::EncryptedListener<SimListener>>(c, open_options(), open_options()).await;
        }
        #[cfg(not(feature = "encryption"))]
        return Ok(Info::new(false));
    }
    run_crowd::<SimListener>(c, Default::default(), Default::default()).await
}

pub fn c26(r: &mut Runner) {
    r.rule("A case is non-trivial if the client and the server both start something.");
    r.part("schedules", cases(40_000, 600_000), || strategy(false), |c: &Duplex| run_virtual(duplex(c.clone())));
    r.part("large events", cases(4_000, 60_000), || strategy(true), |c: &Duplex| run_virtual(duplex(c.clone())));
    let crowds = || {
        let n = || prop_oneof![2 => 0u16..40, 2 => 100u16..600, 1 => 1000u16..5000];
        let size = prop_oneof![3 => Just(0u16), 1 => 0u16..60];
        let io = (io_plan_coarse(), io_plan_coarse());
        (prop_oneof![3 => Just(0u8), 1 => 1u8..4], prop_oneof![2 => Just(false), 1 => Just(true)], n(), n(), 0u8..4, size, io)
            .prop_map(|(pool, encrypted, client, server, depth, size, io)| Crowd { pool, encrypted, client, server, depth, size, io })
    };
    r.part("crowds", cases(400, 6_000), crowds, |c: &Crowd| run_virtual(crowd(c.clone())));
    r.part("threads", serial(400, 6_000), || strategy(false), |c: &Duplex| {
        run_threads(6, Duration::from_secs(60), duplex(c.clone()))
    });
}

// ---------------------------------------------------------------------------------------------------------------- C28

fn long(most: u32) -> BoxedStrategy<u32> {
    let known = [1u32, 999, 1000, 1001, 5000, 10_000, 15_000, 30_000, 59_999, 60_000, 60_001, 120_000, 600_000, 3_600_000, 86_400_000, 604_800_000];
    let known: Vec<u32> = known.into_iter().filter(|ms| *ms <= most).collect();
    prop_oneof![3 => prop::sample::select(known), 1 => 0..most].boxed()
}

fn paused_plan() -> BoxedStrategy<IoPlan> {
    // mostly none, so that the long ones meet any part of an event
    let waits = || vec(prop_oneof![5 => Just(0u32), 1 => long(86_400_000)], 0..40);
    let chunks = || vec(prop_oneof![1u16..8, 1u16..300], 0..4);
    let cap = prop_oneof![2 => Just(0u32), 1 => 1u32..64, 1 => 64u32..4096];
    (chunks(), chunks(), waits(), waits(), waits(), cap)
        .prop_map(|(rd, wr, rd_wait, wr_wait, fl_wait, cap)| IoPlan { rd, wr, rd_wait, wr_wait, fl_wait, cap, ..IoPlan::default() })
        .boxed()
}

fn paused() -> BoxedStrategy<Duplex> {
    let small = || blob(300);
    let op = prop_oneof![
        3 => small().prop_map(Op::Note),
        1 => small().prop_map(Op::Nobody),
        2 => small().prop_map(Op::Echo),
        1 => small().prop_map(Op::EchoIn),
        1 => small().prop_map(Op::Fail),
        1 => small().prop_map(Op::Unknown),
        1 => (0u8..20, blob(50)).prop_map(|(n, b)| Op::Stream(n, b)),
        2 => long(604_800_000).prop_map(Op::Idle),
        2 => (long(604_800_000), blob(50)).prop_map(|(ms, b)| Op::Slow(ms, b)),
        1 => (0u8..12, long(86_400_000), long(86_400_000)).prop_map(|(n, a, b)| Op::SlowStream(n, a, b)),
    ];
    let talk = (any::<bool>(), 0u8..3, vec(op, 0..6)).prop_map(|(server, conn, ops)| Talk { server, conn, ops });
    let io = prop_oneof![
        3 => (paused_plan(), paused_plan()).boxed(),
        1 => (io_plan(), io_plan()).boxed(),
    ];
    let timeout = prop_oneof![1 => Just(0u32), 2 => 1u32..2000, 3 => long(604_800_000)];
    (prop_oneof![3 => Just(0u8), 1 => 1u8..3], any::<bool>(), vec(talk, 1..5), io, timeout)
        .prop_map(|(pool, encrypted, talks, io, timeout)| Duplex { pool, encrypted, talks, io, timeout: Some(timeout), steps: vec![], real: false })
        .boxed()
}

/// All pauses of a case, in milliseconds
fn pauses(c: &Duplex) -> u32 {
    let plans = [&c.io.0, &c.io.1];
    let waits = plans.iter().flat_map(|p| p.rd_wait.iter().chain(&p.wr_wait).chain(&p.fl_wait)).copied();
    let ops = c.talks.iter().flat_map(|t| &t.ops).map(|op| match op {
        Op::Idle(ms) | Op::Slow(ms, _) => *ms,
        Op::SlowStream(n, a, b) if *n > 0 => *a.max(b),
        _ => 0,
    });
    waits.chain(ops).max().unwrap_or(0)
}

pub fn c28(r: &mut Runner) {
    r.rule("A case is non-trivial if something is sent and something pauses for longer than the timeout of the builder.");
    r.part("pauses", cases(60_000, 900_000), paused, |c: &Duplex| {
        let longest = pauses(c);
        let info = run_virtual(duplex(c.clone()))?;
        let sent = c.talks.iter().any(|t| t.ops.iter().any(|op| !matches!(op, Op::Idle(_) | Op::Pause(_))));
        let on_the_way = [&c.io.0, &c.io.1].iter().any(|p| p.rd_wait.iter().chain(&p.wr_wait).chain(&p.fl_wait).any(|ms| *ms > 0));
        let beyond = longest > c.timeout.unwrap_or(0);
        let mut info = Info { nontrivial: sent && beyond, ..info };
        info = info.label(on_the_way, "pauses on the way").label(longest > 3_600_000, "over an hour");
        Ok(info)
    });
}

// ---------------------------------------------------------------------------------------------------------------- C31

fn driven(threads: bool) -> BoxedStrategy<Duplex> {
    let small = || blob(1500);
    let op = prop_oneof![
        2 => small().prop_map(Op::Note),
        1 => small().prop_map(Op::Nobody),
        2 => small().prop_map(Op::Echo),
        1 => small().prop_map(Op::EchoIn),
        1 => small().prop_map(Op::Fail),
        1 => small().prop_map(Op::Unknown),
        2 => (0u8..20, blob(300)).prop_map(|(n, b)| Op::Stream(n, b)),
        1 => (0u8..5).prop_map(Op::Pause),
        1 => (0u32..200, blob(50)).prop_map(|(ms, b)| Op::Slow(ms, b)),
        1 => (0u8..6, blob(300)).prop_map(|(n, b)| Op::Together(n, b)),
        1 => (0u8..6, 0u8..6).prop_map(|(n, d)| Op::Dropped(n, d)),
        2 => prop_oneof![0u16..100, 0u16..2000].prop_map(move |ms| if threads { Op::Silence(ms % 40) } else { Op::Silence(ms) }),
        2 => (0u8..6, 1u16..2000).prop_map(move |(n, ms)| if threads { Op::Pause(1) } else { Op::SilentStream(n, 500 + ms) }),
    ];
    let talk = (any::<bool>(), 0u8..3, vec(op, 0..5)).prop_map(|(server, conn, ops)| Talk { server, conn, ops });
    (prop_oneof![3 => Just(0u8), 1 => 1u8..3], any::<bool>(), vec(talk, 1..5), (io_plan(), io_plan()), vec(step(), 1..16))
        .prop_map(move |(pool, encrypted, mut talks, io, steps)| {
            if steps.iter().any(|s| matches!(s, Step::Busy(_))) {
                // who reads late keeps others from getting their replies in time
                for op in talks.iter_mut().flat_map(|t| &mut t.ops) {
                    if let Op::SilentStream(_, ms) = op {
                        *op = Op::Silence(*ms);
                    }
                }
            }
            Duplex { pool, encrypted, talks, io, timeout: None, steps, real: threads }
        })
        .boxed()
}

pub fn c31(r: &mut Runner) {
    r.rule("A case is non-trivial if something is sent and driven in another way than being polled when it is woken.");
    let check = |c: &Duplex, info: Info| {
        let sent = c.talks.iter().any(|t| t.ops.iter().any(|op| !matches!(op, Op::Pause(_))));
        let has = |f: &dyn Fn(&Step) -> bool| c.steps.iter().any(f);
        let moved = has(&|s| matches!(s, Step::Move | Step::MoveWoken));
        let early = has(&|s| matches!(s, Step::Early(_) | Step::Spurious(_)));
        Info { nontrivial: sent && c.steps.iter().any(|s| *s != Step::Plain), ..info }
            .label(moved, "moved to other tasks")
            .label(early, "polled without being woken")
            .label(has(&|s| matches!(s, Step::Busy(_))), "polled late")
    };
    r.part("virtual", cases(200_000, 3_000_000), || driven(false), move |c: &Duplex| {
        Ok(check(c, run_virtual(duplex(c.clone()))?))
    });
    #[cfg(feature = "encryption")]
    super::encrypted::c31_streams(r);
    r.part("threads", serial(400, 6_000), || driven(true), move |c: &Duplex| {
        Ok(check(c, run_threads(6, Duration::from_secs(60), duplex(c.clone()))?))
    });
}
