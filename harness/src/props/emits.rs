//! C12 (concurrent emits), C13 (abandoned emits)
use crate::ensure;
use crate::gen::*;
use crate::refcodec::{self, Frame};
use crate::runner::{cases, serial, Info, Outcome, Runner};
use crate::sim::{Fault, IoPlan, Op, Net, Pipe, SimListener};
use crate::util::*;
use bromine::prelude::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite};

const NAMES: [&str; 4] = ["a", "event-with-a-longer-name", "", "näme"];

// ------------------------------------------------------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Em {
    /// 0 emit, 1 emit to a namespace, 2 request that is not answered
    how: u8,
    name: u8,
    data: Blob,
    /// 1: the payload cannot be encoded, 2: the header is too long
    fail: u8,
    /// yields before it
    pause: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ETask {
    conn: u8,
    in_handler: bool,
    emits: Vec<Em>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Concurrent {
    role: Role,
    tasks: Vec<ETask>,
    /// the peer of connection 0 closes after it has read that many events
    close_after: Option<u8>,
    io: (IoPlan, IoPlan),
}

#[derive(Clone, Debug)]
struct Done {
    idx: usize,
    result: Result<Option<u64>, String>,
    /// what had travelled on the connection when it was done
    travelled: usize,
}

fn content(task: usize, idx: usize, data: &Blob) -> Vec<u8> {
    let mut out = vec![task as u8, idx as u8];
    out.extend(data.bytes());
    out
}

async fn run_emits(ctx: Context, task: usize, emits: Vec<Em>, pipe: Arc<Pipe>) -> Vec<Done> {
    let mut out = vec![];
    for (idx, e) in emits.iter().enumerate() {
        for _ in 0..e.pause {
            tokio::task::yield_now().await;
        }
        let long = "x".repeat(66_000);
        let name = if e.fail == 2 { &long[..] } else { NAMES[e.name as usize % 4] };
        let payload = MaybePayload(if e.fail == 1 { None } else { Some(content(task, idx, &e.data)) });
        let m = if e.how == 1 { ctx.emit_to("n0", name, payload) } else { ctx.emit(name, payload) };
        let result = if e.how == 2 {
            match m.await_reply().with_timeout(Duration::from_millis(1)).await {
                Err(IPCError::Timeout) => Ok(None),
                Ok(r) => Err(format!("answered with {}", to_frame(&r).short())),
                Err(e) => Err(format!("{e:?}")),
            }
        } else {
            m.await.map(Some).map_err(|e| format!("{e:?}"))
        };
        out.push(Done { idx, result, travelled: pipe.log_len() });
    }
    out
}

async fn concurrent(c: Concurrent, threads: bool) -> Outcome {
    let net = Net::new(vec![c.io.clone()]);
    let server = matches!(c.role, Role::Server(_));
    let results: Arc<Mutex<BTreeMap<usize, Vec<Done>>>> = Default::default();
    let (tasks, res, net2) = (Arc::new(c.tasks.clone()), results.clone(), net.clone());
    let n = c.role.connections();
    let pipe_of = move |net: &Net, conn: usize| {
        let w = net.wires(conn);
        if server {
            w.server_to_client
        } else {
            w.client_to_server
        }
    };
    let b = Builder::new().on("go", move |ctx, event| {
        let (tasks, res, pipe) = (tasks.clone(), res.clone(), pipe_of(&net2, event.data_raw()[1] as usize));
        Box::pin(async move {
            let t = event.data_raw()[0] as usize;
            let done = run_emits(ctx.clone(), t, tasks[t].emits.clone(), pipe).await;
            res.lock().unwrap().insert(t, done);
            Ok(Response::empty())
        })
    });
    let mut ep = endpoint(c.role, &net, b).await?;
    let mut handles = vec![];
    let mut in_handler = vec![];
    for (t, task) in c.tasks.iter().enumerate() {
        let conn = task.conn as usize % n;
        if ep.ctxs.is_empty() || task.in_handler {
            in_handler.push(t);
            ep.peers[conn].send(&Frame::new(7000 + t as u64, 0, None, None, "go", vec![t as u8, conn as u8])).await?;
        } else {
            let (ctx, task, res, pipe) = (ep.ctxs[conn].clone(), task.clone(), results.clone(), pipe_of(&net, conn));
            handles.push(tokio::spawn(async move {
                let done = run_emits(ctx, t, task.emits, pipe).await;
                res.lock().unwrap().insert(t, done);
            }));
        }
    }
    // the peers read all the time
    let mut readers = vec![];
    for (conn, mut peer) in ep.peers.drain(..).enumerate() {
        let close_after = c.close_after.filter(|_| conn == 0);
        readers.push(tokio::spawn(async move {
            let mut n = 0;
            loop {
                if close_after.map(|k| n >= k as usize) == Some(true) {
                    peer.listener.take().map(std::mem::forget);
                    return Ok(());
                }
                match peer.recv().await? {
                    Some(_) => n += 1,
                    None => return Ok::<_, String>(()),
                }
            }
        }));
    }
    for h in handles {
        h.await.map_err(|e| format!("an emit panicked: {e}"))?;
    }
    // handlers are done when they have noted their results and sent their ends
    let mut waited = 0;
    loop {
        let missing = in_handler.iter().any(|t| !results.lock().unwrap().contains_key(t));
        if !missing {
            break;
        }
        waited += 1;
        ensure!(waited < 10_000, "an emit in a handler never ends");
        sleep_ms(1).await;
    }
    // operations of the transport of this endpoint fail
    let faulty = !c.io.0.faults.is_empty() || !c.io.1.faults.is_empty();
    let ends = |frames: &[Frame]| frames.iter().filter(|f| f.ty == refcodec::END).count();
    let first = c.close_after.is_some() as usize;
    let expected = in_handler.iter().filter(|t| c.tasks[**t].conn as usize % n >= first).count();
    loop {
        let mut sent = 0;
        for conn in first..n {
            let (frames, _) = refcodec::decode_all(&pipe_of(&net, conn).log())?;
            sent += ends(&frames);
        }
        if sent == expected {
            break;
        }
        if faulty {
            sleep_ms(20).await;
            break;
        }
        waited += 1;
        ensure!(waited < 10_000, "the end of a handled event is never sent");
        sleep_ms(1).await;
    }
    let results = results.lock().unwrap().clone();
    let (mut succeeded, mut failed, mut cut) = (0, 0, 0);
    for conn in 0..n {
        let log = pipe_of(&net, conn).log();
        let closed = faulty || conn == 0 && c.close_after.is_some();
        let (frames, rest) = refcodec::decode_all(&log)?;
        ensure!(closed || rest == 0, "{rest} bytes of an incomplete event");
        // where each event ends on the wire
        let mut end = 0;
        let mut found: HashMap<(u8, u8), (usize, usize)> = HashMap::new();
        for (i, f) in frames.iter().enumerate() {
            end += f.encode().len();
            if f.ty == refcodec::END {
                ensure!(f.ref_id.map(|r| r >= 7000 && r < 7000 + c.tasks.len() as u64) == Some(true), "a foreign {}", f.short());
                continue;
            }
            ensure!(f.data.len() >= 2, "foreign event {}", f.short());
            let key = (f.data[0], f.data[1]);
            let (t, k) = (key.0 as usize, key.1 as usize);
            ensure!(t < c.tasks.len() && k < c.tasks[t].emits.len(), "foreign event {}", f.short());
            let (task, e) = (&c.tasks[t], &c.tasks[t].emits[k]);
            ensure!(task.conn as usize % n == conn, "an event on the wrong connection: {}", f.short());
            ensure!(e.fail == 0, "an emit that failed left {}", f.short());
            let from_handler = server || task.in_handler;
            let expected = Frame {
                id: f.id,
                ty: if from_handler { refcodec::RESPONSE } else { 0 },
                ref_id: from_handler.then_some(7000 + t as u64),
                ns: (e.how == 1).then(|| "n0".to_string()),
                name: NAMES[e.name as usize % 4].to_string(),
                data: content(t, k, &e.data),
            };
            ensure!(*f == expected, "{} instead of {}", f.short(), expected.short());
            ensure!(found.insert(key, (i, end)).is_none(), "emit {k} of task {t} arrives twice");
        }
        let mut ids: Vec<u64> = frames.iter().map(|f| f.id).collect();
        ids.sort();
        ids.dedup();
        ensure!(ids.len() == frames.len(), "events with equal ids");
        for (t, task) in c.tasks.iter().enumerate().filter(|(_, t)| t.conn as usize % n == conn) {
            let done = match results.get(&t) {
                Some(d) => d,
                None => return Err(format!("task {t} has not ended")),
            };
            let mut last = None;
            for d in done {
                let e = &task.emits[d.idx];
                let pos = found.get(&(t as u8, d.idx as u8));
                match &d.result {
                    Ok(id) => {
                        succeeded += 1;
                        ensure!(e.fail == 0, "emit {} of task {t} cannot be encoded but succeeded", d.idx);
                        let (i, end) = pos.ok_or_else(|| format!("emit {} of task {t} succeeded but was lost", d.idx))?;
                        ensure!(
                            d.travelled >= *end,
                            "emit {} of task {t} returned before it was sent: {} of {end} bytes had travelled",
                            d.idx,
                            d.travelled
                        );
                        if let Some(id) = id {
                            ensure!(*id == frames[*i].id, "the emit returned {id}, on the wire it has {}", frames[*i].id);
                        }
                    }
                    Err(m) => {
                        failed += 1;
                        if e.fail == 0 {
                            cut += 1;
                        }
                        ensure!(e.fail != 0 || closed, "emit {} of task {t} failed: {m}", d.idx);
                    }
                }
                if let Some((i, _)) = pos {
                    ensure!(last.map(|l| l < *i) != Some(false), "the events of task {t} arrive in another order");
                    last = Some(*i);
                }
            }
        }
    }
    drop(ep);
    for r in readers {
        r.abort();
    }
    Ok(Info::new(c.tasks.iter().filter(|t| !t.emits.is_empty()).count() > 1 && succeeded > 1)
        .label(failed > 0, "failing emits")
        .label(!faulty && cut > 0, "closed by the peer")
        .label(!in_handler.is_empty(), "emits in handlers")
        .label(threads, "threads")
        .label(faulty && cut > 0, "failing transport")
        .label(c.io.0.cap + c.io.1.cap > 0, "back-pressure"))
}

/// Events of very different sizes
fn mixed_blob() -> BoxedStrategy<Blob> {
    prop_oneof![3 => blob(200), 2 => blob(20_000), 3 => huge_blob(9, 18)].boxed()
}

fn concurrent_case(max_tasks: usize, large: bool) -> BoxedStrategy<Concurrent> {
    let (data, io) = match large {
        false => (blob(3000), (io_plan(), io_plan()).boxed()),
        true => (mixed_blob(), (io_plan_coarse(), io_plan_coarse()).boxed()),
    };
    let em = (0u8..3, 0u8..4, data, prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], 0u8..3)
        .prop_map(|(how, name, data, fail, pause)| Em { how, name, data, fail, pause });
    let task = (0u8..4, prop_oneof![3 => Just(false), 1 => Just(true)], vec(em, 0..6))
        .prop_map(|(conn, in_handler, emits)| ETask { conn, in_handler, emits });
    let role = prop_oneof![
        2 => (1u8..3).prop_map(Role::Server),
        3 => Just(Role::Client),
        1 => (1u8..4).prop_map(Role::Pool)
    ];
    (role, vec(task, 1..max_tasks), prop_oneof![6 => Just(None), 1 => (0u8..12).prop_map(Some)], io)
        .prop_map(|(role, tasks, close_after, io)| Concurrent { role, tasks, close_after, io })
        .boxed()
}

pub fn c12(r: &mut Runner) {
    r.rule("A case is non-trivial if at least two tasks emit and at least two emits succeed.");
    r.part("schedules", cases(200_000, 3_000_000), || concurrent_case(10, false), |c: &Concurrent| {
        run_virtual(concurrent(c.clone(), false))
    });
    r.part("large events", cases(30_000, 400_000), || concurrent_case(6, true), |c: &Concurrent| {
        run_virtual(concurrent(c.clone(), false))
    });
    r.part("many tasks", cases(1_500, 20_000), || concurrent_case(250, false), |c: &Concurrent| {
        run_virtual(concurrent(c.clone(), false))
    });
    let huge = || {
        (concurrent_case(5, true), vec(huge_blob(18, 23), 1..4)).prop_map(|(mut c, blobs)| {
            let emits = c.tasks.iter_mut().filter_map(|t| t.emits.first_mut());
            emits.zip(blobs).for_each(|(e, b)| e.data = b);
            c
        })
    };
    r.part("huge events", cases(400, 6_000), huge, |c: &Concurrent| run_virtual(concurrent(c.clone(), false)));
    let failing = || {
        let op = prop_oneof![3 => Just(Op::Write), 2 => Just(Op::Flush)];
        let at = prop_oneof![2 => 0u16..6, 1 => 0u16..40];
        (concurrent_case(6, false), vec((op, at, any::<bool>(), any::<u8>()), 1..4)).prop_map(|(mut c, faults)| {
            let end = if matches!(c.role, Role::Server(_)) { &mut c.io.1 } else { &mut c.io.0 };
            end.faults = faults.into_iter().map(|(op, at, forever, kind)| Fault { op, at, forever, kind }).collect();
            c
        })
    };
    r.part("faults", cases(60_000, 800_000), failing, |c: &Concurrent| run_virtual(concurrent(c.clone(), false)));
    r.part("threads", serial(800, 12_000), || concurrent_case(24, false), |c: &Concurrent| {
        run_threads(6, Duration::from_secs(60), concurrent(c.clone(), true))
    });
}

// ------------------------------------------------------------------------------------------------------------- C13

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Abandon {
    No,
    /// dropped after that many polls
    Polls(u8),
    /// dropped after that many milliseconds
    After(u8),
    /// its task is aborted
    Abort(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    /// 0 emit, 1 emit to a namespace, 2 request, 3 stream of replies
    how: u8,
    name: u8,
    data: Blob,
    abandon: Abandon,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Abandoned {
    server: bool,
    encrypted: bool,
    tasks: Vec<Vec<Step>>,
    /// bytes that get through per millisecond, cyclically; then all
    gate: Vec<u16>,
    io: (IoPlan, IoPlan),
}

async fn perform(ctx: &Context, task: usize, idx: usize, s: &Step) -> Result<(), String> {
    let m = {
        let p = raw(content(task, idx, &s.data));
        let name = NAMES[s.name as usize % 4];
        if s.how == 1 {
            ctx.emit_to("n0", name, p)
        } else {
            ctx.emit(name, p)
        }
    };
    match s.how {
        0 | 1 => m.await.map(|_| ()).map_err(|e| format!("{e:?}")),
        2 => match m.await_reply().with_timeout(Duration::from_millis(2)).await {
            Err(IPCError::Timeout) => Ok(()),
            r => Err(format!("{:?}", r.map(|e| to_frame(&e).short()))),
        },
        _ => m.stream_replies().await.map(|_| ()).map_err(|e| format!("{e:?}")),
    }
}

/// Whether it was carried out
async fn step(ctx: &Context, task: usize, idx: usize, s: &Step) -> Result<bool, String> {
    match s.abandon {
        Abandon::No => perform(ctx, task, idx, s).await.map(|_| true),
        Abandon::Polls(n) => {
            let mut f = Box::pin(perform(ctx, task, idx, s));
            let mut left = n;
            let r = std::future::poll_fn(|cx| {
                if left == 0 {
                    return Poll::Ready(None);
                }
                match f.as_mut().poll(cx) {
                    Poll::Ready(r) => Poll::Ready(Some(r)),
                    Poll::Pending => {
                        left -= 1;
                        if left == 0 {
                            Poll::Ready(None)
                        } else {
                            // every wake-up counts as a poll; the gate makes sure that there are some
                            cx.waker().wake_by_ref();
                            Poll::Pending
                        }
                    }
                }
            })
            .await;
            r.transpose().map(|r| r.is_some())
        }
        Abandon::After(ms) => match tokio::time::timeout(Duration::from_millis(ms as u64), perform(ctx, task, idx, s)).await {
            Ok(r) => r.map(|_| true),
            Err(_) => Ok(false),
        },
        Abandon::Abort(ms) => {
            let (ctx, s) = (ctx.clone(), s.clone());
            let mut h = tokio::spawn(async move { perform(&ctx, task, idx, &s).await });
            tokio::select! {
                r = &mut h => r.map_err(|e| format!("panic: {e}"))?.map(|_| true),
                _ = sleep_ms(ms as u64) => {
                    h.abort();
                    match h.await {
                        Ok(r) => r.map(|_| true),
                        Err(e) if e.is_cancelled() => Ok(false),
                        Err(e) => Err(format!("panic: {e}")),
                    }
                }
            }
        }
    }
}

type Steps = Arc<Mutex<BTreeMap<usize, Vec<Result<bool, String>>>>>;

async fn run_steps(ctx: Context, t: usize, steps: Vec<Step>, out: Steps) {
    out.lock().unwrap().insert(t, vec![]);
    for (i, s) in steps.iter().enumerate() {
        let r = step(&ctx, t, i, s).await;
        out.lock().unwrap().get_mut(&t).unwrap().push(r);
    }
}

fn script_builder<L: bromine::protocol::AsyncStreamProtocolListener>(c: &Abandoned, out: &Steps) -> IPCBuilder<L> {
    let (tasks, out) = (Arc::new(c.tasks.clone()), out.clone());
    IPCBuilder::<L>::new().on("go", move |ctx, event| {
        let (tasks, out) = (tasks.clone(), out.clone());
        Box::pin(async move {
            let t = event.data_raw()[0] as usize;
            let steps = tasks.get(t).cloned().unwrap_or_else(tail);
            run_steps(ctx.clone(), t, steps, out).await;
            Ok(Response::empty())
        })
    })
}

fn tail() -> Vec<Step> {
    vec![Step { how: 0, name: 0, data: Blob { n: 5, s: 3 }, abandon: Abandon::No }]
}

async fn abandoned<S: AsyncRead + AsyncWrite + Unpin>(
    c: &Abandoned,
    mut peer: RawPeer<S>,
    ctx: Option<Context>,
    pipe: Arc<Pipe>,
    out: Steps,
) -> Outcome {
    pipe.allow_more(Some(0));
    let mut tasks = vec![];
    let mut spawn = |t: usize, steps: Vec<Step>| {
        ctx.as_ref().map(|ctx| tasks.push(tokio::spawn(run_steps(ctx.clone(), t, steps, out.clone()))))
    };
    for (t, steps) in c.tasks.iter().enumerate() {
        if spawn(t, steps.clone()).is_none() {
            peer.send(&Frame::new(7000 + t as u64, 0, None, None, "go", vec![t as u8])).await?;
        }
    }
    let gate = c.gate.clone();
    let pipe2 = pipe.clone();
    let total: usize = c.tasks.iter().map(|t| t.len()).sum();
    let out2 = out.clone();
    let opener = tokio::spawn(async move {
        // long enough that most of the abandoning happens meanwhile
        for i in 0..200 {
            sleep_ms(1).await;
            if let Some(n) = gate.get(i % gate.len().max(1)) {
                pipe2.allow_more(Some(*n as usize));
            }
            let done: usize = out2.lock().unwrap().values().map(|v| v.len()).sum();
            if done == total {
                break;
            }
        }
        pipe2.allow_more(None);
    });
    let mut frames = peer.drain_any(2000).await?;
    ensure!(opener.is_finished(), "harness: the gate is not open");
    let results = out.lock().unwrap().clone();
    for (t, steps) in c.tasks.iter().enumerate() {
        let r = results.get(&t).map(|r| r.len()).unwrap_or(0);
        ensure!(r == steps.len(), "only {r} of {} steps of task {t} have ended", steps.len());
    }
    // what was carried out is there by now, without anything pushing it
    let has = |frames: &[Frame], t: usize, i: usize| frames.iter().any(|f| f.ty != refcodec::END && f.data[..2] == [t as u8, i as u8]);
    let (mut abandoned, mut complete) = (0, 0);
    for f in &frames {
        ensure!(f.ty == refcodec::END || f.data.len() >= 2, "foreign event {}", f.short());
    }
    for (t, steps) in c.tasks.iter().enumerate() {
        for i in 0..steps.len() {
            match &results[&t][i] {
                Ok(true) => {
                    ensure!(has(&frames, t, i), "step {i} of task {t} has succeeded but its event does not arrive");
                    complete += 1;
                }
                Ok(false) => abandoned += 1,
                Err(e) => return Err(format!("step {i} of task {t} failed: {e}")),
            }
        }
    }
    let partial = peer.partial();
    ensure!(partial == 0 || abandoned > 0, "{partial} bytes of an event that is not continued");
    // whatever comes later arrives, too
    let t = c.tasks.len();
    let mut spawn = |t: usize, steps: Vec<Step>| {
        ctx.as_ref().map(|ctx| tasks.push(tokio::spawn(run_steps(ctx.clone(), t, steps, out.clone()))))
    };
    if spawn(t, tail()).is_none() {
        peer.send(&Frame::new(7000 + t as u64, 0, None, None, "go", vec![t as u8])).await?;
    }
    frames.extend(peer.drain(2000).await?);
    let result = out.lock().unwrap().get(&t).cloned().unwrap_or_default();
    ensure!(result == [Ok(true)], "a later emit ended with {result:?}");
    ensure!(has(&frames, t, 0), "a later event does not arrive");
    let mut all = c.tasks.clone();
    all.push(tail());
    let mut next = vec![0usize; all.len()];
    let mut ends = 0;
    for f in &frames {
        if f.ty == refcodec::END && ctx.is_none() {
            ends += 1;
            continue;
        }
        ensure!(f.data.len() >= 2, "foreign event {}", f.short());
        let (t, i) = (f.data[0] as usize, f.data[1] as usize);
        ensure!(t < all.len() && i < all[t].len(), "foreign event {}", f.short());
        ensure!(i >= next[t], "event {i} of task {t} arrives twice or late");
        next[t] = i + 1;
        let s = &all[t][i];
        let expected = Frame {
            id: f.id,
            ty: if ctx.is_none() { refcodec::RESPONSE } else { 0 },
            ref_id: ctx.is_none().then_some(7000 + t as u64),
            ns: (s.how == 1).then(|| "n0".to_string()),
            name: NAMES[s.name as usize % 4].to_string(),
            data: content(t, i, &s.data),
        };
        ensure!(*f == expected, "{} instead of {}", f.short(), expected.short());
    }
    ensure!(ctx.is_some() || ends == all.len(), "{ends} of {} handled events were ended", all.len());
    for t in tasks {
        t.await.map_err(|e| format!("panic: {e}"))?;
    }
    Ok(Info::new(abandoned > 0)
        .label(partial > 0, "left half-way until the next emit")
        .label(complete > 0, "emits between")
        .label(c.encrypted, "encrypted")
        .label(c.server, "in handlers"))
}

fn c13_abandon(c: &Abandoned) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let out: Steps = Default::default();
        if c.encrypted {
            #[cfg(feature = "encryption")]
            {
                use bromine::protocol::encrypted::{EncryptedListener, EncryptedStream};
                use bromine::protocol::AsyncProtocolStream;
                let b = script_builder::<EncryptedListener<SimListener>>(c, &out).address(net.clone());
                let (ctx, peer) = if c.server {
                    let b = b.server_options(super::encrypted::open_options());
                    tokio::spawn(b.build_server());
                    settle().await;
                    let s = EncryptedStream::<crate::sim::SimStream>::protocol_connect(net.clone(), super::encrypted::open_options()).await;
                    (None, RawPeer::new(s.map_err(|e| format!("connecting failed: {e:?}"))?))
                } else {
                    let listener = net.listen();
                    let b = b.client_options(super::encrypted::open_options());
                    let h = tokio::spawn(b.build_client());
                    let keys = super::encrypted::open_options::<()>().keys;
                    let s = EncryptedStream::from_server_key_exchange(listener.accept().await, &keys).await;
                    let ctx = h.await.map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("{e:?}"))?;
                    let mut peer = RawPeer::new(s.map_err(|e| format!("{e:?}"))?);
                    peer.listener = Some(listener);
                    (Some(ctx), peer)
                };
                let w = net.wires(0);
                let pipe = if c.server { w.server_to_client } else { w.client_to_server };
                return abandoned(c, peer, ctx, pipe, out).await;
            }
            #[cfg(not(feature = "encryption"))]
            return Ok(Info::new(false));
        }
        let b = script_builder::<SimListener>(c, &out);
        let (ctx, peer) = if c.server {
            (None, server_and_raw(&net, b).await?)
        } else {
            let (ctx, peer) = client_and_raw(&net, b).await?;
            (Some(ctx), peer)
        };
        let w = net.wires(0);
        let pipe = if c.server { w.server_to_client } else { w.client_to_server };
        abandoned(c, peer, ctx, pipe, out).await
    })
}

pub fn c13(r: &mut Runner) {
    r.rule("A case is non-trivial if at least one emit, request or stream was dropped before it was done.");
    let strategy = |large: bool| {
        let abandon = prop_oneof![
            2 => Just(Abandon::No),
            3 => (0u8..12).prop_map(Abandon::Polls),
            3 => (0u8..12).prop_map(Abandon::After),
            1 => (0u8..12).prop_map(Abandon::Abort),
        ];
        let (data, gate, io) = match large {
            false => (
                blob(5000),
                vec(prop_oneof![0u16..20, 0u16..300, 0u16..3000], 0..6).boxed(),
                (io_plan(), io_plan()).boxed(),
            ),
            true => (
                mixed_blob(),
                vec(prop_oneof![0u16..300, 0u16..9000, any::<u16>()], 0..6).boxed(),
                (io_plan_coarse(), io_plan_coarse()).boxed(),
            ),
        };
        let step = (0u8..4, 0u8..4, data, abandon).prop_map(|(how, name, data, abandon)| Step { how, name, data, abandon });
        let tasks = prop_oneof![2 => vec(vec(step.clone(), 1..6), 1..2), 1 => vec(vec(step, 1..4), 2..4)];
        (any::<bool>(), any::<bool>(), tasks, gate, io)
            .prop_map(|(server, encrypted, tasks, gate, io)| Abandoned { server, encrypted, tasks, gate, io })
    };
    r.part("abandon", cases(150_000, 2_500_000), || strategy(false), c13_abandon);
    r.part("large events", cases(30_000, 400_000), || strategy(true), c13_abandon);
}
