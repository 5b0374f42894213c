//! C30 (contexts can be kept and used from anywhere)
use crate::ensure;
use crate::gen::*;
use crate::refcodec::{Frame, END, ERROR, INITIATOR, RESPONSE};
use crate::runner::{cases, Info, Outcome, Runner, EXPECTED_PANIC};
use crate::sim::{IoPlan, Net};
use crate::util::*;
use bromine::prelude::*;
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Ends {
    Empty,
    Payload(u8),
    Fails,
    Panics,
}

/// An event of the peer whose handler keeps its context
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ev {
    conn: u8,
    ns: bool,
    ms: u8,
    ends: Ends,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Emit(Blob),
    EmitTo(Blob),
    /// the kind of reply: 0 response, 1 end, 2 error, 3 none
    Ask(u8, Blob),
    /// to a namespace
    AskIn(u8, Blob),
    Stream(u8),
    /// the context is not used but dropped
    Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Use {
    /// the context of this event's handler, or of the client
    whose: u8,
    own: bool,
    /// cloned so many times in a row, the clones before the last one are dropped
    clones: u8,
    at: u8,
    what: What,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Over {
    Dropped,
    PeerCloses,
    /// stop is called on the context of this event's handler
    Stopped(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Kept {
    role: Role,
    events: Vec<Ev>,
    uses: Vec<Use>,
    over: Over,
    io: Vec<(IoPlan, IoPlan)>,
}

type Store = Arc<Mutex<BTreeMap<u32, Context>>>;

async fn keep(store: Store, ctx: &Context, event: Event) -> IPCResult<Response> {
    let d = event.data_raw();
    let i = u32::from_be_bytes(d[..4].try_into().unwrap());
    store.lock().unwrap().insert(i, ctx.clone());
    if d[4] > 0 {
        sleep_ms(d[4] as u64).await;
    }
    match d[5] {
        0 => Ok(Response::empty()),
        1 => Response::payload(ctx, raw(vec![d[6]; d[6] as usize])),
        2 => Err(IPCError::Message(format!("failed {i}"))),
        _ => panic!("{EXPECTED_PANIC}"),
    }
}

fn event_frame(i: usize, ev: &Ev) -> Frame {
    let mut data = (i as u32).to_be_bytes().to_vec();
    let (how, n) = match ev.ends {
        Ends::Empty => (0, 0),
        Ends::Payload(n) => (1, n),
        Ends::Fails => (2, 0),
        Ends::Panics => (3, 0),
    };
    data.extend([ev.ms, how, n]);
    Frame::new((1 << 42) + i as u64, INITIATOR, None, ev.ns.then_some("n0"), "keep", data)
}

const NO_REPLY: Duration = Duration::from_millis(80);
const LONG: Duration = Duration::from_secs(3000);

/// What the use sends: first the number of the use, then what the peer shall do
fn content(n: usize, kind: u8, blob: &[u8]) -> Vec<u8> {
    let mut out = (n as u32).to_be_bytes().to_vec();
    out.push(kind);
    out.extend(blob);
    out
}

async fn perform(ctx: Context, n: usize, u: Use) -> Result<(), String> {
    let mut ctx = ctx;
    for _ in 0..u.clones {
        ctx = ctx.clone();
    }
    let fail = |m: String| format!("use {n} of a kept context ({:?}): {m}", u.what);
    match &u.what {
        What::Drop => {}
        What::Emit(b) => ctx.emit("note", raw(content(n, 0, &b.bytes()))).await.map(|_| ()).map_err(|e| fail(format!("{e:?}")))?,
        What::EmitTo(b) => {
            ctx.emit_to("n1", "note", raw(content(n, 0, &b.bytes()))).await.map(|_| ()).map_err(|e| fail(format!("{e:?}")))?
        }
        What::Ask(kind, b) | What::AskIn(kind, b) => {
            let data = raw(content(n, *kind, &b.bytes()));
            let e = match &u.what {
                What::Ask(..) => ctx.emit("ask", data),
                _ => ctx.emit_to("n1", "ask", data),
            };
            let r = e.await_reply().with_timeout(if *kind == 3 { NO_REPLY } else { LONG }).await;
            match (kind, r) {
                (0 | 1, Ok(e)) => {
                    let want = content(n, *kind, &b.bytes());
                    if e.data_raw() != want {
                        return Err(fail(format!("another reply arrived: {}", to_frame(&e).short())));
                    }
                }
                (2, Err(IPCError::ErrorEvent(d))) if d.code == 7 && d.message == format!("error {n}") => {}
                (3, Err(IPCError::Timeout)) => {}
                (_, r) => return Err(fail(format!("the reply is {:?}", r.map(|e| to_frame(&e).short())))),
            }
        }
        What::Stream(k) => {
            let s = ctx.emit("many", raw(content(n, *k, &[]))).stream_replies().with_timeout(LONG);
            let mut s = s.await.map_err(|e| fail(format!("{e:?}")))?;
            // a stream works without the context that it was made with
            drop(ctx);
            for i in 0..=*k {
                match s.next().await {
                    Some(Ok(e)) if e.data_raw() == content(n, i, &[]) => {}
                    r => return Err(fail(format!("item {i} is {:?}", r.map(|r| r.map(|e| to_frame(&e).short()))))),
                }
            }
            if let Some(r) = s.next().await {
                return Err(fail(format!("another item: {:?}", r.map(|e| to_frame(&e).short()))));
            }
        }
    }
    Ok(())
}

type Seen = Arc<Mutex<Vec<(usize, Frame)>>>;

/// Reads everything and answers
async fn answer(mut peer: RawPeer, conn: usize, first: Vec<Frame>, seen: Seen, mut close: tokio::sync::watch::Receiver<bool>) -> Result<RawPeer, String> {
    for f in &first {
        peer.send(f).await?;
    }
    loop {
        let f = tokio::select! {
            f = peer.recv() => f?,
            _ = close.changed() => return Ok(peer),
        };
        let Some(f) = f else { return Ok(peer) };
        seen.lock().unwrap().push((conn, f.clone()));
        if f.ty == END || f.ty == ERROR || f.data.len() < 5 {
            continue;
        }
        let n = u32::from_be_bytes(f.data[..4].try_into().unwrap());
        let kind = f.data[4];
        let reply = |k: u8, ty: u8, name: &str, data: Vec<u8>| {
            Frame::new((1 << 43) + (n as u64) * 256 + k as u64, ty, Some(f.id), None, name, data)
        };
        let mut replies = vec![];
        match f.name.as_str() {
            "ask" => match kind {
                0 => replies.push(reply(0, RESPONSE, "r", f.data.clone())),
                1 => replies.push(reply(0, END, "end", f.data.clone())),
                2 => replies.push(reply(0, ERROR, "error", error_payload(7, &format!("error {n}")))),
                _ => {}
            },
            "many" => {
                for i in 0..kind {
                    replies.push(reply(i, RESPONSE, "r", content(n as usize, i, &[])));
                }
                replies.push(reply(kind, END, "end", content(n as usize, kind, &[])));
            }
            _ => {}
        }
        for r in &replies {
            peer.send(r).await?;
        }
    }
}

/// The frames that have to arrive for the events and uses
fn expected(c: &Kept) -> Vec<(usize, Frame)> {
    let conns = c.role.connections();
    let mut out = vec![];
    for (i, ev) in c.events.iter().enumerate() {
        let conn = ev.conn as usize % conns;
        let reference = Some(event_frame(i, ev).id);
        match &ev.ends {
            Ends::Empty => out.push((conn, Frame::new(0, END, reference, None, "end", vec![]))),
            Ends::Payload(n) => out.push((conn, Frame::new(0, END, reference, None, "end", vec![*n; *n as usize]))),
            Ends::Fails => out.push((conn, Frame::new(0, ERROR, reference, None, "error", vec![]))),
            Ends::Panics => {}
        }
    }
    for (n, u) in c.uses.iter().enumerate() {
        let Some((conn, reference)) = place(c, u) else { continue };
        let ty = if reference.is_some() { RESPONSE } else { INITIATOR };
        let (ns, name, data) = match &u.what {
            What::Drop => continue,
            What::Emit(b) => (None, "note", content(n, 0, &b.bytes())),
            What::EmitTo(b) => (Some("n1"), "note", content(n, 0, &b.bytes())),
            What::Ask(k, b) => (None, "ask", content(n, *k, &b.bytes())),
            What::AskIn(k, b) => (Some("n1"), "ask", content(n, *k, &b.bytes())),
            What::Stream(k) => (None, "many", content(n, *k, &[])),
        };
        out.push((conn, Frame::new(0, ty, reference, ns, name, data)));
    }
    out
}

/// The connection of a use and the event that it references; None if there is no such context
fn place(c: &Kept, u: &Use) -> Option<(usize, Option<u64>)> {
    let conns = c.role.connections();
    if u.own && !matches!(c.role, Role::Server(_)) {
        return Some((u.whose as usize % conns, None));
    }
    if c.events.is_empty() {
        return None;
    }
    let i = u.whose as usize % c.events.len();
    Some((c.events[i].conn as usize % conns, Some(event_frame(i, &c.events[i]).id)))
}

fn key(conn: usize, f: &Frame) -> (usize, u8, Option<u64>, Option<String>, String, Vec<u8>) {
    // the text of an error is up to the library
    let data = if f.ty == ERROR { vec![] } else { f.data.clone() };
    (conn, f.ty, f.ref_id, f.ns.clone(), f.name.clone(), data)
}

async fn kept(c: Kept, threads: bool) -> Outcome {
    let conns = c.role.connections();
    let net = Net::new(c.io.clone());
    let store: Store = Store::default();
    let (a, b) = (store.clone(), store.clone());
    let calls = Recorder::default();
    let rec = calls.clone();
    let mut eh = EventHandler::new();
    eh.on("keep", hf(move |ctx, e| Box::pin(keep(a.clone(), ctx, e))));
    let builder = Builder::new().add_namespace(Namespace::new("n0", eh)).on("keep", hf(move |ctx, e| Box::pin(keep(b.clone(), ctx, e))));
    let builder = builder.on("last", hf(move |_, e| {
        rec.note("last", &e);
        Box::pin(async { Ok(Response::empty()) })
    }));
    let mut ep = endpoint(c.role, &net, builder).await?;
    let seen = Seen::default();
    // what a peer could not do ends the case, because others may wait for it
    let (trouble, mut in_trouble) = tokio::sync::mpsc::unbounded_channel::<String>();
    let (close, closing) = tokio::sync::watch::channel(false);
    let mut peers = vec![];
    for (conn, peer) in std::mem::take(&mut ep.peers).into_iter().enumerate() {
        let first = c.events.iter().enumerate().filter(|(_, e)| e.conn as usize % conns == conn).map(|(i, e)| event_frame(i, e));
        let work = answer(peer, conn, first.collect(), seen.clone(), closing.clone());
        let trouble = trouble.clone();
        peers.push(tokio::spawn(async move {
            let r = work.await;
            if let Err(e) = &r {
                let _ = trouble.send(format!("connection {conn}: {e}"));
            }
            r
        }));
    }
    drop(closing);
    // the uses
    let mut tasks = vec![];
    for (n, u) in c.uses.iter().enumerate() {
        if place(&c, u).is_none() {
            continue;
        }
        let own = (u.own && !ep.ctxs.is_empty()).then(|| ep.ctxs[u.whose as usize % conns].clone());
        let (store, u, events) = (store.clone(), u.clone(), c.events.len());
        let work = async move {
            let ctx = match own {
                Some(ctx) => ctx,
                None => {
                    let i = u.whose as u32 % events as u32;
                    let mut waited = 0;
                    loop {
                        if let Some(ctx) = store.lock().unwrap().get(&i) {
                            break ctx.clone();
                        }
                        sleep_ms(1).await;
                        waited += 1;
                        if waited > 1_000_000 {
                            return Err(format!("event {i} is not handled"));
                        }
                    }
                }
            };
            sleep_ms(u.at as u64).await;
            perform(ctx, n, u).await
        };
        if threads {
            // a thread with a runtime of its own
            let (tx, rx) = tokio::sync::oneshot::channel();
            std::thread::spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
                let _ = tx.send(rt.block_on(work));
            });
            tasks.push(tokio::spawn(async move { rx.await.map_err(|_| "a thread panicked".to_string())? }));
        } else {
            tasks.push(tokio::spawn(work));
        }
    }
    for t in tasks {
        tokio::select! {
            r = t => r.map_err(|e| format!("panic: {e}"))??,
            Some(e) = in_trouble.recv() => return Err(e),
        }
    }
    // everything has to arrive while the contexts are still kept
    let want = expected(&c);
    let mut waited = 0;
    while seen.lock().unwrap().len() < want.len() && (threads || waited < 10_000) {
        sleep_ms(1).await;
        if let Ok(e) = in_trouble.try_recv() {
            return Err(e);
        }
        waited += 1;
    }
    sleep_ms(if threads { 5 } else { 500 }).await;
    let mut counts = BTreeMap::new();
    for (conn, f) in &want {
        *counts.entry(key(*conn, f)).or_insert(0i32) -= 1;
    }
    for (conn, f) in seen.lock().unwrap().iter() {
        *counts.entry(key(*conn, f)).or_insert(0) += 1;
    }
    for (k, n) in counts {
        let f = Frame { id: 0, ty: k.1, ref_id: k.2, ns: k.3, name: k.4, data: k.5 };
        ensure!(n <= 0, "connection {}: something arrives that was not emitted that way: {}", k.0, f.short());
        ensure!(n == 0, "connection {}: an event is missing: {}", k.0, f.short());
    }
    let all_kept: Vec<(u32, Context)> = store.lock().unwrap().iter().map(|(i, c)| (*i, c.clone())).collect();
    let handler_uses = c.uses.iter().filter(|u| matches!(place(&c, u), Some((_, Some(_)))) && !matches!(u.what, What::Drop)).count();
    let mut info = Info::new(handler_uses > 0)
        .label(handler_uses > 1, "several uses of contexts of handlers")
        .label(c.uses.iter().any(|u| u.own), "contexts of clients")
        .label(c.events.iter().any(|e| e.ends == Ends::Panics), "a handler panicked");
    match &c.over {
        Over::Dropped => {
            drop(all_kept);
            store.lock().unwrap().clear();
        }
        Over::PeerCloses => {
            let _ = close.send(true);
            for p in peers.drain(..) {
                drop(p.await.map_err(|e| format!("panic: {e}"))??);
            }
            // operations end, whatever their result is
            let all: Vec<Context> = all_kept.into_iter().map(|(_, c)| c).chain(std::mem::take(&mut ep.ctxs)).collect();
            for ctx in all {
                let done = async {
                    let _ = ctx.emit("gone", raw(vec![0; 40])).await;
                    ctx.emit("gone", raw(vec![0; 40])).await_reply().with_timeout(Duration::from_millis(50)).await
                };
                if let Ok(e) = done.await {
                    return Err(format!("a request on a closed connection has a reply: {}", to_frame(&e).short()));
                }
            }
            store.lock().unwrap().clear();
            ep.guards.clear();
            ep.pool = None;
            let mut waited = 0;
            for i in 0..conns {
                let w = net.wires(i);
                let server = matches!(c.role, Role::Server(_));
                let released = || match server {
                    true => w.client_to_server.read_closed() && w.server_to_client.write_closed(),
                    false => w.server_to_client.read_closed() && w.client_to_server.write_closed(),
                };
                while !released() {
                    ensure!(threads || waited < 1000, "connection {i} is not released although no context is left");
                    sleep_ms(1).await;
                    waited += 1;
                }
            }
            info.add_label(true, "closed by the peer");
        }
        Over::Stopped(i) if !all_kept.is_empty() => {
            let (i, ctx) = all_kept[*i as usize % all_kept.len()].clone();
            let stopped = c.events[i as usize].conn as usize % conns;
            err_text(ctx.stop().await).map_err(|e| format!("stopping failed: {e}"))?;
            let client = !matches!(c.role, Role::Server(_));
            let mut waited = 0;
            while client && !net.wires(stopped).server_to_client.read_closed() {
                ensure!(threads || waited < 1000, "stopping a client with the context of a handler does not stop it");
                sleep_ms(1).await;
                waited += 1;
            }
            // a server does not stop, and neither do the other connections
            let _ = close.send(true);
            let mut alive = vec![];
            for (conn, p) in peers.drain(..).enumerate() {
                let mut peer = p.await.map_err(|e| format!("panic: {e}"))??;
                if !client || conn != stopped {
                    peer.send(&Frame::new(9 + conn as u64, INITIATOR, None, None, "last", vec![])).await?;
                    alive.push(peer);
                }
            }
            let mut waited = 0;
            while calls.len() < alive.len() {
                ensure!(threads || waited < 1000, "a connection that was not stopped handles no events any more");
                sleep_ms(1).await;
                waited += 1;
            }
            info.add_label(client, "stopped with the context of a handler");
        }
        Over::Stopped(_) => {}
    }
    for p in peers {
        p.abort();
    }
    if let Some(s) = ep.server {
        ensure!(!s.is_finished(), "the server has stopped");
        s.abort();
    }
    Ok(info)
}

pub fn c30(r: &mut Runner) {
    r.rule("A case is non-trivial if the context of a handler is used outside of it.");
    let strategy = |coarse: bool, many: usize| {
        let ends = prop_oneof![3 => Just(Ends::Empty), 2 => any::<u8>().prop_map(Ends::Payload), 2 => Just(Ends::Fails), 1 => Just(Ends::Panics)];
        let ev = (any::<u8>(), any::<bool>(), prop_oneof![Just(0u8), 0u8..60], ends).prop_map(|(conn, ns, ms, ends)| Ev { conn, ns, ms, ends });
        let what = prop_oneof![
            3 => blob(400).prop_map(What::Emit),
            2 => blob(400).prop_map(What::EmitTo),
            3 => (0u8..4, blob(200)).prop_map(|(k, b)| What::Ask(k, b)),
            1 => (0u8..4, blob(200)).prop_map(|(k, b)| What::AskIn(k, b)),
            2 => prop_oneof![0u8..6, 0u8..40].prop_map(What::Stream),
            1 => Just(What::Drop),
        ];
        let us = (any::<u8>(), prop::bool::weighted(0.2), prop_oneof![3 => Just(0u8), 1 => 0u8..20], prop_oneof![Just(0u8), 0u8..100], what)
            .prop_map(|(whose, own, clones, at, what)| Use { whose, own, clones, at, what });
        let over = prop_oneof![2 => Just(Over::Dropped), 2 => Just(Over::PeerCloses), 1 => any::<u8>().prop_map(Over::Stopped)];
        let plan = if coarse { io_plan_coarse } else { io_plan };
        (role(), vec(ev, 0..6.min(many)), vec(us, 0..many), over, vec((plan(), plan()), 1..3))
            .prop_map(|(role, events, uses, over, io)| Kept { role, events, uses, over, io })
    };
    r.part("virtual", cases(250_000, 4_000_000), move || strategy(false, 10), |c: &Kept| run_virtual(kept(c.clone(), false)));
    r.part("many", cases(8_000, 150_000), move || strategy(true, 120), |c: &Kept| run_virtual(kept(c.clone(), false)));
    r.part("threads", cases(800, 10_000), move || strategy(true, 16), |c: &Kept| {
        run_threads(3, Duration::from_secs(60), kept(c.clone(), true))
    });
}
