//! C14 (isolation of failures), C15 (shared data), C16 (pools), C17 (stopping)
use crate::ensure;
use crate::gen::*;
use crate::refcodec::{self, Frame, Verdict};
use crate::runner::{cases, serial, Info, Outcome, Runner};
use crate::sim::{Op, IoPlan, Net};
use crate::util::*;
use bromine::prelude::*;
use bromine::trait_bound_typemap::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ------------------------------------------------------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Act {
    /// an event whose handler returns its payload (after a while)
    Echo(Blob, u16),
    /// an event whose handler asks the peer back before it answers
    AskBack(Blob),
    Panic(u8),
    Hang,
    Fail,
    Unknown,
    Garbage(u8, Blob),
    /// so many permille of an event, then nothing more and the end of the connection
    Cut(u16),
    Close,
    /// the peer does not read any more
    Deaf,
    /// the transport of the endpoint fails from now on: 0 reading, 1 writing, 2 flushing
    Fault(u8),
    /// a connection of another peer is gone before it is accepted, or there are no resources for it (servers only)
    Refused(u8),
    Sleep(u16),
}

/// Errors of accept: those of the connection itself and those of used up resources
const ACCEPT_ERRORS: [i32; 8] = [103, 104, 71, 100, 4, 24, 23, 105];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chaos {
    role: Role,
    /// (connection, what its peer does)
    acts: Vec<(u8, Act)>,
    /// after which steps another peer connects (servers only)
    joins: Vec<u8>,
    io: (IoPlan, IoPlan),
}

/// Bytes that no event can start with
pub fn garbage(kind: u8, b: &Blob) -> Vec<u8> {
    let name = "echo";
    let good = Frame::new(1, 0, None, None, name, b.bytes());
    let h = |v: [u8; 3], ty: u8, flag: Option<u8>, ns: &[u8], nsl: Option<u16>, n: &[u8], nl: Option<u16>| {
        refcodec::header_raw(v, 1, ty, None, flag, ns, nsl, n, nl)
    };
    let n = name.as_bytes();
    match kind % 9 {
        // other major version
        0 => refcodec::frame_raw(&h([7, 0, 0], 0, None, &[], None, n, None), &b.bytes(), None, None),
        // unknown type
        1 => refcodec::frame_raw(&h([0, 9, 0], 200, None, &[], None, n, None), &b.bytes(), None, None),
        // no text
        2 => refcodec::frame_raw(&h([0, 9, 0], 0, None, &[], None, &[0xff, 0xfe], None), &b.bytes(), None, None),
        3 => refcodec::frame_raw(&h([0, 9, 0], 0, None, &[0xc3], None, n, None), &b.bytes(), None, None),
        // lengths that do not fit
        4 => refcodec::frame_raw(&good.header(), &b.bytes(), Some(3), None),
        5 => refcodec::frame_raw(&h([0, 9, 0], 0, None, &[], None, n, Some(5000)), &b.bytes(), None, None),
        6 => refcodec::frame_raw(&h([0, 9, 0], 0, None, &[], Some(400), n, None), &b.bytes(), None, None),
        7 => refcodec::frame_raw(&good.header(), &[], None, Some(0)),
        // something else altogether
        _ => vec![b'A'; 17_000],
    }
}

struct Live {
    tx: Option<tokio::sync::mpsc::UnboundedSender<PeerCmd>>,
    frames: Arc<Mutex<Vec<Frame>>>,
    error: Arc<Mutex<Option<String>>>,
}

enum PeerCmd {
    Bytes(Vec<u8>),
    /// nothing is written behind it
    Last(Vec<u8>),
    Deaf,
    Close,
}

/// A peer of its own: writes what it is told, reads all the time (unless it is deaf) and answers "back"
fn live(peer: RawPeer) -> Live {
    use tokio::io::AsyncWriteExt;
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let frames: Arc<Mutex<Vec<Frame>>> = Default::default();
    let error: Arc<Mutex<Option<String>>> = Default::default();
    let (frames2, error2) = (frames.clone(), error.clone());
    let RawPeer { stream, listener, .. } = peer;
    // the address stays bound
    std::mem::forget(listener);
    let crate::sim::SimStream { read, mut write } = stream;
    let mut reader = RawPeer::new(read);
    let (deaf, mut is_deaf) = tokio::sync::oneshot::channel::<()>();
    let back = tx.clone();
    let reading = tokio::spawn(async move {
        loop {
            let f = tokio::select! {
                biased;
                _ = &mut is_deaf => {
                    // still holds the connection
                    std::future::pending::<()>().await;
                    return;
                }
                f = reader.recv() => f,
            };
            match f {
                Ok(Some(f)) => {
                    if f.name == "back" {
                        let reply = Frame::new(1 << 50, 1, Some(f.id), None, "back", f.data.clone());
                        let _ = back.send(PeerCmd::Bytes(reply.encode()));
                    }
                    frames2.lock().unwrap().push(f);
                }
                Ok(None) => return,
                Err(e) => {
                    *error2.lock().unwrap() = Some(e);
                    return;
                }
            }
        }
    });
    let (btx, mut brx) = tokio::sync::mpsc::unbounded_channel::<Vec<u8>>();
    let writing = tokio::spawn(async move {
        while let Some(b) = brx.recv().await {
            if write.write_all(&b).await.is_err() || write.flush().await.is_err() {
                break;
            }
        }
        std::future::pending::<()>().await;
    });
    tokio::spawn(async move {
        let mut deaf = Some(deaf);
        let mut last = false;
        while let Some(cmd) = rx.recv().await {
            match cmd {
                PeerCmd::Bytes(_) if last => {}
                PeerCmd::Bytes(b) => {
                    let _ = btx.send(b);
                }
                PeerCmd::Last(b) => {
                    last = true;
                    let _ = btx.send(b);
                }
                PeerCmd::Deaf => {
                    deaf.take().map(|d| d.send(()));
                }
                PeerCmd::Close => break,
            }
        }
        // the reader drops what it holds only after the writer, so that nothing is half-closed
        writing.abort();
        reading.abort();
    });
    Live { tx: Some(tx), frames, error }
}

fn c14_chaos(c: &Chaos) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let handled: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
        let handled2 = handled.clone();
        let note = move |e: &Event| handled2.lock().unwrap().push(e.data_raw()[..4].to_vec());
        let (n1, n2, n3, n4, n5) = (note.clone(), note.clone(), note.clone(), note.clone(), note.clone());
        let b = Builder::new()
            .on("echo", move |ctx, event| {
                n1(&event);
                Box::pin(async move {
                    // others read the data while handlers that never finish do so, too
                    drop(ctx.data.read().await);
                    let d = event.data_raw();
                    let ms = u16::from_be_bytes([d[2], d[3]]);
                    if ms > 0 {
                        sleep_ms(ms as u64).await;
                    }
                    ctx.response(raw(d.to_vec()))
                })
            })
            .on("ask", move |ctx, event| {
                n2(&event);
                Box::pin(async move {
                    let r = ctx.emit("back", raw(event.data_raw().to_vec())).await_reply().await?;
                    ctx.response(raw(r.data_raw().to_vec()))
                })
            })
            .on("panic", move |_, event| {
                n3(&event);
                if event.data_raw()[2] == 1 {
                    panic!("{} before the future", crate::runner::EXPECTED_PANIC);
                }
                Box::pin(async move {
                    if event.data_raw()[2] == 2 {
                        sleep_ms(5).await;
                    }
                    panic!("{} in the future", crate::runner::EXPECTED_PANIC);
                })
            })
            .on("hang", move |ctx, event| {
                n4(&event);
                Box::pin(async move {
                    let _reading = ctx.data.read().await;
                    std::future::pending::<()>().await;
                    Ok(Response::empty())
                })
            })
            .on("fail", move |_, event| {
                n5(&event);
                Box::pin(async move { Err("it fails".into()) })
            });
        let mut ep = endpoint(c.role, &net, b).await?;
        let server = matches!(c.role, Role::Server(_));
        let mut conns: Vec<Live> = ep.peers.drain(..).map(live).collect();
        // per connection: what is to be answered: index -> (type, data); whether its input still counts
        let mut expected: Vec<BTreeMap<u64, (u8, Vec<u8>)>> = vec![Default::default(); conns.len()];
        let mut events: Vec<BTreeSet<Vec<u8>>> = vec![Default::default(); conns.len()];
        let mut open: Vec<bool> = vec![true; conns.len()];
        let mut answered: Vec<bool> = vec![true; conns.len()];
        let mut faulty: Vec<bool> = vec![false; conns.len()];
        let (mut bad, mut later) = (0, 0);
        let mut joined = 0;
        let mut asks: BTreeSet<u64> = BTreeSet::new();
        let mut next = 100u64;
        // in the end every connection that is left proves that it works
        let mut acts: Vec<(usize, Act)> = vec![];
        for (i, (conn, a)) in c.acts.iter().enumerate() {
            acts.push((*conn as usize, a.clone()));
            if server && c.joins.contains(&(i as u8)) {
                acts.push((usize::MAX, Act::Sleep(0)));
            }
        }
        if server {
            acts.push((usize::MAX, Act::Sleep(0)));
        }
        let total = acts.len();
        let mut steps = acts.into_iter().enumerate().map(|(i, a)| (i, a)).collect::<std::collections::VecDeque<_>>();
        let mut finale = false;
        loop {
            let Some((_, (conn, act))) = steps.pop_front() else {
                if finale {
                    break;
                }
                finale = true;
                for conn in 0..conns.len() {
                    steps.push_back((total, (conn, Act::Echo(Blob { n: 20, s: 1 }, 0))));
                }
                continue;
            };
            if conn == usize::MAX {
                conns.push(live(RawPeer::connect(&net)?));
                expected.push(Default::default());
                events.push(Default::default());
                open.push(true);
                answered.push(true);
                faulty.push(false);
                joined += 1;
                continue;
            }
            let conn = if finale { conn } else { conn % conns.len() };
            let ask_id = next + 1;
            let mut send = |name: &str, mut data: Vec<u8>, expect: Option<(u8, Option<Vec<u8>>)>| -> Vec<u8> {
                next += 1;
                data[0] = (next >> 8) as u8;
                data[1] = next as u8;
                if open[conn] {
                    events[conn].insert(data[..4].to_vec());
                    if let Some((ty, d)) = expect {
                        let d = d.map(|mut d| {
                            d[..2].copy_from_slice(&data[..2]);
                            d
                        });
                        expected[conn].insert(next, (ty, d.unwrap_or_default()));
                    }
                }
                Frame::new(next, 0, None, None, name, data).encode()
            };
            let head = |ms: u16| vec![0, 0, (ms >> 8) as u8, ms as u8];
            if bad > 0 && matches!(act, Act::Echo(..) | Act::AskBack(..)) && open[conn] {
                later += 1;
            }
            let bytes = match &act {
                Act::Echo(b, ms) => {
                    let mut d = head(*ms);
                    d.extend(b.bytes());
                    send("echo", d.clone(), Some((refcodec::END, Some(d))))
                }
                Act::AskBack(b) => {
                    let mut d = head(0);
                    d.extend(b.bytes());
                    asks.insert(ask_id);
                    send("ask", d.clone(), Some((refcodec::END, Some(d))))
                }
                Act::Panic(k) => {
                    bad += 1;
                    send("panic", vec![0, 0, k % 3, 0], None)
                }
                Act::Hang => {
                    bad += 1;
                    send("hang", head(0), None)
                }
                Act::Fail => send("fail", head(0), Some((refcodec::ERROR, None))),
                Act::Unknown => {
                    next += 1;
                    if open[conn] {
                        expected[conn].insert(next, (refcodec::END, vec![]));
                    }
                    Frame::new(next, 0, None, Some("nowhere"), "echo", vec![0; 8]).encode()
                }
                Act::Garbage(kind, b) => {
                    bad += 1;
                    let g = garbage(*kind, b);
                    open[conn] = false;
                    g
                }
                Act::Cut(permille) => {
                    bad += 1;
                    let f = Frame::new(5, 0, None, None, "echo", vec![9; 300]).encode();
                    let k = 1 + (f.len() - 2) * (*permille as usize % 1000) / 1000;
                    open[conn] = false;
                    f[..k].to_vec()
                }
                Act::Close | Act::Deaf => vec![],
                Act::Fault(k) => {
                    bad += 1;
                    let w = net.wires(conn);
                    let (input, output) = match server {
                        true => (w.client_to_server, w.server_to_client),
                        false => (w.server_to_client, w.client_to_server),
                    };
                    match k % 3 {
                        0 => {
                            open[conn] = false;
                            input.fail(Op::Read);
                        }
                        1 => output.fail(Op::Write),
                        _ => output.fail(Op::Flush),
                    }
                    answered[conn] = false;
                    faulty[conn] = true;
                    vec![]
                }
                Act::Refused(kind) => {
                    if server {
                        bad += 1;
                        net.fail_accept(ACCEPT_ERRORS[*kind as usize % 8]);
                        settle().await;
                    }
                    vec![]
                }
                Act::Sleep(ms) => {
                    sleep_ms(*ms as u64).await;
                    vec![]
                }
            };
            if let Some(tx) = &conns[conn].tx {
                if !bytes.is_empty() {
                    let _ = tx.send(if matches!(act, Act::Cut(_)) { PeerCmd::Last(bytes) } else { PeerCmd::Bytes(bytes) });
                }
                match act {
                    Act::Deaf => {
                        bad += 1;
                        answered[conn] = false;
                        let _ = tx.send(PeerCmd::Deaf);
                    }
                    Act::Close | Act::Cut(_) => {
                        bad += 1;
                        open[conn] = false;
                        // what was answered until now counts, the rest does not
                        answered[conn] = false;
                        settle().await;
                        let _ = tx.send(PeerCmd::Close);
                        conns[conn].tx = None;
                    }
                    _ => {}
                }
            }
        }
        sleep_ms(500_000).await;
        for (i, l) in conns.iter().enumerate() {
            if let Some(e) = l.error.lock().unwrap().clone() {
                // the last event may be incomplete when writing has failed
                ensure!(faulty[i], "connection {i}: {e}");
            }
            let mut seen = BTreeSet::new();
            for f in l.frames.lock().unwrap().iter() {
                if f.name == "back" && f.ty == 1 {
                    continue;
                }
                let r = f.ref_id.ok_or_else(|| format!("connection {i} gets {}", f.short()))?;
                // a question whose flush has failed has no waiter, the answer to it is an event without handler
                if faulty[i] && r == 1 << 50 && f.ty == refcodec::END {
                    continue;
                }
                let (ty, data) = expected[i].get(&r).ok_or_else(|| format!("connection {i} gets a foreign answer {}", f.short()))?;
                // the answer that a handler waits for cannot arrive behind something that is not an event
                if (!open[i] || faulty[i]) && asks.contains(&r) && f.ty == refcodec::ERROR {
                    seen.insert(r);
                    continue;
                }
                ensure!(f.ty == *ty, "connection {i} gets {} for event {r} instead of type {ty}", f.short());
                ensure!(*ty == refcodec::ERROR || f.data == *data, "connection {i} gets another answer to event {r}");
                ensure!(seen.insert(r), "event {r} of connection {i} is answered twice");
            }
            if answered[i] {
                let missing: Vec<_> = expected[i].keys().filter(|k| !seen.contains(k)).collect();
                ensure!(missing.is_empty(), "events {missing:?} of connection {i} are not answered");
            }
        }
        let allowed: HashMap<Vec<u8>, usize> =
            events.iter().flatten().fold(HashMap::new(), |mut m, e| {
                *m.entry(e.clone()).or_default() += 1;
                m
            });
        let mut count: HashMap<Vec<u8>, usize> = HashMap::new();
        for h in handled.lock().unwrap().iter() {
            let n = count.entry(h.clone()).or_default();
            *n += 1;
            ensure!(
                *n <= allowed.get(h).copied().unwrap_or(0),
                "an event was handled although it came behind something that is not an event, or twice"
            );
        }
        if let Some(h) = &ep.server {
            ensure!(!h.is_finished(), "the server has stopped");
        }
        let intact = (0..conns.len()).filter(|i| open[*i] && answered[*i]).count();
        drop(conns);
        Ok(Info::new(bad > 0 && intact > 0 && later > 0)
            .label(c.acts.iter().any(|a| matches!(a.1, Act::Panic(_))), "panics")
            .label(c.acts.iter().any(|a| matches!(a.1, Act::Hang)), "hanging handlers")
            .label(c.acts.iter().any(|a| matches!(a.1, Act::Garbage(..))), "garbage")
            .label(c.acts.iter().any(|a| matches!(a.1, Act::Cut(..) | Act::Close)), "closed connections")
            .label(c.acts.iter().any(|a| matches!(a.1, Act::Deaf)), "peers that do not read")
            .label(server && c.acts.iter().any(|a| matches!(a.1, Act::Refused(_))), "failing accepts")
            .label(faulty.contains(&true), "failing transport")
            .label(joined > 1, "later connections")
            .label(!server, "clients"))
    })
}

fn chaos() -> BoxedStrategy<Chaos> {
    let act = prop_oneof![
        8 => (blob(300), prop_oneof![3 => Just(0u16), 1 => 0u16..300]).prop_map(|(b, ms)| Act::Echo(b, ms)),
        3 => blob(100).prop_map(Act::AskBack),
        2 => (0u8..3).prop_map(Act::Panic),
        1 => Just(Act::Hang),
        1 => Just(Act::Fail),
        1 => Just(Act::Unknown),
        2 => (0u8..9, blob(60)).prop_map(|(k, b)| Act::Garbage(k, b)),
        1 => (0u16..1000).prop_map(Act::Cut),
        1 => Just(Act::Close),
        1 => Just(Act::Deaf),
        1 => (0u8..8).prop_map(Act::Refused),
        1 => (0u8..3).prop_map(Act::Fault),
        2 => (0u16..20).prop_map(Act::Sleep),
    ];
    let role = prop_oneof![4 => (1u8..5).prop_map(Role::Server), 1 => Just(Role::Client), 2 => (1u8..4).prop_map(Role::Pool)];
    (role, vec((0u8..6, act), 1..25), vec(0u8..25, 0..3), (io_plan(), io_plan()))
        .prop_map(|(role, acts, joins, io)| Chaos { role, acts, joins, io })
        .boxed()
}

/// Many things of a kind go wrong, then everything that is intact is used
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flood {
    role: Role,
    /// 0 hanging handlers, 1 panicking handlers, 2 handlers whose requests are not answered; for servers also
    /// 3 silent connections, 4 connections that end within an event, 5 garbage, 6 peers that do not read,
    /// 7 connections with handlers that hang, 8 connections that are opened and closed,
    /// 9 failing accepts
    kind: u8,
    n: u32,
    /// all on the first connection
    one: bool,
    after: Vec<Blob>,
    io: (IoPlan, IoPlan),
}

fn c14_flood(c: &Flood) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let b = Builder::new()
            .timeout(FOREVER)
            .on("echo", |ctx, event| {
                Box::pin(async move {
                    drop(ctx.data.read().await);
                    ctx.response(raw(event.data_raw().to_vec()))
                })
            })
            .on("hang", |ctx, _| {
                Box::pin(async move {
                    let _reading = ctx.data.read().await;
                    std::future::pending().await
                })
            })
            .on("panic", |_, _| Box::pin(async { panic!("{}", crate::runner::EXPECTED_PANIC) }))
            .on("ask", |ctx, _| {
                Box::pin(async move {
                    ctx.emit("back", raw(vec![])).await_reply().await?;
                    Ok(Response::empty())
                })
            });
        let mut ep = endpoint(c.role, &net, b).await?;
        let server = matches!(c.role, Role::Server(_));
        let kind = if server { c.kind % 10 } else { c.kind % 3 };
        let mut others = vec![];
        let mut id = 1000u64;
        for i in 0..c.n {
            id += 1;
            if kind < 3 {
                let conn = if c.one { 0 } else { i as usize % ep.peers.len() };
                let name = ["hang", "panic", "ask"][kind as usize];
                ep.peers[conn].send(&Frame::new(id, 0, None, None, name, vec![])).await?;
                continue;
            }
            if kind == 9 {
                net.fail_accept(ACCEPT_ERRORS[i as usize % 8]);
                continue;
            }
            let mut peer = RawPeer::connect(&net)?;
            let f = Frame::new(id, 0, None, None, if kind == 7 { "hang" } else { "echo" }, vec![1; 40]).encode();
            match kind {
                3 => {}
                4 => peer.send_bytes(&f[..1 + i as usize % (f.len() - 1)]).await?,
                // the endpoint may be gone before everything is written
                5 => drop(peer.send_bytes(&garbage(i as u8, &Blob { n: 30, s: 3 })).await),
                6 => {
                    for _ in 0..4 {
                        // so that the answers do not fit
                        let _ = tokio::time::timeout(Duration::from_millis(1), peer.send_bytes(&f)).await;
                    }
                }
                7 => peer.send_bytes(&f).await?,
                _ => {}
            }
            if kind != 8 && (kind != 4 || i % 2 == 0) {
                others.push(peer);
            }
        }
        settle().await;
        if server {
            ep.peers.push(RawPeer::connect(&net)?);
        }
        for (i, peer) in ep.peers.iter_mut().enumerate() {
            peer.drain(1000).await?;
            for b in &c.after {
                id += 1;
                let data = b.bytes();
                peer.send(&Frame::new(id, 0, None, None, "echo", data.clone())).await?;
                // a server may pause after a failed accept
                let limit = 10_000 + if kind == 9 { c.n as u64 * 1000 } else { 0 };
                let f = tokio::time::timeout(Duration::from_millis(limit), peer.expect())
                    .await
                    .map_err(|_| format!("an event of the intact connection {i} is not answered"))??;
                ensure!(
                    f.ty == refcodec::END && f.ref_id == Some(id) && f.data == data,
                    "connection {i} gets {} as answer to event {id}",
                    f.short()
                );
            }
        }
        if let Some(h) = &ep.server {
            ensure!(!h.is_finished(), "the server has stopped");
        }
        Ok(Info::new(c.n > 20 && !c.after.is_empty())
            .label(kind < 3, "stuck handlers")
            .label(kind >= 3, "bad connections")
            .label(c.n > 300, "more than 300")
            .label(c.n > 1100, "more than 1100"))
    })
}

fn flood() -> BoxedStrategy<Flood> {
    let role = prop_oneof![4 => (1u8..4).prop_map(Role::Server), 1 => Just(Role::Client), 1 => (1u8..4).prop_map(Role::Pool)];
    let n = prop_oneof![3 => 1u32..150, 2 => 100u32..1100, 1 => 1000u32..5000];
    (role, prop_oneof![3 => 0u8..3, 3 => 3u8..10], n, any::<bool>(), vec(blob(200), 1..4), (io_plan_coarse(), io_plan_coarse()))
        .prop_map(|(role, kind, n, one, after, io)| Flood { role, kind, n, one, after, io })
        .boxed()
}

pub fn c14(r: &mut Runner) {
    r.rule("A case is non-trivial if something goes wrong on a connection or in a handler and an intact connection is used afterwards.");
    for k in 0..9 {
        for n in [0u32, 5, 60] {
            let g = garbage(k, &Blob { n, s: 3 });
            assert!(matches!(refcodec::decode(&g), Verdict::Corrupt(_) | Verdict::Unsupported(_)), "garbage {k} {n}: {:?}", refcodec::decode(&g));
        }
    }
    r.part("chaos", cases(350_000, 4_000_000), chaos, c14_chaos);
    r.part("many", cases(1_500, 30_000), flood, c14_flood);
    super::transports::c14_descriptors_part(r);
}

// ------------------------------------------------------------------------------------------------------------- C15

struct K0;
struct K1;
struct K2;
struct K3;
struct Never;
impl TypeMapKey for K0 {
    type Value = u64;
}
impl TypeMapKey for K1 {
    type Value = u64;
}
impl TypeMapKey for K2 {
    type Value = (String, u64);
}
impl TypeMapKey for K3 {
    type Value = Arc<AtomicUsize>;
}
impl TypeMapKey for Never {
    type Value = u64;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Setup {
    Insert(u8, u16),
    InsertAll(Vec<(u8, u16)>),
    Handlers,
    Namespaces,
    Timeout(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Place {
    endpoint: bool,
    conn: u8,
    /// 0 global handler, 1 namespaced handler, 2 the returned context (if there is one)
    kind: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum DataOp {
    Read(Place),
    Write(Place, u8, u16),
    Remove(Place, u8),
    /// updates at once from these places, each so many times
    Update(Vec<(Place, u8)>, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shared {
    roles: (Role, Role),
    setups: (Vec<Setup>, Vec<Setup>),
    ops: Vec<DataOp>,
    io: (IoPlan, IoPlan),
}

fn put(map: &mut SendSyncTypeMap, key: u8, v: u16) {
    match key % 4 {
        0 => drop(map.insert::<K0>(v as u64)),
        1 => drop(map.insert::<K1>(v as u64)),
        2 => drop(map.insert::<K2>((format!("text {v}"), v as u64))),
        _ => drop(map.insert::<K3>(Arc::new(AtomicUsize::new(v as usize)))),
    }
}

type View = [Option<u64>; 4];

fn view(map: &SendSyncTypeMap) -> Result<View, String> {
    ensure!(map.get::<Never>().is_none(), "a value that was never inserted");
    let k2 = match map.get::<K2>() {
        Some((s, n)) => {
            ensure!(*s == format!("text {n}"), "the value {s:?}, {n} was never inserted");
            Some(*n)
        }
        None => None,
    };
    Ok([
        map.get::<K0>().copied(),
        map.get::<K1>().copied(),
        k2,
        map.get::<K3>().map(|a| a.load(Ordering::SeqCst) as u64),
    ])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Task {
    Read,
    Write(u8, u16),
    Remove(u8),
    Update(u8, u8),
}

async fn data_task(ctx: &Context, t: Task) -> Result<View, String> {
    match t {
        Task::Read => {}
        Task::Write(k, v) => put(&mut *ctx.data.write().await, k, v),
        Task::Remove(k) => {
            let mut d = ctx.data.write().await;
            match k % 4 {
                0 => drop(d.remove::<K0>()),
                1 => drop(d.remove::<K1>()),
                2 => drop(d.remove::<K2>()),
                _ => drop(d.remove::<K3>()),
            }
        }
        Task::Update(k, n) => {
            for _ in 0..n {
                let mut d = ctx.data.write().await;
                let v = view(&d)?[k as usize % 4].unwrap_or(0);
                // others run meanwhile, but cannot get hold of the data
                tokio::task::yield_now().await;
                put(&mut d, k, v as u16 + 1);
            }
        }
    }
    let d = ctx.data.read().await;
    view(&d)
}

fn data_handler() -> impl for<'a> Fn(&'a Context, Event) -> HFut<'a> + Send + Sync + 'static {
    hf(|ctx, event| {
        Box::pin(async move {
            let t: Task = serde_json::from_slice(event.data_raw()).map_err(|e| IPCError::Message(e.to_string()))?;
            let r = data_task(ctx, t).await;
            ctx.response(raw(serde_json::to_vec(&r).unwrap()))
        })
    })
}

fn data_builder(setups: &[Setup]) -> Builder {
    let mut b = Builder::new();
    let mut done = (false, false);
    for s in setups.iter().chain([Setup::Handlers, Setup::Namespaces].iter()) {
        match s {
            Setup::Insert(k, v) => {
                b = match k % 4 {
                    0 => b.insert::<K0>(*v as u64),
                    1 => b.insert::<K1>(*v as u64),
                    2 => b.insert::<K2>((format!("text {v}"), *v as u64)),
                    _ => b.insert::<K3>(Arc::new(AtomicUsize::new(*v as usize))),
                }
            }
            Setup::InsertAll(l) => {
                if l.first().map(|(_, v)| v % 2) == Some(1) {
                    // a list in which keys may occur several times
                    b = b.insert_all(l.iter().flat_map(|(k, v)| {
                        let mut m = SendSyncTypeMap::new();
                        put(&mut m, *k, *v);
                        m
                    }));
                    continue;
                }
                let mut m = SendSyncTypeMap::new();
                l.iter().for_each(|(k, v)| put(&mut m, *k, *v));
                b = b.insert_all(m);
            }
            Setup::Handlers if !done.0 => {
                done.0 = true;
                b = b.on("data", data_handler())
            }
            Setup::Namespaces if !done.1 => {
                done.1 = true;
                b = b.namespace("n0").on("data", data_handler()).build();
            }
            Setup::Timeout(t) => b = b.timeout(Duration::from_millis(*t as u64)),
            _ => {}
        }
    }
    b
}

fn data_model(setups: &[Setup]) -> View {
    let mut v: View = [None; 4];
    for s in setups {
        match s {
            Setup::Insert(k, x) => v[*k as usize % 4] = Some(*x as u64),
            Setup::InsertAll(l) => l.iter().for_each(|(k, x)| v[*k as usize % 4] = Some(*x as u64)),
            _ => {}
        }
    }
    v
}

struct Conn {
    peer: Arc<tokio::sync::Mutex<RawPeer>>,
    ctx: Option<Context>,
}

async fn run_at(c: &Conn, kind: u8, t: Task, id: u64) -> Result<View, String> {
    if kind % 3 == 2 {
        if let Some(ctx) = &c.ctx {
            return data_task(ctx, t).await;
        }
    }
    let ns = if kind % 3 == 1 { Some("n0") } else { None };
    let mut p = c.peer.lock().await;
    p.send(&Frame::new(id, 0, None, ns, "data", serde_json::to_vec(&t).unwrap())).await?;
    let f = p.expect().await?;
    ensure!(f.ref_id == Some(id) && f.ty == refcodec::END, "the handler failed: {}", f.short());
    serde_json::from_slice::<Result<View, String>>(&f.data).map_err(|e| e.to_string())?
}

fn c15_shared(c: &Shared) -> Outcome {
    run_virtual(async {
        let mut ends: Vec<Vec<Conn>> = vec![];
        let mut keep = vec![];
        for (role, setups) in [(c.roles.0, &c.setups.0), (c.roles.1, &c.setups.1)] {
            let net = Net::new(vec![c.io.clone()]);
            let mut ep = endpoint(role, &net, data_builder(setups)).await?;
            let ctxs = ep.ctxs.clone();
            ends.push(
                ep.peers
                    .drain(..)
                    .enumerate()
                    .map(|(i, p)| Conn { peer: Arc::new(tokio::sync::Mutex::new(p)), ctx: ctxs.get(i).cloned() })
                    .collect(),
            );
            keep.push((ep, net));
        }
        let mut model = [data_model(&c.setups.0), data_model(&c.setups.1)];
        let mut id = 0;
        let at = |p: &Place| (p.endpoint as usize, p.conn as usize);
        let (mut reads, mut places, mut updates) = (0, BTreeSet::new(), 0);
        for (step, op) in c.ops.iter().enumerate() {
            id += 1;
            let (place, task) = match op {
                DataOp::Read(p) => (p, Task::Read),
                DataOp::Write(p, k, v) => (p, Task::Write(*k, *v)),
                DataOp::Remove(p, k) => (p, Task::Remove(*k)),
                DataOp::Update(l, k) => {
                    let mut all = vec![];
                    for (p, n) in l {
                        id += 1;
                        let (e, conn) = at(p);
                        let conn = &ends[e][conn % ends[e].len()];
                        all.push(run_at(conn, p.kind, Task::Update(*k, *n), id));
                        let m = &mut model[e][*k as usize % 4];
                        if *n > 0 {
                            *m = Some(m.unwrap_or(0) + *n as u64);
                            updates += 1;
                        }
                    }
                    for r in futures::future::join_all(all).await {
                        r?;
                    }
                    continue;
                }
            };
            let (e, conn) = at(place);
            match &task {
                Task::Write(k, v) => model[e][*k as usize % 4] = Some(*v as u64),
                Task::Remove(k) => model[e][*k as usize % 4] = None,
                _ => {}
            }
            let got = run_at(&ends[e][conn % ends[e].len()], place.kind, task, id).await?;
            ensure!(got == model[e], "step {step}: {place:?} sees {got:?} instead of {:?}", model[e]);
            reads += 1;
            places.insert((e, conn % ends[e].len(), place.kind % 3));
        }
        // finally everybody sees the same
        for (e, conns) in ends.iter().enumerate() {
            for (i, conn) in conns.iter().enumerate() {
                for kind in 0..3 {
                    id += 1;
                    let got = run_at(conn, kind, Task::Read, id).await?;
                    ensure!(got == model[e], "connection {i} of endpoint {e}, place {kind}: sees {got:?} instead of {:?}", model[e]);
                }
            }
        }
        drop(keep);
        Ok(Info::new(reads > 1 && places.len() > 1)
            .label(updates > 1, "concurrent updates")
            .label(ends.iter().any(|e| e.len() > 1), "several connections")
            .label(c.setups.0.iter().any(|s| matches!(s, Setup::InsertAll(_))), "insert_all"))
    })
}

pub fn c15(r: &mut Runner) {
    r.rule("A case is non-trivial if data is read or written at two different places at least.");
    let strategy = || {
        let setup = prop_oneof![
            4 => (0u8..4, 0u16..1000).prop_map(|(k, v)| Setup::Insert(k, v)),
            2 => vec((0u8..4, 0u16..1000), 0..4).prop_map(Setup::InsertAll),
            1 => Just(Setup::Handlers),
            1 => Just(Setup::Namespaces),
            1 => (100u16..1000).prop_map(Setup::Timeout),
        ];
        let place = || (any::<bool>(), 0u8..4, 0u8..3).prop_map(|(endpoint, conn, kind)| Place { endpoint, conn, kind });
        let op = prop_oneof![
            3 => place().prop_map(DataOp::Read),
            3 => (place(), 0u8..4, 0u16..1000).prop_map(|(p, k, v)| DataOp::Write(p, k, v)),
            1 => (place(), 0u8..4).prop_map(|(p, k)| DataOp::Remove(p, k)),
            2 => (vec((place(), 0u8..6), 1..6), 0u8..4).prop_map(|(l, k)| DataOp::Update(l, k)),
        ];
        ((role(), role()), (vec(setup.clone(), 0..8), vec(setup, 0..5)), vec(op, 1..10), (io_plan(), io_plan()))
            .prop_map(|(roles, setups, ops, io)| Shared { roles, setups, ops, io })
    };
    r.part("shared", cases(300_000, 4_000_000), strategy, c15_shared);
}

// ------------------------------------------------------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
enum PoolOp {
    Acquire(u8),
    CloneGuard(u8),
    DropGuard(u8),
    ClonePool(u8),
    DropPool(u8),
    /// emits with a guard: tells which connection it has
    Emit(u8),
    /// a request with a guard (and one with another at the same time)
    Request(u8, u8),
    /// a guard is moved to a task that drops it later (after that many steps)
    Task(u8, u8),
    /// the peer of a connection sends an event
    Event(u8),
    /// the guard's context itself is cloned, which does not count
    CloneContext(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pooled {
    size: u8,
    timeout: Option<u16>,
    ops: Vec<PoolOp>,
    io: (IoPlan, IoPlan),
}

fn c16_pool(c: &Pooled) -> Outcome {
    run_virtual(async {
        let size = c.size as usize;
        let net = Net::new(vec![c.io.clone()]);
        let listener = net.listen();
        let rec = Recorder::default();
        let mut b = Builder::new().address(net.clone()).on("hello", super::dispatch::recording(&rec, "hello".into())).insert::<K0>(77);
        if let Some(t) = c.timeout {
            b = b.timeout(Duration::from_millis(t as u64));
        }
        let pool = match b.build_pooled_client(size).await {
            Ok(_) if size == 0 => return Err("a pool without connections was built".into()),
            Ok(p) => p,
            Err(IPCError::BuildError(_)) if size == 0 => {
                ensure!(net.connections() == 0, "a pool of no connections opens one");
                return Ok(Info::new(true).label(true, "size 0"));
            }
            Err(e) => return Err(format!("building failed: {e:?}")),
        };
        ensure!(net.connections() == size, "a pool of {size} opened {} connections", net.connections());
        let mut peers = vec![];
        for _ in 0..size {
            peers.push(RawPeer::new(listener.accept().await));
        }
        let mut pools = vec![pool];
        // guards: (guard, its connection once it is known)
        let mut guards: Vec<(PoolGuard<Context>, usize)> = vec![];
        let mut tasks: Vec<(tokio::task::JoinHandle<()>, tokio::sync::oneshot::Sender<()>, usize, u8)> = vec![];
        let mut count = vec![0usize; size];
        let mut spare: Vec<(Context, usize)> = vec![];
        let mut next = 1u64 << 33;
        let mut sent_events = 0;
        let mut seq = 0u8;
        let (mut acquired, mut max_pools) = (0, 1);
        // which connection a context uses is found out by emitting
        async fn identify(ctx: &Context, peers: &mut [RawPeer], seq: u8) -> Result<usize, String> {
            let ctx = ctx.clone();
            let h = tokio::spawn(async move { ctx.emit("who", raw(vec![seq])).await });
            let mut found = vec![];
            for (i, p) in peers.iter_mut().enumerate() {
                for f in p.drain(2).await? {
                    if f.ty == refcodec::END {
                        continue;
                    }
                    ensure!(f.name == "who" && f.data == [seq], "unexpected {}", f.short());
                    found.push(i);
                }
            }
            err_text(h.await.map_err(|e| format!("panic: {e}"))?)?;
            ensure!(found.len() == 1, "an emit arrives on the connections {found:?}");
            Ok(found[0])
        }
        for (step, op) in c.ops.iter().enumerate() {
            seq = seq.wrapping_add(1);
            // tasks whose time has come drop their guards
            let mut i = 0;
            while i < tasks.len() {
                if tasks[i].3 == 0 {
                    let (h, tx, conn, _) = tasks.remove(i);
                    let _ = tx.send(());
                    h.await.map_err(|e| format!("panic: {e}"))?;
                    count[conn] -= 1;
                } else {
                    tasks[i].3 -= 1;
                    i += 1;
                }
            }
            let pick = |n: u8, len: usize| if len == 0 { None } else { Some(n as usize % len) };
            match op {
                PoolOp::Acquire(p) => {
                    let Some(p) = pick(*p, pools.len()) else { continue };
                    let g = pools[p].acquire();
                    let conn = identify(&g, &mut peers, seq).await?;
                    let min = *count.iter().min().unwrap();
                    ensure!(
                        count[conn] == min,
                        "step {step}: acquired connection {conn} although the guards alive are {count:?}"
                    );
                    count[conn] += 1;
                    acquired += 1;
                    let t = Duration::from_millis(c.timeout.map(|t| t as u64).unwrap_or(60_000));
                    ensure!(g.default_reply_timeout == t, "another timeout: {:?}", g.default_reply_timeout);
                    ensure!(g.data.read().await.get::<K0>() == Some(&77), "other data");
                    guards.push((g, conn));
                }
                PoolOp::CloneGuard(g) => {
                    let Some(g) = pick(*g, guards.len()) else { continue };
                    let (new, conn) = (guards[g].0.clone(), guards[g].1);
                    count[conn] += 1;
                    guards.push((new, conn));
                }
                PoolOp::DropGuard(g) => {
                    let Some(g) = pick(*g, guards.len()) else { continue };
                    let (g, conn) = guards.remove(g);
                    drop(g);
                    count[conn] -= 1;
                }
                PoolOp::ClonePool(p) => {
                    let Some(p) = pick(*p, pools.len()) else { continue };
                    let new = pools[p].clone();
                    pools.push(new);
                    max_pools = max_pools.max(pools.len());
                }
                PoolOp::DropPool(p) => {
                    let Some(p) = pick(*p, pools.len()) else { continue };
                    drop(pools.remove(p));
                }
                PoolOp::Emit(g) => {
                    let Some(g) = pick(*g, guards.len()) else { continue };
                    let conn = identify(&guards[g].0, &mut peers, seq).await?;
                    ensure!(conn == guards[g].1, "a guard of connection {} emits on {conn}", guards[g].1);
                }
                PoolOp::Request(a, b) => {
                    let (Some(a), Some(b)) = (pick(*a, guards.len()), pick(*b, guards.len())) else { continue };
                    let mut waiting = vec![];
                    for g in [a, b] {
                        let ctx = Context::clone(&guards[g].0);
                        let data = vec![g as u8, seq];
                        waiting.push(tokio::spawn(async move {
                            ctx.emit("ask", raw(data)).await_reply().await.map(|e| to_frame(&e))
                        }));
                    }
                    let mut arrived = vec![];
                    for (i, p) in peers.iter_mut().enumerate() {
                        arrived.extend(p.drain(2).await?.into_iter().filter(|f| f.ty != refcodec::END).map(|f| (i, f)));
                    }
                    ensure!(arrived.len() == 2, "{} of 2 requests arrived", arrived.len());
                    for (i, f) in arrived.into_iter().rev() {
                        next += 1;
                        ensure!(guards[f.data[0] as usize].1 == i, "a request on another connection");
                        let data = vec![f.data[0], i as u8, f.data[1]];
                        peers[i].send(&Frame::new(next, 1, Some(f.id), None, "r", data)).await?;
                    }
                    for (g, w) in [a, b].into_iter().zip(waiting) {
                        let f = err_text(w.await.map_err(|e| format!("panic: {e}"))?)?;
                        ensure!(f.data == [g as u8, guards[g].1 as u8, seq], "guard {g} got the reply of another: {:?}", f.data);
                    }
                }
                PoolOp::Task(g, steps) => {
                    let Some(g) = pick(*g, guards.len()) else { continue };
                    let (g, conn) = guards.remove(g);
                    let (tx, rx) = tokio::sync::oneshot::channel::<()>();
                    tasks.push((
                        tokio::spawn(async move {
                            let _ = rx.await;
                            drop(g);
                        }),
                        tx,
                        conn,
                        *steps,
                    ));
                }
                PoolOp::Event(conn) => {
                    let conn = *conn as usize % size;
                    next += 1;
                    peers[conn].send(&Frame::new(next, 0, None, None, "hello", vec![conn as u8])).await?;
                    settle().await;
                    sent_events += 1;
                    peers[conn].drain(2).await?;
                }
                PoolOp::CloneContext(g) => {
                    let Some(g) = pick(*g, guards.len()) else { continue };
                    spare.push((Context::clone(&guards[g].0), guards[g].1));
                }
            }
        }
        for (i, (ctx, conn)) in spare.iter().enumerate() {
            let at = identify(ctx, &mut peers, i as u8).await?;
            ensure!(at == *conn, "a context of connection {conn} emits on {at}");
        }
        ensure!(rec.len() == sent_events, "{} of {sent_events} events were handled", rec.len());
        Ok(Info::new(acquired > 1 && size > 1)
            .label(max_pools > 1, "cloned pools")
            .label(c.ops.iter().any(|o| matches!(o, PoolOp::Task(..))), "guards in tasks"))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PoolMany {
    size: u16,
    /// (0 acquire, 1 clone a guard, 2 drop guards, 3 clone the pool, 4 drop a pool, 5 drop guards elsewhere, how often, which)
    ops: Vec<(u8, u16, u16)>,
}

/// Many connections, hundreds of guards of one connection
fn c16_many(c: &PoolMany) -> Outcome {
    run_virtual(async {
        let size = c.size as usize;
        let net = Net::default();
        let listener = net.listen();
        let pool = Builder::new().address(net.clone()).build_pooled_client(size).await.map_err(|e| format!("{e:?}"))?;
        ensure!(net.connections() == size, "a pool of {size} opened {} connections", net.connections());
        let mut peers = vec![];
        for _ in 0..size {
            peers.push(RawPeer::new(listener.accept().await));
        }
        let wires: Vec<_> = (0..size).map(|i| net.wires(i).client_to_server).collect();
        let mut lens = vec![0usize; size];
        let mut count = vec![0usize; size];
        let mut pools = vec![pool];
        let mut guards: Vec<(PoolGuard<Context>, usize)> = vec![];
        let (mut most, mut acquired) = (0, 0);
        let mut where_is = async |ctx: &Context| -> Result<usize, String> {
            ctx.emit("who", raw(vec![])).await.map_err(|e| format!("{e:?}"))?;
            let grown: Vec<usize> = (0..size).filter(|i| wires[*i].log_len() != lens[*i]).collect();
            ensure!(grown.len() == 1, "an emit arrives on the connections {grown:?}");
            lens[grown[0]] = wires[grown[0]].log_len();
            Ok(grown[0])
        };
        for (step, (what, n, which)) in c.ops.iter().enumerate() {
            let which = *which as usize;
            match what % 6 {
                0 => {
                    for _ in 0..*n {
                        let g = pools[which % pools.len()].acquire();
                        let conn = where_is(&g).await?;
                        let min = *count.iter().min().unwrap();
                        ensure!(
                            count[conn] == min,
                            "step {step}: acquired connection {conn} with {} guards alive, another has {min}", count[conn]
                        );
                        count[conn] += 1;
                        acquired += 1;
                        guards.push((g, conn));
                    }
                }
                1 if !guards.is_empty() => {
                    for _ in 0..*n {
                        let (g, conn) = &guards[which % guards.len()];
                        let new = (g.clone(), *conn);
                        count[new.1] += 1;
                        guards.push(new);
                    }
                }
                2 | 5 if !guards.is_empty() => {
                    let mut gone = vec![];
                    for k in 0..(*n as usize).min(guards.len()) {
                        let (g, conn) = guards.swap_remove((which + 7 * k) % guards.len());
                        count[conn] -= 1;
                        gone.push(g);
                    }
                    if what % 6 == 5 {
                        tokio::spawn(async move { drop(gone) }).await.map_err(|e| e.to_string())?;
                    }
                }
                3 => {
                    for _ in 0..(*n).min(40) {
                        let p = pools[which % pools.len()].clone();
                        pools.push(p);
                    }
                }
                4 => {
                    for _ in 0..(*n as usize).min(pools.len() - 1) {
                        drop(pools.remove(which % pools.len()));
                    }
                }
                _ => {}
            }
            most = most.max(count.iter().copied().max().unwrap_or(0));
        }
        // each guard has the connection that it had in the beginning
        for (g, conn) in guards.iter().step_by(1 + guards.len() / 50) {
            let at = where_is(g).await?;
            ensure!(at == *conn, "a guard of connection {conn} emits on {at}");
        }
        drop(peers);
        Ok(Info::new(acquired > 1 && size > 1)
            .label(size > 64, "over 64 connections")
            .label(most > 255, "over 255 guards of one connection"))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PoolThreads {
    size: u8,
    /// per thread: (what, which)
    threads: Vec<Vec<(u8, u8)>>,
    rounds: u8,
}

fn c16_threads(c: &PoolThreads) -> Outcome {
    let c = c.clone();
    run_threads(8, Duration::from_secs(60), async move {
        let size = c.size.max(1) as usize;
        let net = Net::default();
        let listener = net.listen();
        let pool = Builder::new().address(net.clone()).build_pooled_client(size).await.map_err(|e| format!("{e:?}"))?;
        let mut peers = vec![];
        for _ in 0..size {
            peers.push(RawPeer::new(listener.accept().await));
        }
        let barrier = Arc::new(std::sync::Barrier::new(c.threads.len()));
        let handles: Vec<_> = c
            .threads
            .iter()
            .map(|ops| {
                let (pool, ops, barrier, rounds) = (pool.clone(), ops.clone(), barrier.clone(), c.rounds);
                std::thread::spawn(move || {
                    let mut guards: Vec<PoolGuard<Context>> = vec![];
                    let mut pools = vec![pool];
                    barrier.wait();
                    for _ in 0..rounds {
                        for (what, which) in &ops {
                            let which = *which as usize;
                            match what % 6 {
                                0 | 1 => guards.push(pools[which % pools.len()].acquire()),
                                2 if !guards.is_empty() => {
                                    let g = guards[which % guards.len()].clone();
                                    guards.push(g)
                                }
                                3 if !guards.is_empty() => drop(guards.remove(which % guards.len())),
                                4 => {
                                    let p = pools[which % pools.len()].clone();
                                    pools.push(p)
                                }
                                5 if pools.len() > 1 => drop(pools.remove(which % pools.len())),
                                _ => {}
                            }
                        }
                        guards.truncate(20);
                        pools.truncate(5);
                    }
                    guards
                })
            })
            .collect();
        let mut guards = vec![];
        for h in handles {
            guards.extend(h.join().map_err(|_| "a thread panicked".to_string())?);
        }
        // afterwards the counts are exact again
        let mut count = vec![0usize; size];
        let mut seq = 0u64;
        let mut where_is = |ctx: Context| {
            seq += 1;
            let data = seq.to_be_bytes().to_vec();
            async move {
                ctx.emit("who", raw(data.clone())).await.map_err(|e| format!("{e:?}"))?;
                Ok::<_, String>(data)
            }
        };
        let find = |net: &Net, data: &[u8]| -> Result<usize, String> {
            for i in 0..size {
                let (frames, _) = refcodec::decode_all(&net.wires(i).client_to_server.log())?;
                if frames.iter().any(|f| f.data == data) {
                    return Ok(i);
                }
            }
            Err("an emit does not arrive".into())
        };
        for g in &guards {
            let d = where_is(Context::clone(g)).await?;
            count[find(&net, &d)?] += 1;
        }
        let mut held = vec![];
        for _ in 0..2 * size + 3 {
            let g = pool.acquire();
            let d = where_is(Context::clone(&g)).await?;
            let conn = find(&net, &d)?;
            ensure!(
                count[conn] == *count.iter().min().unwrap(),
                "acquired connection {conn} although the guards alive are {count:?}"
            );
            count[conn] += 1;
            held.push(g);
        }
        drop(peers);
        Ok(Info::new(c.threads.len() > 1 && size > 1))
    })
}

pub fn c16(r: &mut Runner) {
    r.rule("A case is non-trivial if several contexts are acquired from a pool of at least two connections, or if the size is 0.");
    let strategy = || {
        let op = prop_oneof![
            6 => (0u8..4).prop_map(PoolOp::Acquire),
            2 => (0u8..20).prop_map(PoolOp::CloneGuard),
            4 => (0u8..20).prop_map(PoolOp::DropGuard),
            1 => (0u8..4).prop_map(PoolOp::ClonePool),
            1 => (0u8..4).prop_map(PoolOp::DropPool),
            1 => (0u8..20).prop_map(PoolOp::Emit),
            1 => (0u8..20, 0u8..20).prop_map(|(a, b)| PoolOp::Request(a, b)),
            1 => (0u8..20, 0u8..6).prop_map(|(a, b)| PoolOp::Task(a, b)),
            1 => (0u8..8).prop_map(PoolOp::Event),
            1 => (0u8..20).prop_map(PoolOp::CloneContext),
        ];
        (prop_oneof![1 => Just(0u8), 15 => 1u8..7], opt(1000u16..5000), vec(op, 0..40), (io_plan(), io_plan()))
            .prop_map(|(size, timeout, ops, io)| Pooled { size, timeout, ops, io })
    };
    r.part("model", cases(400_000, 6_000_000), strategy, c16_pool);
    r.part(
        "many",
        cases(10_000, 150_000),
        || {
            let times = || prop_oneof![2 => 1u16..10, 2 => 10u16..120, 1 => 200u16..600];
            (prop_oneof![3 => 1u16..9, 2 => 9u16..70, 1 => 70u16..300], vec((0u8..6, times(), any::<u16>()), 1..12))
                .prop_map(|(size, ops)| PoolMany { size, ops })
        },
        c16_many,
    );
    r.part(
        "threads",
        serial(2_000, 20_000),
        || {
            (1u8..6, vec(vec((0u8..6, any::<u8>()), 1..20), 2..7), 1u8..40)
                .prop_map(|(size, threads, rounds)| PoolThreads { size, threads, rounds })
        },
        c16_threads,
    );
}

// ------------------------------------------------------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
enum StopOp {
    /// the peer sends an event whose handler takes that long
    Event(u8, u16),
    Emit(u8, Blob),
    /// a request that is answered (when its number comes) or not
    Request(u8),
    Answer(u8),
    Stop(u8),
    /// the user drops all contexts of the connection
    Drop(u8),
    Sleep(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stopping {
    /// the clients: true is a pool of two
    clients: Vec<bool>,
    ops: Vec<StopOp>,
    io: (IoPlan, IoPlan),
}

struct Link {
    peer: RawPeer,
    ctx: Option<Context>,
    pool: usize,
    stopped: bool,
    dropped: bool,
    sent: Vec<Vec<u8>>,
    /// handlers that may still hold a context, until
    busy: tokio::time::Instant,
    got: Vec<Frame>,
    eof: bool,
    unanswered: Vec<(u64, u64)>,
}

impl Link {
    async fn read(&mut self) -> Result<(), String> {
        while !self.eof {
            match tokio::time::timeout(Duration::from_millis(1), self.peer.recv()).await {
                Ok(r) => match r? {
                    Some(f) => self.got.push(f),
                    None => self.eof = true,
                },
                Err(_) => break,
            }
        }
        Ok(())
    }
}

fn c17_stop(c: &Stopping) -> Outcome {
    run_virtual(async {
        let rec = Recorder::default();
        let mut links: Vec<Link> = vec![];
        let mut pools: Vec<Option<(PooledContext, Vec<PoolGuard<Context>>)>> = vec![];
        let mut nets = vec![];
        for (i, pooled) in c.clients.iter().enumerate() {
            let net = Net::new(vec![c.io.clone()]);
            let rec2 = rec.clone();
            let b = Builder::new().on("work", move |_, event| {
                let d = event.data_raw();
                let ms = u16::from_be_bytes([d[0], d[1]]);
                rec2.note("work", &event);
                Box::pin(async move {
                    sleep_ms(ms as u64).await;
                    Ok(Response::empty())
                })
            });
            let mut ep = endpoint(if *pooled { Role::Pool(2) } else { Role::Client }, &net, b).await?;
            let ctxs = std::mem::take(&mut ep.ctxs);
            for (peer, ctx) in ep.peers.drain(..).zip(ctxs) {
                links.push(Link {
                    peer,
                    ctx: Some(ctx),
                    pool: i,
                    stopped: false,
                    dropped: false,
                    sent: vec![],
                    busy: tokio::time::Instant::now(),
                    got: vec![],
                    eof: false,
                    unanswered: vec![],
                });
            }
            pools.push(ep.pool.take().map(|p| (p, std::mem::take(&mut ep.guards))));
            nets.push(net);
        }
        let n = links.len();
        let mut id = 1u64 << 40;
        let mut seq = 0u64;
        let mut handled: Vec<u64> = vec![];
        let mut waits: Vec<(tokio::task::JoinHandle<Result<Frame, String>>, usize, Vec<u8>)> = vec![];
        let mut answered: BTreeMap<Vec<u8>, u64> = Default::default();
        let (mut stops, mut after, mut others) = (0, 0, 0);
        for op in &c.ops {
            seq += 1;
            let conn = match op {
                StopOp::Event(i, _) | StopOp::Emit(i, _) | StopOp::Request(i) | StopOp::Answer(i) | StopOp::Stop(i) | StopOp::Drop(i) => {
                    *i as usize % n
                }
                StopOp::Sleep(ms) => {
                    sleep_ms(*ms as u64).await;
                    continue;
                }
            };
            let any_stopped = links.iter().any(|l| l.stopped);
            match op {
                StopOp::Event(_, ms) => {
                    id += 1;
                    let mut d = ms.to_be_bytes().to_vec();
                    d.push(conn as u8);
                    let l = &mut links[conn];
                    // nobody may be reading any more
                    if l.peer.send(&Frame::new(id, 0, None, None, "work", d)).await.is_err() {
                        ensure!(l.stopped, "the connection of a client that runs is closed");
                    }
                    if l.stopped {
                        after += 1;
                    } else {
                        handled.push(id);
                        others += any_stopped as usize;
                        l.busy = l.busy.max(tokio::time::Instant::now() + Duration::from_millis(*ms as u64 + 1));
                    }
                }
                StopOp::Emit(_, b) => {
                    let Some(ctx) = links[conn].ctx.clone() else { continue };
                    let mut d = seq.to_be_bytes().to_vec();
                    d.extend(b.bytes());
                    let d2 = d.clone();
                    let h = tokio::spawn(async move { ctx.emit("emit", raw(d2)).await.map_err(|e| format!("{e:?}")) });
                    links[conn].read().await?;
                    ensure!(h.is_finished(), "an emit does not end");
                    match h.await.map_err(|e| format!("panic: {e}"))? {
                        Ok(_) => links[conn].sent.push(d),
                        Err(e) => ensure!(links[conn].stopped, "emitting failed: {e}"),
                    }
                    others += (any_stopped && !links[conn].stopped) as usize;
                }
                StopOp::Request(_) => {
                    let Some(ctx) = links[conn].ctx.clone() else { continue };
                    let d = seq.to_be_bytes().to_vec();
                    let d2 = d.clone();
                    // the request itself holds a context, for at most this long
                    links[conn].busy = links[conn].busy.max(tokio::time::Instant::now() + Duration::from_secs(71));
                    waits.push((
                        tokio::spawn(async move {
                            match ctx.emit("ask", raw(d2)).await_reply().with_timeout(Duration::from_secs(70)).await {
                                Ok(e) => Ok(to_frame(&e)),
                                Err(e) => Err(format!("{e:?}")),
                            }
                        }),
                        conn,
                        d,
                    ));
                    settle().await;
                    links[conn].read().await?;
                    if let Some(f) = links[conn].got.iter().rev().find(|f| f.name == "ask") {
                        let id = f.id;
                        links[conn].unanswered.push((id, seq));
                    }
                }
                StopOp::Answer(_) => {
                    let Some((ask, s)) = links[conn].unanswered.pop() else { continue };
                    id += 1;
                    let d = s.to_be_bytes().to_vec();
                    let l = &mut links[conn];
                    let r = l.peer.send(&Frame::new(id, 1, Some(ask), None, "answer", d.clone())).await;
                    ensure!(r.is_ok() || l.stopped, "the connection of a client that runs is closed");
                    if l.stopped {
                        after += 1;
                    } else {
                        answered.insert(d, id);
                    }
                }
                StopOp::Stop(_) => {
                    let Some(ctx) = &links[conn].ctx else { continue };
                    let r = ctx.clone().stop().await;
                    ensure!(r.is_ok(), "stopping failed: {r:?}");
                    settle().await;
                    links[conn].stopped = true;
                    stops += 1;
                }
                StopOp::Drop(_) => {
                    // with a pool, all of its contexts
                    let pool = links[conn].pool;
                    pools[pool] = None;
                    for l in links.iter_mut().filter(|l| l.pool == pool) {
                        l.ctx = None;
                        l.dropped = true;
                    }
                }
                StopOp::Sleep(_) => {}
            }
            settle().await;
            for l in links.iter_mut() {
                l.read().await?;
                let now = tokio::time::Instant::now();
                if !(l.stopped && l.dropped) {
                    ensure!(!l.eof, "a connection is closed although its client {}", if l.stopped { "still has a context" } else { "was not stopped" });
                } else if now > l.busy + Duration::from_millis(10) {
                    l.read().await?;
                    ensure!(l.eof, "the client was stopped and dropped, but its connection stays open");
                }
            }
        }
        sleep_ms(200_000).await;
        for l in links.iter_mut() {
            l.read().await?;
            ensure!(l.eof == (l.stopped && l.dropped), "closed: {}, stopped: {}, dropped: {}", l.eof, l.stopped, l.dropped);
            let got: Vec<_> = l.got.iter().filter(|f| f.name == "emit").map(|f| f.data.clone()).collect();
            ensure!(got == l.sent, "{} of {} emitted events arrived", got.len(), l.sent.len());
        }
        let mut done: Vec<u64> = rec.calls().iter().map(|c| c.frame.id).collect();
        done.sort();
        ensure!(done == handled, "handled {done:?} instead of {handled:?}");
        for (h, conn, d) in waits {
            ensure!(h.is_finished(), "a request does not end");
            let r = h.await.map_err(|e| format!("panic: {e}"))?;
            match (answered.get(&d), r) {
                (Some(id), Ok(f)) => ensure!(f.id == *id, "a request got another reply"),
                (Some(_), Err(e)) => return Err(format!("an answered request on connection {conn} failed: {e}")),
                (None, Ok(f)) => return Err(format!("a request that was not answered before the stop got {}", f.short())),
                (None, Err(_)) => {}
            }
        }
        drop(nets);
        Ok(Info::new(stops > 0 && after > 0)
            .label(stops > 1, "stopped more than once")
            .label(others > 0, "others go on")
            .label(links.iter().any(|l| l.eof), "closed in the end")
            .label(links.iter().any(|l| l.dropped && !l.stopped), "dropped without stop"))
    })
}

pub fn c17(r: &mut Runner) {
    r.rule("A case is non-trivial if a client is stopped and its peer sends an event or a reply afterwards.");
    let strategy = || {
        let op = prop_oneof![
            6 => (0u8..6, prop_oneof![Just(0u16), 0u16..50]).prop_map(|(i, ms)| StopOp::Event(i, ms)),
            3 => (0u8..6, blob(400)).prop_map(|(i, b)| StopOp::Emit(i, b)),
            3 => (0u8..6).prop_map(StopOp::Request),
            3 => (0u8..6).prop_map(StopOp::Answer),
            4 => (0u8..6).prop_map(StopOp::Stop),
            2 => (0u8..6).prop_map(StopOp::Drop),
            1 => (0u16..100).prop_map(StopOp::Sleep),
        ];
        (vec(any::<bool>(), 1..4), vec(op, 1..30), (io_plan(), io_plan())).prop_map(|(clients, ops, io)| Stopping { clients, ops, io })
    };
    r.part("stop", cases(300_000, 4_000_000), strategy, c17_stop);
}
