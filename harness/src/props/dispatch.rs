//! C06 (which handler runs), C07 (how handled events are answered)
use crate::ensure;
use crate::gen::*;
use crate::refcodec::{self, Frame};
use crate::runner::{cases, Info, Outcome, Runner};
use crate::sim::{IoPlan, Net};
use crate::util::*;
use bromine::prelude::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;

/// The first ones are common, the others look like them
/// Cutting it after any but a few numbers of bytes cuts a character
macro_rules! wide {
    () => {
        concat!("x", wide!(more), wide!(more), wide!(more), wide!(more))
    };
    (more) => {
        "😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀"
    };
}
const NAMESPACES: [&str; 17] = [
    "n0", "n1", "prov_a", "prov_b", "error", "", "N0", " n0", "n0 ", "n", "n00", "n0\0", "n0/e0", "Prov_A", "*",
    concat!(wide!(), "0"), concat!(wide!(), "1"),
];
macro_rules! sixty {
    () => {
        "eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee"
    };
}
const NAMES: [&str; 24] = [
    "e0", "e1", "e2", "error", "end", "", "a name with ünicode", "E0", " e0", "e0 ", "e0\n", "e", "e00", "e0\0", "ERROR",
    "n0/e0", "*", "_", "A NAME WITH ÜNICODE", "a name with u\u{308}nicode",
    concat!(sixty!(), sixty!(), sixty!(), sixty!(), sixty!(), "0"),
    concat!(sixty!(), sixty!(), sixty!(), sixty!(), sixty!(), "1"),
    concat!(wide!(), "0"), concat!(wide!(), "1"),
];

fn a_name() -> BoxedStrategy<u8> {
    prop_oneof![4 => 0u8..7, 1 => 0u8..NAMES.len() as u8].boxed()
}

fn a_namespace() -> BoxedStrategy<u8> {
    prop_oneof![4 => 0u8..6, 1 => 0u8..NAMESPACES.len() as u8].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Reg {
    Global(Vec<u8>),
    Built(u8, Vec<u8>),
    Added(u8, Vec<u8>),
    ProviderA,
    ProviderB,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    conn: u8,
    id: u64,
    ty: u8,
    ref_id: Option<u64>,
    ns: Option<u8>,
    name: u8,
    data: Blob,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dispatch {
    role: Role,
    regs: Vec<Reg>,
    events: Vec<In>,
    io: (IoPlan, IoPlan),
    /// all events at once instead of one after the other
    burst: bool,
}

struct ProvA;
struct ProvB;

async fn record_provider(tag: &str, ctx: &Context, event: &Event) {
    if let Some(r) = ctx.data.read().await.get::<RecKey>() {
        r.note(tag, event)
    }
}

impl ProvA {
    async fn e0(ctx: &Context, event: Event) -> IPCResult<Response> {
        record_provider("A.e0", ctx, &event).await;
        Ok(Response::empty())
    }
    async fn e2(ctx: &Context, event: Event) -> IPCResult<Response> {
        record_provider("A.e2", ctx, &event).await;
        Ok(Response::empty())
    }
}

impl NamespaceProvider for ProvA {
    fn name() -> &'static str {
        "prov_a"
    }
    fn register(handler: &mut EventHandler) {
        events!(handler, "e0" => Self::e0, "e2" => Self::e2);
    }
}

impl NamespaceProvider for ProvB {
    fn name() -> &'static str {
        "prov_b"
    }
    fn register(handler: &mut EventHandler) {
        // the last one wins here too
        handler.on("e1", |ctx, event| {
            Box::pin(async move {
                record_provider("B.first", ctx, &event).await;
                Ok(Response::empty())
            })
        });
        handler.on("e1", |ctx, event| {
            Box::pin(async move {
                record_provider("B.e1", ctx, &event).await;
                Ok(Response::empty())
            })
        });
    }
}

#[derive(Default)]
struct Model {
    global: HashMap<String, String>,
    spaces: HashMap<String, HashMap<String, String>>,
    /// what an earlier namespace of the same name had: whether it remains is not specified
    maybe: HashMap<(String, String), HashSet<String>>,
}

impl Model {
    fn space(&mut self, ns: &str, handlers: HashMap<String, String>) {
        if let Some(old) = self.spaces.insert(ns.to_string(), handlers) {
            for (n, t) in old {
                self.maybe.entry((ns.to_string(), n)).or_default().insert(t);
            }
        }
    }

    /// The tags that may be called; empty string for none
    fn expected(&self, ns: &Option<String>, name: &str) -> HashSet<String> {
        let mut out = HashSet::new();
        let sure = match ns {
            None => self.global.get(name),
            Some(ns) => {
                let sure = self.spaces.get(ns).and_then(|s| s.get(name));
                if sure.is_none() {
                    out.extend(self.maybe.get(&(ns.clone(), name.to_string())).into_iter().flatten().cloned());
                }
                sure
            }
        };
        out.insert(sure.cloned().unwrap_or_default());
        out
    }
}

pub fn recording(rec: &Recorder, tag: String) -> impl for<'a> Fn(&'a Context, Event) -> HFut<'a> + Send + Sync + 'static {
    let rec = rec.clone();
    hf(move |_, event| {
        rec.note(&tag, &event);
        Box::pin(async { Ok(Response::empty()) })
    })
}

fn build(regs: &[Reg], rec: &Recorder) -> (Builder, Model) {
    let mut b = Builder::new().insert::<RecKey>(rec.clone());
    let mut m = Model::default();
    for (i, r) in regs.iter().enumerate() {
        match r {
            Reg::Global(names) => {
                for (j, n) in names.iter().enumerate() {
                    let (name, tag) = (NAMES[*n as usize], format!("r{i}.{j}"));
                    b = b.on(name, recording(rec, tag.clone()));
                    m.global.insert(name.to_string(), tag);
                }
            }
            Reg::Built(ns, names) | Reg::Added(ns, names) => {
                let ns = NAMESPACES[*ns as usize];
                let mut handlers = HashMap::new();
                let mut nb = None;
                let mut eh = EventHandler::new();
                if matches!(r, Reg::Built(..)) {
                    nb = Some(b.namespace(ns));
                    b = Builder::new();
                }
                for (j, n) in names.iter().enumerate() {
                    let (name, tag) = (NAMES[*n as usize], format!("r{i}.{j}"));
                    if let Some(x) = nb.take() {
                        nb = Some(x.on(name, recording(rec, tag.clone())));
                    } else {
                        eh.on(name, recording(rec, tag.clone()));
                    }
                    handlers.insert(name.to_string(), tag);
                }
                b = match nb {
                    Some(x) => x.build(),
                    None => b.add_namespace(Namespace::new(ns, eh)),
                };
                m.space(ns, handlers);
            }
            Reg::ProviderA => {
                b = b.add_namespace(namespace!(ProvA));
                let h = [("e0", "A.e0"), ("e2", "A.e2")];
                m.space("prov_a", h.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect());
            }
            Reg::ProviderB => {
                b = b.add_namespace(Namespace::from_provider::<ProvB>());
                m.space("prov_b", [("e1".to_string(), "B.e1".to_string())].into_iter().collect());
            }
        }
    }
    (b, m)
}

fn c06_dispatch(c: &Dispatch) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let rec = Recorder::default();
        let (b, model) = build(&c.regs, &rec);
        let mut ep = endpoint(c.role, &net, b).await?;
        let n = ep.peers.len();
        let mut expected: Vec<(HashSet<String>, Frame)> = vec![];
        let mut answered: Vec<BTreeMap<u64, usize>> = vec![BTreeMap::new(); n];
        let (mut hits, mut misses) = (0, 0);
        let mut got_answers: Vec<Vec<Frame>> = vec![vec![]; n];
        for e in &c.events {
            let conn = e.conn as usize % n;
            let ns = e.ns.map(|i| NAMESPACES[i as usize]).filter(|s| !s.is_empty());
            let f = Frame::new(e.id, e.ty, e.ref_id, ns, NAMES[e.name as usize], e.data.bytes());
            ep.peers[conn].send(&f).await?;
            if f.ty != refcodec::END {
                let tags = model.expected(&f.ns, &f.name);
                if tags.contains("") {
                    misses += 1
                } else {
                    hits += 1
                }
                expected.push((tags, f.clone()));
                *answered[conn].entry(f.id).or_default() += 1;
            } else {
                misses += 1
            }
            if !c.burst {
                got_answers[conn].extend(ep.peers[conn].drain(2).await?);
            }
        }
        for (i, p) in ep.peers.iter_mut().enumerate() {
            got_answers[i].extend(p.drain(50).await?);
        }
        let mut calls = rec.calls();
        for (tags, f) in &expected {
            match calls.iter().position(|c| c.frame == *f && tags.contains(&c.tag)) {
                Some(i) => {
                    calls.remove(i);
                }
                None if tags.contains("") => {}
                None => {
                    return Err(format!(
                        "{} must be handled by {tags:?}, but the calls left are {:?}",
                        f.short(),
                        calls.iter().map(|c| format!("{} <- {}", c.tag, c.frame.short())).collect::<Vec<_>>()
                    ))
                }
            }
        }
        ensure!(
            calls.is_empty(),
            "handlers ran for events that are not theirs, or more than once: {:?}",
            calls.iter().map(|c| format!("{} <- {}", c.tag, c.frame.short())).collect::<Vec<_>>()
        );
        // the handlers worked with the context of the connection
        for (i, answers) in got_answers.iter().enumerate() {
            let mut counts: BTreeMap<u64, usize> = BTreeMap::new();
            for a in answers {
                let id = a.ref_id.ok_or_else(|| format!("unexpected {}", a.short()))?;
                *counts.entry(id).or_default() += 1;
            }
            ensure!(counts == answered[i], "connection {i}: answers per event {counts:?} instead of {:?}", answered[i]);
        }
        Ok(Info::new(hits > 0)
            .label(hits > 0, "handled events")
            .label(misses > 0, "ignored events")
            .label(c.events.iter().any(|e| e.ns.is_some()), "namespaced events")
            .label(c.events.iter().any(|e| e.ref_id.is_some()), "unawaited replies")
            .label(n > 1, "several connections")
            .label(model.maybe.len() > 0, "namespace registered twice"))
    })
}

fn dispatch() -> BoxedStrategy<Dispatch> {
    let names = || vec(a_name(), 0..5);
    let ns = a_namespace;
    let reg = prop_oneof![
        3 => names().prop_map(Reg::Global),
        2 => (ns(), names()).prop_map(|(a, b)| Reg::Built(a, b)),
        2 => (ns(), names()).prop_map(|(a, b)| Reg::Added(a, b)),
        1 => Just(Reg::ProviderA),
        1 => Just(Reg::ProviderB),
    ];
    let ty = prop_oneof![5 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)];
    let id = prop_oneof![3 => 0u64..40, 1 => ids()];
    let ev = (0u8..3, id, ty, opt(ids()), opt(ns()), a_name(), blob(300)).prop_map(
        |(conn, id, ty, ref_id, ns, name, data)| In { conn, id, ty, ref_id, ns, name, data },
    );
    (role(), vec(reg, 0..7), vec(ev, 1..16), (io_plan(), io_plan()), any::<bool>())
        .prop_map(|(role, regs, events, io, burst)| Dispatch { role, regs, events, io, burst })
        .boxed()
}

// ------------------------------------------------------------------------------------------------- C06, from inside

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chatter {
    /// (namespace, name, by the server, data, how it is sent: 0 emit, 1 request, 2 stream)
    sends: Vec<(Option<u8>, u8, Blob, u8)>,
    client_regs: Vec<Reg>,
    server_regs: Vec<Reg>,
    io: (IoPlan, IoPlan),
    clients: u8,
}

/// Two real endpoints: what one emits reaches the handler of the other one
fn c06_both_ends(c: &Chatter) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let (srec, crec) = (Recorder::default(), Recorder::default());
        let (sb, smodel) = build(&c.server_regs, &srec);
        let (_, cmodel) = build(&c.client_regs, &crec);
        // a relay event makes the server emit the same to the client
        let sends = Arc::new(c.sends.clone());
        let s2 = sends.clone();
        let sb = sb.on("relay", move |ctx, event| {
            let s2 = s2.clone();
            Box::pin(async move {
                let i = event.data_raw()[0] as usize;
                let (ns, name, data, _) = &s2[i];
                let p = raw(data.bytes());
                match ns {
                    None => ctx.emit(NAMES[*name as usize], p).await?,
                    Some(ns) => ctx.emit_to(NAMESPACES[*ns as usize], NAMES[*name as usize], p).await?,
                };
                Ok(Response::empty())
            })
        });
        start_server(&net, sb).await?;
        let mut expected: Vec<(HashSet<String>, (Option<String>, String, Vec<u8>, u8))> = vec![];
        let mut cexpected: Vec<(HashSet<String>, (Option<String>, String, Vec<u8>, u8))> = vec![];
        let mut ctxs = vec![];
        for _ in 0..c.clients.max(1) {
            let (b, _) = build(&c.client_regs, &crec);
            ctxs.push(b.address(net.clone()).build_client().await.map_err(|e| format!("{e:?}"))?);
        }
        for (i, (ns, name, data, how)) in c.sends.iter().enumerate() {
            let ctx = &ctxs[i % ctxs.len()];
            let wire_ns = ns.map(|n| NAMESPACES[n as usize].to_string()).filter(|s| !s.is_empty());
            let name = NAMES[*name as usize];
            let p = raw(data.bytes());
            let e = match ns {
                None => ctx.emit(name, p),
                Some(n) => ctx.emit_to(NAMESPACES[*n as usize], name, p),
            };
            let key = (wire_ns.clone(), name.to_string(), data.bytes(), 0);
            expected.push((smodel.expected(&wire_ns, name), key.clone()));
            match how % 3 {
                0 => {
                    e.await.map_err(|e| format!("{e:?}"))?;
                }
                1 => {
                    // "error" may be answered by an error event
                    let r = e.await_reply().await;
                    ensure!(
                        matches!(r, Ok(_) | Err(IPCError::ErrorEvent(_))),
                        "a request to the server failed: {:?}",
                        r.map(|_| ())
                    );
                }
                _ => {
                    let _ = e.stream_replies().await.map_err(|e| format!("{e:?}"))?;
                }
            }
            // the server's emit is a reply to "relay" that nobody waits for
            ctx.emit("relay", raw(vec![i as u8])).await.map_err(|e| format!("{e:?}"))?;
            cexpected.push((cmodel.expected(&wire_ns, name), (key.0, key.1, key.2, 1)));
        }
        sleep_ms(100).await;
        let mut hits = 0;
        for (who, rec, expected) in [("server", &srec, &expected), ("client", &crec, &cexpected)] {
            let mut calls = rec.calls();
            for (tags, key) in expected {
                let fits = |c: &Call| {
                    (c.frame.ns.clone(), c.frame.name.clone(), c.frame.data.clone(), c.frame.ty) == *key && tags.contains(&c.tag)
                };
                match calls.iter().position(fits) {
                    Some(i) => {
                        hits += 1;
                        calls.remove(i);
                    }
                    None if tags.contains("") => {}
                    None => return Err(format!("{who}: {:?} {:?} must be handled by {tags:?}", key.0, key.1)),
                }
            }
            // whatever else the client got are answers that nobody waits for
            calls.retain(|c| c.frame.name != "error" || c.frame.ty != refcodec::ERROR);
            ensure!(
                calls.is_empty(),
                "{who}: handlers ran for {:?}",
                calls.iter().map(|c| format!("{} <- {}", c.tag, c.frame.short())).collect::<Vec<_>>()
            );
        }
        Ok(Info::new(hits > 0))
    })
}

fn chatter() -> BoxedStrategy<Chatter> {
    let send = || {
        (opt(a_namespace()), a_name(), blob(200), 0u8..3)
    };
    (dispatch(), dispatch(), vec(send(), 1..8), (io_plan(), io_plan()), 1u8..4)
        .prop_map(|(a, b, sends, io, clients)| Chatter { sends, client_regs: a.regs, server_regs: b.regs, io, clients })
        .boxed()
}

// --------------------------------------------------------------------------------------------- C06, many registrations

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    role: Role,
    /// global handlers
    globals: u16,
    /// handlers of each namespace
    spaces: Vec<u16>,
    /// they are registered in this order: a stride through all of them
    stride: u16,
    /// how namespaces are added
    added: bool,
    /// (connection, namespace, name); may be out of range
    probes: Vec<(u8, Option<u16>, u16)>,
    io: (IoPlan, IoPlan),
}

fn c06_crowd(c: &Crowd) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let rec = Recorder::default();
        let mut b = Builder::new();
        let order = |n: usize| {
            let k = (1..).map(|i| c.stride as usize + i).find(|k| (1..=n).all(|d| d == 1 || n % d != 0 || k % d != 0)).unwrap();
            (0..n).map(move |i| i * k % n.max(1))
        };
        for i in order(c.globals as usize) {
            b = b.on(&format!("h{i}"), recording(&rec, format!("h{i}")));
        }
        for i in order(c.spaces.len()) {
            let ns = format!("n{i}");
            let names = order(c.spaces[i] as usize).map(|j| (format!("h{j}"), format!("n{i}.h{j}")));
            if c.added {
                let mut eh = EventHandler::new();
                for (name, tag) in names {
                    eh.on(&name, recording(&rec, tag));
                }
                b = b.add_namespace(Namespace::new(ns, eh));
            } else {
                let mut nb = b.namespace(ns);
                for (name, tag) in names {
                    nb = nb.on(&name, recording(&rec, tag));
                }
                b = nb.build();
            }
        }
        let mut ep = endpoint(c.role, &net, b).await?;
        let n = ep.peers.len();
        let (mut hits, mut misses) = (0, 0);
        let mut expected = vec![];
        for (i, (conn, ns, name)) in c.probes.iter().enumerate() {
            let (space, title) = (ns.map(|s| format!("n{s}")), format!("h{name}"));
            let known = match ns {
                None => *name < c.globals,
                Some(s) => c.spaces.get(*s as usize).map(|k| name < k) == Some(true),
            };
            if known {
                hits += 1;
                expected.push((i as u64, space.iter().fold(title.clone(), |t, s| format!("{s}.{t}"))));
            } else {
                misses += 1;
            }
            ep.peers[*conn as usize % n].send(&Frame::new(i as u64, 0, None, space.as_deref(), &title, vec![])).await?;
        }
        let mut ends = 0;
        for p in &mut ep.peers {
            ends += p.drain(50).await?.len();
        }
        ensure!(ends == c.probes.len(), "{ends} answers to {} events", c.probes.len());
        let mut calls: Vec<_> = rec.calls().into_iter().map(|c| (c.frame.id, c.tag)).collect();
        calls.sort();
        ensure!(calls == expected, "handlers that ran: {calls:?} instead of {expected:?}");
        let handlers = c.globals as usize + c.spaces.iter().map(|s| *s as usize).sum::<usize>();
        Ok(Info::new(hits > 0)
            .label(misses > 0, "ignored events")
            .label(handlers > 300, "more than 300 handlers")
            .label(c.spaces.len() > 16, "more than 16 namespaces"))
    })
}

fn crowd() -> BoxedStrategy<Crowd> {
    let count = || prop_oneof![3 => 0u16..12, 2 => 0u16..70, 1 => 0u16..400];
    let spaces = prop_oneof![3 => vec(count(), 0..8), 1 => vec(0u16..6, 8..300)];
    (role(), count(), spaces, 0u16..1000, any::<bool>(), vec((any::<u8>(), opt(any::<u16>()), any::<u16>()), 1..40), (io_plan_coarse(), io_plan_coarse()))
        .prop_map(|(role, globals, spaces, stride, added, probes, io)| {
            // most of them are in range or just behind it
            let probes = probes
                .into_iter()
                .map(|(conn, ns, name)| {
                    let ns = ns.map(|s| s % (spaces.len() as u16 + 1));
                    let k = ns.map(|s| spaces.get(s as usize).copied().unwrap_or(3)).unwrap_or(globals);
                    (conn, ns, name % (k + 1))
                })
                .collect();
            Crowd { role, globals, spaces, stride, added, probes, io }
        })
        .boxed()
}

pub fn c06(r: &mut Runner) {
    r.rule("A case is non-trivial if at least one event must reach a handler.");
    r.part("raw peers", cases(200_000, 4_000_000), dispatch, c06_dispatch);
    r.part("both ends", cases(60_000, 1_000_000), chatter, c06_both_ends);
    r.part("many handlers", cases(40_000, 600_000), crowd, c06_crowd);
}

// ------------------------------------------------------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Emit(Option<u8>, u8, Blob),
    Sleep(u16),
    /// an emit that cannot be encoded
    EmitFails,
    /// a request back to the peer that is answered by the peer
    Request(u8, Blob),
    Stream(u8, u8),
    /// from another task with a clone of the context
    EmitElsewhere(u8, Blob),
    /// so many replies one after the other
    Many(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    Payload(Blob),
    Empty,
    Fail(String),
    /// any text, also a long one
    FailText(Text),
    /// other kinds of errors, with a text where they have one
    FailKind(u8, String),
    FailPayload,
}

fn failure(kind: u8, m: &str) -> IPCError {
    match kind % 8 {
        0 => IPCError::IoError(std::io::Error::new(std::io::ErrorKind::Other, m.to_string())),
        1 => IPCError::BuildError(m.to_string()),
        2 => IPCError::CorruptedEvent,
        3 => IPCError::SendError,
        4 => IPCError::Timeout,
        5 => IPCError::UnsupportedVersion(m.to_string()),
        6 => IPCError::InvalidState,
        // an error that the handler itself got from elsewhere
        _ => IPCError::ErrorEvent(bromine::error_event::ErrorEventData { code: 400 + kind as u16, message: m.to_string() }),
    }
}

/// As it is shown to users or to developers
fn shows(message: &str, e: &IPCError) -> bool {
    message.contains(&format!("{e}")) || message.contains(&format!("{e:?}"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script {
    steps: Vec<Step>,
    end: End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Handled {
    conn: u8,
    ty: u8,
    ref_id: Option<u64>,
    ns: bool,
    /// script, or an unregistered name
    script: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Answers {
    role: Role,
    scripts: Vec<Script>,
    events: Vec<Handled>,
    io: (IoPlan, IoPlan),
    burst: bool,
    /// where the ids of the peers begin
    #[serde(default)]
    base: u64,
}

async fn run_script(ctx: &Context, s: &Script) -> IPCResult<Response> {
    use futures::StreamExt;
    for step in &s.steps {
        match step {
            Step::Emit(None, name, data) => {
                ctx.emit(NAMES[*name as usize], raw(data.bytes())).await?;
            }
            Step::Emit(Some(ns), name, data) => {
                ctx.emit_to(NAMESPACES[*ns as usize], NAMES[*name as usize], raw(data.bytes())).await?;
            }
            Step::Sleep(ms) => sleep_ms(*ms as u64).await,
            Step::EmitFails => {
                if ctx.emit("never", MaybePayload(None)).await.is_ok() {
                    return Err("an emit without payload succeeded".into());
                }
            }
            Step::Request(name, data) => {
                let r = ctx.emit(format!("req{name}"), raw(data.bytes())).await_reply().await?;
                if r.data_raw() != &data.bytes()[..] {
                    return Err("the reply has other data".into());
                }
            }
            Step::Stream(name, n) => {
                let mut st = ctx.emit(format!("stream{name}.{n}"), raw(vec![])).stream_replies().await?;
                let mut got = 0;
                while let Some(x) = st.next().await {
                    x?;
                    got += 1;
                }
                if got != *n as usize + 1 {
                    return Err(format!("{got} replies streamed instead of {}", n + 1).into());
                }
            }
            Step::EmitElsewhere(name, data) => {
                let (ctx, name, data) = (ctx.clone(), *name, data.clone());
                tokio::spawn(async move { ctx.emit(NAMES[name as usize], raw(data.bytes())).await })
                    .await
                    .map_err(|_| IPCError::from("task"))??;
            }
            Step::Many(n) => {
                for i in 0..*n {
                    ctx.emit("item", raw(i.to_be_bytes().to_vec())).await?;
                }
            }
        }
    }
    match &s.end {
        End::Payload(b) => ctx.response(raw(b.bytes())),
        End::Empty => Ok(Response::empty()),
        End::Fail(m) => Err(m.clone().into()),
        End::FailText(t) => Err(t.get().into()),
        End::FailKind(k, m) => Err(failure(*k, m)),
        End::FailPayload => ctx.response(MaybePayload(None)),
    }
}

/// Plays the other end: answers requests, collects the rest
async fn play(mut peer: RawPeer, events: Vec<(Frame, bool)>, burst: bool) -> Result<Vec<Frame>, String> {
    let mut out = vec![];
    let mut queue: std::collections::VecDeque<_> = events.into();
    loop {
        if let Some((f, _)) = queue.pop_front() {
            peer.send(&f).await?;
            if burst && !queue.is_empty() {
                continue;
            }
        }
        // what arrives within a while that is longer than any script
        let wait = if queue.is_empty() { 20_000 } else { 3 };
        while let Ok(r) = tokio::time::timeout(Duration::from_millis(wait), peer.recv()).await {
            let Some(f) = r? else { return Ok(out) };
            if f.name.starts_with("req") {
                let id = peer.next_id;
                peer.next_id += 1;
                let reply = Frame::new(id, 1 + (id % 2) as u8, Some(f.id), Some("n0"), "e0", f.data.clone());
                peer.send(&reply).await?;
            } else if let Some(n) = f.name.strip_prefix("stream").and_then(|s| s.split_once('.')) {
                let n: u64 = n.1.parse().unwrap();
                for i in 0..=n {
                    let ty = if i == n { refcodec::END } else { refcodec::RESPONSE };
                    let id = peer.next_id;
                    peer.next_id += 1;
                    peer.send(&Frame::new(id, ty, Some(f.id), None, "e0", vec![])).await?;
                }
            }
            out.push(f);
        }
        if queue.is_empty() {
            return Ok(out);
        }
    }
}

fn c07_answers(c: &Answers) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let mut b = Builder::new();
        // replies that a waiter takes must not come here
        let rec = Recorder::default();
        let mut in_ns = EventHandler::new();
        for n in NAMES {
            if n != "error" {
                b = b.on(n, recording(&rec, format!("stray {n}")));
                in_ns.on(n, recording(&rec, format!("stray {n}")));
            }
        }
        b = b.add_namespace(Namespace::new("n0", in_ns));
        let mut nh = EventHandler::new();
        for (i, s) in c.scripts.iter().enumerate() {
            let (s1, s2) = (Arc::new(s.clone()), Arc::new(s.clone()));
            b = b.on(&format!("s{i}"), move |ctx, _| {
                let s = s1.clone();
                Box::pin(async move { run_script(ctx, &s).await })
            });
            nh.on(&format!("s{i}"), move |ctx, _| {
                let s = s2.clone();
                Box::pin(async move { run_script(ctx, &s).await })
            });
        }
        b = b.add_namespace(Namespace::new("scripts", nh));
        let mut ep = endpoint(c.role, &net, b).await?;
        let n = ep.peers.len();
        let mut per_conn: Vec<Vec<(Frame, bool)>> = vec![vec![]; n];
        let mut what: Vec<BTreeMap<u64, Option<Script>>> = vec![BTreeMap::new(); n];
        for (i, e) in c.events.iter().enumerate() {
            let conn = e.conn as usize % n;
            // the same ids are used on all connections
            let id = c.base.wrapping_add((i / n) as u64);
            let id = if what[conn].contains_key(&id) { c.base.wrapping_add(10_000 + i as u64) } else { id };
            let script = e.script.and_then(|s| c.scripts.get(s as usize).cloned().map(|x| (s, x)));
            let name = script.as_ref().map(|(s, _)| format!("s{s}")).unwrap_or("nobody".into());
            let ns = if e.ns { Some(if script.is_some() { "scripts" } else { "nowhere" }) } else { None };
            let f = Frame::new(id, e.ty, e.ref_id, ns, &name, vec![]);
            if f.ty != refcodec::END {
                what[conn].insert(id, script.map(|s| s.1));
            }
            per_conn[conn].push((f, true));
        }
        let tasks: Vec<_> = ep
            .peers
            .drain(..)
            .zip(per_conn)
            .map(|(p, ev)| tokio::spawn(play(p, ev, c.burst)))
            .collect();
        let mut outs = vec![];
        for t in tasks {
            outs.push(t.await.map_err(|e| format!("harness: {e}"))??);
        }
        let (mut answered, mut failed, mut emitted) = (0, 0, 0);
        for (conn, (out, what)) in outs.into_iter().zip(&what).enumerate() {
            let mut groups: BTreeMap<u64, Vec<Frame>> = BTreeMap::new();
            let mut seen_ids = HashSet::new();
            for f in out {
                let id = f.ref_id.ok_or_else(|| format!("connection {conn}: unexpected {}", f.short()))?;
                ensure!(seen_ids.insert(f.id), "the id {} was sent twice", f.id);
                groups.entry(id).or_default().push(f);
            }
            for (id, script) in what {
                let got = groups.remove(id).unwrap_or_default();
                check_answers(&got, script.as_ref()).map_err(|e| {
                    format!("event {id} with {script:?}: {e}; sent: {:?}", got.iter().map(|f| f.short()).collect::<Vec<_>>())
                })?;
                answered += 1;
                emitted += got.len() - 1;
                failed += usize::from(got.last().map(|f| f.ty == refcodec::ERROR) == Some(true));
            }
            ensure!(groups.is_empty(), "sent in answer to nothing: {:?}", groups);
        }
        ensure!(rec.len() == 0, "replies with a waiter came to a handler: {:?}", rec.calls()[0]);
        Ok(Info::new(emitted > 0 || failed > 0)
            .label(emitted > 0, "handlers emit")
            .label(failed > 0, "handlers fail")
            .label(answered > 1, "several events")
            .label(c.scripts.iter().any(|s| s.steps.iter().any(|s| matches!(s, Step::Request(..) | Step::Stream(..)))), "handlers request"))
    })
}

fn check_answers(got: &[Frame], script: Option<&Script>) -> Result<(), String> {
    let empty = Script { steps: vec![], end: End::Empty };
    let script = script.unwrap_or(&empty);
    let mut it = got.iter();
    for s in &script.steps {
        let (ns, name, data) = match s {
            Step::Emit(ns, name, data) => {
                (ns.map(|n| NAMESPACES[n as usize].to_string()).filter(|s| !s.is_empty()), NAMES[*name as usize].to_string(), data.bytes())
            }
            Step::EmitElsewhere(name, data) => (None, NAMES[*name as usize].to_string(), data.bytes()),
            Step::Request(name, data) => (None, format!("req{name}"), data.bytes()),
            Step::Stream(name, n) => (None, format!("stream{name}.{n}"), vec![]),
            Step::Many(n) => {
                for i in 0..*n {
                    let f = it.next().ok_or("one of many replies is missing")?;
                    ensure!(
                        f.ty == refcodec::RESPONSE && f.ns.is_none() && f.name == "item" && f.data == i.to_be_bytes(),
                        "one of many replies is wrong or out of order: {}",
                        f.short()
                    );
                }
                continue;
            }
            Step::Sleep(_) | Step::EmitFails => continue,
        };
        let f = it.next().ok_or("an emitted reply is missing")?;
        ensure!(f.ty == refcodec::RESPONSE, "a reply has the type {}", f.ty);
        ensure!(f.ns == ns && f.name == name && f.data == data, "a reply is wrong or out of order: {}", f.short());
    }
    let last = it.next().ok_or("there is no terminating event")?;
    ensure!(it.next().is_none(), "there is something after the terminating event");
    match &script.end {
        End::Payload(b) => {
            ensure!(last.ty == refcodec::END, "not terminated by an end event");
            ensure!(last.data == b.bytes(), "the end event has other data");
        }
        End::Empty => {
            ensure!(last.ty == refcodec::END, "not terminated by an end event");
            ensure!(last.data.is_empty(), "the end event has data");
        }
        End::Fail(_) | End::FailText(_) | End::FailKind(..) | End::FailPayload => {
            ensure!(last.ty == refcodec::ERROR, "not terminated by an error event");
            let (code, m) = parse_error(&last.data)?;
            ensure!(code == 500, "the error code is {code}");
            let (shown, text) = match &script.end {
                End::Fail(t) => (m.contains(t.as_str()), t.clone()),
                End::FailText(t) => (shows(&m, &IPCError::Message(t.get())), t.get()),
                End::FailKind(k, t) => (shows(&m, &failure(*k, t)), format!("{:?}", failure(*k, t))),
                _ => (m.contains("cannot be encoded"), "cannot be encoded".into()),
            };
            ensure!(
                shown,
                "the message {:?} ({} bytes) does not show the error {:?} ({} bytes)",
                m.chars().take(200).collect::<String>(),
                m.len(),
                text.chars().take(200).collect::<String>(),
                text.len()
            );
        }
    }
    Ok(())
}

fn answers() -> BoxedStrategy<Answers> {
    let name = a_name;
    // "error" events would run the default handler of the peer only; any name may be emitted
    let step = prop_oneof![
        6 => (opt(a_namespace()), name(), blob(300)).prop_map(|(a, b, c)| Step::Emit(a, b, c)),
        2 => (0u16..300).prop_map(Step::Sleep),
        1 => Just(Step::EmitFails),
        1 => (0u8..5, blob(100)).prop_map(|(a, b)| Step::Request(a, b)),
        1 => (0u8..5, 0u8..5).prop_map(|(a, b)| Step::Stream(a, b)),
        1 => (name(), blob(100)).prop_map(|(a, b)| Step::EmitElsewhere(a, b)),
    ];
    let step = prop_oneof![60 => step, 1 => (1u16..200).prop_map(Step::Many)];
    let long = prop_oneof![4 => text(20).prop_map(Text::Lit), 1 => (chars(), 100u32..9_000).prop_map(|(c, n)| Text::Rep(c, n))];
    let end = prop_oneof![
        6 => blob(2000).prop_map(End::Payload),
        4 => Just(End::Empty),
        3 => "[a-z]{1,12}".prop_map(End::Fail),
        1 => long.prop_map(End::FailText),
        1 => (any::<u8>(), "[a-z]{0,8}").prop_map(|(k, m)| End::FailKind(k, m)),
        2 => Just(End::FailPayload),
    ];
    let script = (vec(step, 0..6), end).prop_map(|(steps, end)| Script { steps, end });
    let ty = prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)];
    let ev = (0u8..3, ty, opt(ids()), any::<bool>(), prop_oneof![5 => (0u8..4).prop_map(Some), 1 => Just(None)])
        .prop_map(|(conn, ty, ref_id, ns, script)| Handled { conn, ty, ref_id, ns, script });
    (role(), vec(script, 1..4), vec(ev, 1..9), (io_plan(), io_plan()), any::<bool>(), ids())
        .prop_map(|(role, scripts, events, io, burst, base)| Answers { role, scripts, events, io, burst, base })
        .boxed()
}

pub fn c07(r: &mut Runner) {
    r.rule("A case is non-trivial if a handler emits at least one reply or fails.");
    r.part("scripts", cases(200_000, 4_000_000), answers, c07_answers);
    // the same at a larger scale
    let large = || {
        let step = prop_oneof![
            2 => (1000u16..5000).prop_map(Step::Many),
            1 => (opt(a_namespace()), a_name(), blob(200_000)).prop_map(|(a, b, c)| Step::Emit(a, b, c)),
            1 => (0u8..5, blob(200_000)).prop_map(|(a, b)| Step::Request(a, b)),
            1 => (0u16..300).prop_map(Step::Sleep),
        ];
        let end = prop_oneof![
            1 => blob(300_000).prop_map(End::Payload),
            1 => (chars(), 1000u32..150_000).prop_map(|(c, n)| End::FailText(Text::Rep(c, n))),
        ];
        let script = (vec(step, 0..3), end).prop_map(|(steps, end)| Script { steps, end });
        let ev = (0u8..3, opt(ids()), any::<bool>(), 0u8..3)
            .prop_map(|(conn, ref_id, ns, s)| Handled { conn, ty: 0, ref_id, ns, script: Some(s) });
        (role(), vec(script, 1..3), prop_oneof![2 => vec(ev.clone(), 1..6), 1 => vec(ev, 6..30)], (io_plan_coarse(), io_plan_coarse()), any::<bool>())
            .prop_map(|(role, scripts, events, io, burst)| Answers { role, scripts, events, io, burst, base: 100 })
    };
    r.part("large", cases(1_500, 30_000), large, c07_answers);
    let huge = || {
        let step = (opt(a_namespace()), a_name(), huge_blob(19, 24)).prop_map(|(a, b, c)| Step::Emit(a, b, c));
        let end = prop_oneof![
            2 => huge_blob(19, 25).prop_map(End::Payload),
            1 => (chars(), 200_000u32..6_000_000).prop_map(|(c, n)| End::FailText(Text::Rep(c, n))),
        ];
        let script = (vec(step, 0..2), end).prop_map(|(steps, end)| Script { steps, end });
        let ev = (0u8..3, opt(ids()), any::<bool>()).prop_map(|(conn, ref_id, ns)| Handled { conn, ty: 0, ref_id, ns, script: Some(0) });
        (role(), script, vec(ev, 1..3), any::<bool>()).prop_map(|(role, script, events, burst)| Answers {
            role,
            scripts: vec![script],
            events,
            io: Default::default(),
            burst,
            base: 100,
        })
    };
    r.part("huge", cases(64, 600), huge, c07_answers);
}
