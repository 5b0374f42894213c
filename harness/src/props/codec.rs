//! C01 (round trip and layout), C02 (events that do not fit), C03 (arbitrary bytes)
use crate::ensure;
use crate::gen::*;
use crate::refcodec::{self, Frame, Verdict};
use crate::runner::{cases, Info, Outcome, Runner};
use crate::sim::{self, IoPlan, Net};
use crate::util::*;
use bromine::event::EventType;
use bromine::prelude::*;
use bytes::Bytes;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use tokio::io::AsyncWriteExt;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ev {
    ty: u8,
    id: u64,
    ref_id: u64,
    ns: Option<Text>,
    name: Text,
    data: Blob,
}

impl Ev {
    fn frame(&self, id: u64) -> Frame {
        let ns = self.ns.as_ref().map(|n| n.get()).filter(|n| !n.is_empty());
        Frame {
            id,
            ty: self.ty,
            ref_id: if self.ty == 0 { None } else { Some(self.ref_id) },
            ns,
            name: self.name.get(),
            data: self.data.bytes(),
        }
    }

    fn build(&self) -> Event {
        let (ns, name, data) = (self.ns.as_ref().map(|n| n.get()), self.name.get(), Bytes::from(self.data.bytes()));
        match self.ty {
            0 => Event::initiator(ns, name, data),
            1 => Event::response(ns, name, data, self.ref_id),
            2 => Event::end(ns, name, data, self.ref_id),
            _ => Event::error(ns, name, data, self.ref_id),
        }
    }
}

fn ev(max_data: u32) -> impl Strategy<Value = Ev> {
    (0u8..4, ids(), ids(), opt(name()), name(), blob(max_data))
        .prop_map(|(ty, id, ref_id, ns, name, data)| Ev { ty, id, ref_id, ns, name, data })
}

fn check_event(e: &Event, f: &Frame, what: &str) -> Result<(), String> {
    ensure!(e.id() == f.id, "{what}: id {} instead of {}", e.id(), f.id);
    ensure!(type_num(e.event_type()) == f.ty, "{what}: type {:?} instead of {}", e.event_type(), f.ty);
    ensure!(e.reference_id() == f.ref_id, "{what}: reference {:?} instead of {:?}", e.reference_id(), f.ref_id);
    ensure!(e.namespace() == &f.ns, "{what}: namespace {:?} instead of {:?}", e.namespace(), f.ns);
    ensure!(e.name() == f.name, "{what}: name {:?} instead of {:?}", e.name(), f.name);
    ensure!(e.data_raw() == &f.data[..], "{what}: {} bytes of other data", e.data_raw().len());
    let p: BytePayload = e.payload().map_err(|e| format!("{what}: payload: {e}"))?;
    ensure!(p.into_inner() == f.data, "{what}: raw payload differs from the data");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RoundTrip {
    events: Vec<Ev>,
    io: IoPlan,
}

/// A reader that delivers the bytes in the splits of the plan and then ends
async fn reader(bytes: &[u8], io: &IoPlan) -> (sim::SimRead, sim::Wires) {
    let (client, server, wires) = sim::pair(&IoPlan::default(), io);
    let mut w = client.write;
    w.write_all(bytes).await.unwrap();
    w.shutdown().await.unwrap();
    (server.read, wires)
}

fn c01_round_trip(c: &RoundTrip) -> Outcome {
    run_virtual(async {
        let mut all = vec![];
        let mut frames = vec![];
        for e in &c.events {
            let event = e.build();
            let f = e.frame(event.id());
            // a fresh event reports what it was made of
            ensure!(event.namespace().clone().filter(|n| !n.is_empty()) == f.ns, "new event: namespace");
            ensure!(event.name() == f.name && event.reference_id() == f.ref_id, "new event: name or reference");
            ensure!(type_num(event.event_type()) == f.ty, "new event: type {:?}, not {}", event.event_type(), f.ty);
            let bytes = event.into_bytes().map_err(|e| format!("encoding failed: {e}"))?;
            let expected = f.encode();
            ensure!(
                bytes[..] == expected[..],
                "the encoding of {} differs from the documented layout at byte {:?}",
                f.short(),
                bytes.iter().zip(&expected).position(|(a, b)| a != b).unwrap_or(bytes.len().min(expected.len()))
            );
            all.extend_from_slice(&bytes);
            frames.push(f);
        }
        let (mut r, wires) = reader(&all, &c.io).await;
        let mut at = 0u64;
        for (i, f) in frames.iter().enumerate() {
            let e = Event::from_async_read(&mut r).await.map_err(|e| format!("decoding event {i} failed: {e:?}"))?;
            check_event(&e, f, &format!("event {i}"))?;
            at += f.encode().len() as u64;
            let read = wires.client_to_server.bytes_read();
            ensure!(read == at, "decoding event {i} consumed {read} bytes up to there instead of {at}");
        }
        ensure!(Event::from_async_read(&mut r).await.is_err(), "an event was decoded from nothing");
        Ok(Info::new(!c.events.is_empty())
            .label(c.events.len() > 1, "several events")
            .label(!c.io.is_plain(), "split reads")
            .label(c.events.iter().any(|e| e.data.n == 0), "empty payload")
            .label(c.events.iter().any(|e| e.data.n > 65536), "payload over 64 KiB")
            .label(c.events.iter().any(|e| !e.name.get().is_ascii()), "non-ASCII name")
            .label(c.events.iter().any(|e| e.ns == Some(Text::Lit(String::new()))), "empty namespace"))
    })
}

/// Frames built by the reference are understood and encoded to the same bytes again
fn c01_reference(c: &RoundTrip) -> Outcome {
    run_virtual(async {
        let mut all = vec![];
        let frames: Vec<Frame> = c
            .events
            .iter()
            .map(|e| {
                let mut f = e.frame(e.id);
                // any type can carry a reference or none
                f.ref_id = if e.ref_id % 2 == 0 { Some(e.ref_id) } else { None };
                all.extend(f.encode());
                f
            })
            .collect();
        let (mut r, _w) = reader(&all, &c.io).await;
        for (i, f) in frames.iter().enumerate() {
            let e = Event::from_async_read(&mut r).await.map_err(|e| format!("decoding event {i} failed: {e:?}"))?;
            check_event(&e, f, &format!("event {i}"))?;
            let again = e.into_bytes().map_err(|e| format!("encoding a decoded event failed: {e}"))?;
            ensure!(again[..] == f.encode()[..], "a decoded event is encoded differently: {}", f.short());
        }
        Ok(Info::new(!c.events.is_empty()).label(c.events.iter().any(|e| e.ns.is_some()), "namespace"))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wire {
    events: Vec<Ev>,
    client: IoPlan,
    server: IoPlan,
}

/// What an endpoint writes for its emits is the documented encoding, with the id that emitting reports
fn c01_wire(c: &Wire) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![(c.client.clone(), c.server.clone())]);
        let (ctx, mut peer) = client_and_raw(&net, Builder::new()).await?;
        let reader = tokio::spawn(async move { peer.drain(60_000).await });
        let mut expected = vec![];
        let mut frames = vec![];
        for e in &c.events {
            let data = raw(e.data.bytes());
            let id = match &e.ns {
                Some(ns) => ctx.emit_to(ns.get(), e.name.get(), data).await,
                None => ctx.emit(e.name.get(), data).await,
            }
            .map_err(|e| format!("emit failed: {e:?}"))?;
            let f = Frame { ty: refcodec::INITIATOR, ref_id: None, ..e.frame(id) };
            expected.extend(f.encode());
            frames.push(f);
        }
        let got = reader.await.unwrap()?;
        ensure!(got == frames, "the peer received other events than were emitted: {:?}",
            got.iter().zip(&frames).find(|(a, b)| a != b).map(|(a, b)| diff(a, b)));
        ensure!(net.wires(0).client_to_server.log() == expected, "the bytes on the connection differ from the documented layout");
        Ok(Info::new(c.events.len() > 1).label(!c.client.is_plain(), "split writes"))
    })
}

pub fn c01(r: &mut Runner) {
    r.rule("Non-trivial: at least one event (wire: two). Events of all four kinds with arbitrary names, namespaces, ids and payloads, alone and concatenated, read in generated splits; the expected bytes come from an independent encoder.");
    let round = || (vec(ev(5000), 0..6), io_plan()).prop_map(|(events, io)| RoundTrip { events, io });
    let big = || (vec(ev(400_000), 1..3), io_plan_coarse()).prop_map(|(events, io)| RoundTrip { events, io });
    r.part("round_trip", cases(120_000, 2_000_000), round, c01_round_trip);
    r.part("big", cases(3000, 40_000), big, c01_round_trip);
    // payloads of 1 to 64 MiB
    let huge = || {
        (ev(10), huge_blob(20, 26)).prop_map(|(e, data)| RoundTrip { events: vec![Ev { data, ..e }], io: IoPlan::default() })
    };
    r.part("huge", cases(32, 800), huge, c01_round_trip);
    r.part("reference", cases(80_000, 1_500_000), round, c01_reference);
    r.part(
        "wire",
        cases(40_000, 600_000),
        || {
            (vec(ev(5000), 1..6), io_plan(), io_plan())
                .prop_map(|(events, client, server)| Wire { events, client, server })
        },
        c01_wire,
    );
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Limit {
    ty: u8,
    ns: Option<Text>,
    name: Text,
    data: Blob,
}

/// Lengths of namespace and name around the limits of the format
fn limit() -> BoxedStrategy<Limit> {
    let total = prop_oneof![
        4 => (65_535i64 - 6)..(65_535 + 7),
        2 => (131_072i64 - 40)..(131_072 + 40),
        2 => 65_536i64..200_000,
        1 => 0i64..65_535,
    ];
    let ch = prop::sample::select(vec!['a', 'é', '中']);
    (0u8..4, total, 0u32..1000, ch, any::<bool>(), blob(100))
        .prop_map(|(ty, header, share, ch, has_ns, data)| {
            // bytes for both names in a header of the wanted length
            let fixed = if ty == 0 { 17 } else { 25 };
            let names = (header - fixed).max(0) as u64;
            let ns_len = if has_ns { names * share as u64 / 1000 } else { 0 };
            let name_len = names - ns_len;
            let w = ch.len_utf8() as u64;
            // fill up with single bytes so that every length can be reached
            let make = |n: u64| {
                if n % w == 0 {
                    Text::Rep(ch, (n / w) as u32)
                } else {
                    Text::Rep('a', n as u32)
                }
            };
            Limit { ty, ns: if has_ns { Some(make(ns_len)) } else { None }, name: make(name_len), data }
        })
        .boxed()
}

fn c02_encode(c: &Limit) -> Outcome {
    let e = Ev { ty: c.ty, id: 0, ref_id: 77, ns: c.ns.clone(), name: c.name.clone(), data: c.data.clone() };
    let event = e.build();
    let f = e.frame(event.id());
    let header = 17 + if c.ty == 0 { 0 } else { 8 } + f.ns.as_ref().map(|n| n.len()).unwrap_or(0) + f.name.len();
    let fits = header <= 65_535;
    match event.into_bytes() {
        Ok(b) => {
            ensure!(fits, "an event with a header of {header} bytes was encoded");
            ensure!(b[..] == f.encode()[..], "the encoding of {} is wrong", f.short());
        }
        Err(e) => ensure!(!fits, "an event with a header of {header} bytes was refused: {e}"),
    }
    Ok(Info::new(header > 60_000)
        .label(fits, "fits")
        .label(!fits, "too long")
        .label(header.abs_diff(65_535) <= 2, "within 2 of the limit"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Emit {
    what: Limit,
    kind: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mixed {
    emits: Vec<Emit>,
    concurrent: bool,
    client: IoPlan,
    server: IoPlan,
}

fn c02_connection(c: &Mixed) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![(c.client.clone(), c.server.clone())]);
        let (ctx, peer) = client_and_raw(&net, Builder::new().timeout(Duration::from_secs(500))).await?;
        let start = tokio::time::Instant::now();
        let reader = tokio::spawn(async move {
            let mut peer = peer;
            let mut got = vec![];
            // answer requests, so that they end
            loop {
                match tokio::time::timeout(Duration::from_secs(1000), peer.recv()).await {
                    Err(_) | Ok(Ok(None)) => return Ok((got, peer)),
                    Ok(Err(e)) => return Err(e),
                    Ok(Ok(Some(f))) => {
                        let end = Frame::new(f.id, refcodec::END, Some(f.id), None, "end", vec![1]);
                        peer.send(&end).await?;
                        got.push(f)
                    }
                }
            }
        });
        let mut tasks = vec![];
        let mut results = vec![];
        for e in &c.emits {
            let ctx = ctx.clone();
            let e2 = e.clone();
            let h = tokio::spawn(async move {
                let data = raw(e2.what.data.bytes());
                let m = match &e2.what.ns {
                    Some(ns) => ctx.emit_to(ns.get(), e2.what.name.get(), data),
                    None => ctx.emit(e2.what.name.get(), data),
                };
                match e2.kind {
                    0 => m.await.map(Some),
                    1 => m.await_reply().await.map(|_| None),
                    _ => m.stream_replies().await.map(|_| None),
                }
            });
            if c.concurrent {
                tasks.push(h)
            } else {
                results.push(h.await.map_err(|e| format!("panic: {e}"))?)
            }
        }
        for h in tasks {
            results.push(h.await.map_err(|e| format!("panic: {e}"))?)
        }
        ensure!(
            now_ms(start) < 400_000 ,
            "an emit that does not fit was only given up after {} ms", now_ms(start)
        );
        let (got, _peer) = reader.await.unwrap()?;
        let mut expected = vec![];
        for (e, r) in c.emits.iter().zip(&results) {
            let f = Ev { ty: 0, id: 0, ref_id: 0, ns: e.what.ns.clone(), name: e.what.name.clone(), data: e.what.data.clone() }
                .frame(0);
            let header = 17 + f.ns.as_ref().map(|n| n.len()).unwrap_or(0) + f.name.len();
            match r {
                Ok(id) => {
                    ensure!(header <= 65_535, "emitting an event with a header of {header} bytes succeeded");
                    expected.push(Frame { id: id.unwrap_or(0), ..f });
                }
                Err(e) => ensure!(header > 65_535, "emitting an event with a header of {header} bytes failed: {e:?}"),
            }
        }
        ensure!(got.len() == expected.len(), "the peer received {} events instead of {}", got.len(), expected.len());
        let strip = |f: &Frame, id: bool| Frame { id: if id { f.id } else { 0 }, ..f.clone() };
        if !c.concurrent {
            for (g, x) in got.iter().zip(&expected) {
                ensure!(strip(g, x.id != 0) == *x, "the peer received another event: {}", diff(g, x));
            }
        } else {
            let mut rest = got.clone();
            for x in &expected {
                let at = rest.iter().position(|g| strip(g, x.id != 0) == *x);
                ensure!(at.is_some(), "an emitted event did not arrive intact: {}", x.short());
                rest.remove(at.unwrap());
            }
        }
        let long = c.emits.iter().zip(&results).filter(|(_, r)| r.is_err()).count();
        Ok(Info::new(long > 0 && expected.len() > 0)
            .label(c.concurrent, "concurrent")
            .label(long > 1, "several refused"))
    })
}

/// A handler that replies with an event that does not fit
fn c02_handler(c: &Emit) -> Outcome {
    run_virtual(async {
        let net = Net::default();
        let what = c.what.clone();
        let b = Builder::new().on("go", move |ctx: &Context, _e: Event| {
            let what = what.clone();
            Box::pin(async move {
                let data = raw(what.data.bytes());
                match &what.ns {
                    Some(ns) => ctx.emit_to(ns.get(), what.name.get(), data).await?,
                    None => ctx.emit(what.name.get(), data).await?,
                };
                Ok(Response::empty())
            })
        });
        let mut peer = server_and_raw(&net, b).await?;
        for id in [5u64, 6] {
            peer.send(&Frame::new(id, refcodec::INITIATOR, None, None, "go", vec![])).await?;
        }
        let got = peer.drain(1000).await?;
        let ns = c.what.ns.as_ref().map(|n| n.get()).filter(|n| !n.is_empty());
        let header = 25 + ns.as_ref().map(|n| n.len()).unwrap_or(0) + c.what.name.get().len();
        for id in [5u64, 6] {
            let mine: Vec<&Frame> = got.iter().filter(|f| f.ref_id == Some(id)).collect();
            if header <= 65_535 {
                ensure!(mine.len() == 2, "{} replies instead of 2", mine.len());
                ensure!(
                    mine[0].name == c.what.name.get() && mine[0].ns == ns && mine[0].data == c.what.data.bytes(),
                    "another reply: {}", mine[0].short()
                );
                ensure!(mine[1].ty == refcodec::END, "no end event: {}", mine[1].short());
            } else {
                ensure!(mine.len() == 1, "{} replies instead of 1 error", mine.len());
                ensure!(mine[0].ty == refcodec::ERROR, "no error event: {}", mine[0].short());
            }
        }
        ensure!(got.iter().all(|f| matches!(f.ref_id, Some(5) | Some(6))), "events that answer nothing");
        Ok(Info::new(header > 60_000).label(header > 65_535, "too long"))
    })
}

pub fn c02(r: &mut Runner) {
    r.rule("Non-trivial: header longer than 60000 bytes (connection: at least one refused and one accepted event). Lengths of namespace and name are generated around 65535 and its multiples, in all encodings of the header.");
    r.part("encode", cases(600_000, 8_000_000), limit, c02_encode);
    r.part(
        "connection",
        cases(60_000, 800_000),
        || {
            let ordinary = (opt(name()), name(), blob(200)).prop_map(|(ns, name, data)| Limit { ty: 0, ns, name, data });
            let long = limit().prop_map(|mut l| {
                l.ty = 0;
                l
            });
            let emit = (prop_oneof![ordinary.boxed(), long.boxed()], prop_oneof![3 => Just(0u8), 1 => Just(1), 1 => Just(2)])
                .prop_map(|(what, kind)| Emit { what, kind });
            (vec(emit, 1..7), any::<bool>(), io_plan_coarse(), io_plan_coarse())
                .prop_map(|(emits, concurrent, client, server)| Mixed { emits, concurrent, client, server })
        },
        c02_connection,
    );
    r.part(
        "handler",
        cases(50_000, 600_000),
        || (limit(), Just(0u8)).prop_map(|(mut what, kind)| {
            what.ty = 1;
            Emit { what, kind }
        }),
        c02_handler,
    );
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
    Flip(u16, u8),
    Set(u16, u8),
    Truncate(u16),
    Insert(u16, Vec<u8>),
    Remove(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shaped {
    version: [u8; 3],
    id: u64,
    ty: u8,
    ref_id: Option<u64>,
    ref_flag: Option<u8>,
    ns: Vec<u8>,
    ns_len: Option<u16>,
    name: Vec<u8>,
    name_len: Option<u16>,
    extra: Vec<u8>,
    data: Blob,
    total: Option<u64>,
    total_delta: i8,
    header_len: Option<u16>,
}

impl Shaped {
    fn bytes(&self) -> Vec<u8> {
        let mut h = refcodec::header_raw(
            self.version, self.id, self.ty, self.ref_id, self.ref_flag, &self.ns, self.ns_len, &self.name, self.name_len,
        );
        h.extend_from_slice(&self.extra);
        let data = self.data.bytes();
        let total = self.total.or_else(|| {
            (self.total_delta != 0).then(|| ((h.len() + data.len()) as u64).wrapping_add(self.total_delta as i64 as u64))
        });
        refcodec::frame_raw(&h, &data, total, self.header_len)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Input {
    Shaped(Box<Shaped>, Vec<Mutation>),
    Random(Vec<u8>),
}

impl Input {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Input::Random(b) => b.clone(),
            Input::Shaped(s, muts) => {
                let mut b = s.bytes();
                for m in muts {
                    let n = b.len().max(1);
                    match m {
                        Mutation::Flip(i, bit) if !b.is_empty() => b[*i as usize % n] ^= 1 << (bit % 8),
                        Mutation::Set(i, v) if !b.is_empty() => b[*i as usize % n] = *v,
                        Mutation::Truncate(i) => b.truncate(*i as usize % (n + 1)),
                        Mutation::Insert(i, v) => {
                            let at = *i as usize % (b.len() + 1);
                            b.splice(at..at, v.iter().copied());
                        }
                        Mutation::Remove(i, k) if !b.is_empty() => {
                            let at = *i as usize % n;
                            let to = (at + *k as usize).min(b.len());
                            b.drain(at..to);
                        }
                        _ => {}
                    }
                }
                b
            }
        }
    }
}

fn shaped() -> impl Strategy<Value = Shaped> {
    let version = prop_oneof![
        6 => Just([0, 9, 0]),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| [0, a, b]),
        1 => any::<[u8; 3]>(),
    ];
    let rare_len = prop_oneof![10 => Just(None), 1 => any::<u16>().prop_map(Some), 1 => (0u16..30).prop_map(Some)];
    let txt = prop_oneof![
        6 => text(8).prop_map(String::into_bytes),
        1 => vec(any::<u8>(), 0..8),
        1 => (100usize..30_000).prop_map(|n| vec![b'q'; n]),
    ];
    let total = prop_oneof![
        12 => Just(None),
        1 => any::<u64>().prop_map(Some),
        1 => (0u64..200).prop_map(Some),
        1 => (0u32..64).prop_map(|s| Some((1u64 << s).wrapping_sub(1))),
    ];
    let head = (
        version,
        ids(),
        prop_oneof![8 => 0u8..4, 1 => any::<u8>()],
        opt(ids()),
        prop_oneof![12 => Just(None), 1 => any::<u8>().prop_map(Some)],
    );
    let names = (txt.clone(), rare_len.clone(), txt, rare_len.clone());
    let tail = (
        prop_oneof![4 => Just(vec![]), 2 => vec(any::<u8>(), 1..20), 1 => (20usize..3000).prop_map(|n| vec![7u8; n])],
        blob(3000),
        total,
        prop_oneof![10 => Just(0i8), 1 => any::<i8>()],
        rare_len,
    );
    (head, names, tail).prop_map(|(h, n, t)| Shaped {
        version: h.0,
        id: h.1,
        ty: h.2,
        ref_id: h.3,
        ref_flag: h.4,
        ns: n.0,
        ns_len: n.1,
        name: n.2,
        name_len: n.3,
        extra: t.0,
        data: t.1,
        total: t.2,
        total_delta: t.3,
        header_len: t.4,
    })
}

fn mutation() -> impl Strategy<Value = Mutation> {
    // mostly within the header
    let at = || prop_oneof![4 => 0u16..60, 1 => any::<u16>()];
    prop_oneof![
        3 => (at(), 0u8..8).prop_map(|(a, b)| Mutation::Flip(a, b)),
        3 => (at(), prop_oneof![Just(0u8), Just(255), any::<u8>()]).prop_map(|(a, b)| Mutation::Set(a, b)),
        3 => at().prop_map(Mutation::Truncate),
        1 => (at(), vec(any::<u8>(), 1..6)).prop_map(|(a, b)| Mutation::Insert(a, b)),
        1 => (at(), 1u8..6).prop_map(|(a, b)| Mutation::Remove(a, b)),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes3 {
    inputs: Vec<Input>,
    io: IoPlan,
}

async fn decode_like_reference(bytes: &[u8], io: &IoPlan, info: &mut Info) -> Result<(), String> {
    let (mut r, wires) = reader(bytes, io).await;
    let mut rest = bytes;
    let mut consumed = 0u64;
    loop {
        let verdict = refcodec::decode(rest);
        crate::alloc::reset_max_request();
        let live = crate::alloc::live();
        let got = Event::from_async_read(&mut r).await;
        let max = crate::alloc::max_request();
        let bound = 4 * bytes.len() + (256 << 10);
        ensure!(max <= bound, "{max} bytes were allocated at once for an input of {} bytes", bytes.len());
        ensure!(crate::alloc::live() - live <= bound as isize, "memory out of proportion for {} bytes", bytes.len());
        match (&verdict, got) {
            (Verdict::Event(f, n), Ok(e)) => {
                check_event(&e, f, "decoded event")?;
                consumed += *n as u64;
                let read = wires.client_to_server.bytes_read();
                ensure!(read == consumed, "{read} bytes were consumed up to here instead of {consumed}");
                info.add_label(true, "valid event");
                info.nontrivial = true;
                rest = &rest[*n..];
            }
            (Verdict::Event(f, _), Err(e)) => return Err(format!("a valid event was rejected with {e:?}: {}", f.short())),
            (v, Ok(e)) => {
                return Err(format!("bytes that are no event ({v:?}) were decoded to {}", to_frame(&e).short()))
            }
            (Verdict::Unsupported(v), Err(e)) => {
                let total = u64::from_be_bytes(rest[..8].try_into().unwrap());
                if rest.len() as u64 >= total.saturating_add(10) {
                    ensure!(
                        matches!(e, IPCError::UnsupportedVersion(_)),
                        "version {v:?} was rejected with {e:?} and not as unsupported"
                    );
                }
                info.add_label(true, "unsupported version");
                info.nontrivial = true;
                return Ok(());
            }
            (Verdict::Corrupt(w), Err(_)) => {
                info.add_label(true, w);
                info.nontrivial = true;
                return Ok(());
            }
            (Verdict::Incomplete, Err(_)) => {
                info.add_label(!rest.is_empty(), "incomplete");
                info.nontrivial |= rest.len() > 10;
                return Ok(());
            }
        }
    }
}

fn c03_decode(c: &Bytes3) -> Outcome {
    run_virtual(async {
        let mut info = Info::new(false);
        let mut bytes = vec![];
        for i in &c.inputs {
            bytes.extend(i.bytes());
        }
        decode_like_reference(&bytes, &c.io, &mut info).await?;
        info.add_label(!c.io.is_plain(), "split reads");
        info.labels.dedup();
        Ok(info)
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    ev: Ev,
    at: u16,
    io: IoPlan,
}

/// A valid frame cut off at any byte
fn c03_cut(c: &Cut) -> Outcome {
    run_virtual(async {
        let f = c.ev.frame(c.ev.id);
        let bytes = f.encode();
        let at = c.at as usize % bytes.len();
        let (mut r, _w) = reader(&bytes[..at], &c.io).await;
        match Event::from_async_read(&mut r).await {
            Err(_) => Ok(Info::new(at > 0).label(at > f.header().len() + 10, "cut within the payload")),
            Ok(e) => Err(format!("{at} of {} bytes were decoded to {}", bytes.len(), to_frame(&e).short())),
        }
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OnConnection {
    inputs: Vec<Input>,
    on_server: bool,
    io: IoPlan,
}

/// The same bytes sent to an endpoint: it handles exactly the events in front of the first undecodable one
fn c03_connection(c: &OnConnection) -> Outcome {
    run_virtual(async {
        let mut bytes = vec![];
        for i in &c.inputs {
            bytes.extend(i.bytes());
        }
        let rec = Recorder::default();
        let frames: Vec<Frame> = {
            let mut rest = &bytes[..];
            let mut frames = vec![];
            while let Verdict::Event(f, n) = refcodec::decode(rest) {
                frames.push(f);
                rest = &rest[n..];
            }
            frames
        };
        let mut b = Builder::new();
        let mut spaces: std::collections::BTreeMap<String, EventHandler> = Default::default();
        for f in &frames {
            let rec = rec.clone();
            let handler = hf(move |_ctx, e| {
                rec.note("g", &e);
                Box::pin(async move { Ok(Response::empty()) })
            });
            match &f.ns {
                None => b = b.on(&f.name, handler),
                Some(ns) => spaces.entry(ns.clone()).or_insert_with(EventHandler::new).on(&f.name, handler),
            }
        }
        for (ns, h) in spaces {
            b = b.add_namespace(Namespace::new(ns, h));
        }
        let net = Net::new(vec![(c.io.clone(), c.io.clone())]);
        let (mut peer, _ctx) = if c.on_server {
            (server_and_raw(&net, b).await?, None)
        } else {
            let (ctx, peer) = client_and_raw(&net, b).await?;
            (peer, Some(ctx))
        };
        let (mut rd, mut wr) = {
            let s = std::mem::replace(&mut peer.stream, sim::pair(&IoPlan::default(), &IoPlan::default()).0);
            (s.read, s.write)
        };
        // answers are read and dropped
        let answers = tokio::spawn(async move { tokio::io::copy(&mut rd, &mut tokio::io::sink()).await });
        crate::alloc::reset_max_request();
        let _ = wr.write_all(&bytes).await;
        let _ = wr.shutdown().await;
        settle().await;
        sleep_ms(100).await;
        let max = crate::alloc::max_request();
        ensure!(max <= 8 * bytes.len() + (256 << 10), "{max} bytes were allocated at once for an input of {} bytes", bytes.len());
        answers.abort();
        let mut expected = vec![];
        let mut rest = &bytes[..];
        while let Verdict::Event(f, n) = refcodec::decode(rest) {
            // dangling end events cause nothing
            if f.ty != refcodec::END {
                expected.push(f);
            }
            rest = &rest[n..];
        }
        let got: Vec<Frame> = rec.calls().into_iter().map(|c| c.frame).collect();
        ensure!(got.len() == expected.len(), "{} events were handled instead of {}", got.len(), expected.len());
        for g in &got {
            ensure!(expected.contains(g), "an event was handled that was not sent: {}", g.short());
        }
        Ok(Info::new(!frames.is_empty())
            .label(!got.is_empty(), "handled")
            .label(got.iter().any(|f| f.ns.is_some()), "handled in a namespace")
            .label(!rest.is_empty(), "undecodable rest"))
    })
}

pub fn c03(r: &mut Runner) {
    r.rule("Non-trivial: the bytes are a valid event, or wrong in a way the format names, or cut off behind the length fields. Frames with every field chosen freely (versions, flags, lengths, extended headers, invalid UTF-8), byte mutations, cuts and random bytes are decoded and compared with an independent decoder; a counting allocator bounds every single allocation.");
    let input = || {
        prop_oneof![
            5 => (shaped(), vec(mutation(), 0..1)).prop_map(|(s, m)| Input::Shaped(Box::new(s), m)),
            4 => (shaped(), vec(mutation(), 1..4)).prop_map(|(s, m)| Input::Shaped(Box::new(s), m)),
            1 => vec(any::<u8>(), 0..80).prop_map(Input::Random),
        ]
    };
    r.part(
        "decode",
        cases(200_000, 6_000_000),
        || (vec(input(), 1..4), io_plan()).prop_map(|(inputs, io)| Bytes3 { inputs, io }),
        c03_decode,
    );
    r.part(
        "cut",
        cases(60_000, 1_000_000),
        || (ev(600), any::<u16>(), io_plan()).prop_map(|(ev, at, io)| Cut { ev, at, io }),
        c03_cut,
    );
    r.part(
        "connection",
        cases(60_000, 1_000_000),
        || {
            let usual = shaped().prop_map(|mut s| {
                s.version = [0, 9, 1];
                s.ty %= 4;
                (s.ref_flag, s.ns_len, s.name_len, s.total, s.header_len, s.total_delta) = (None, None, None, None, None, 0);
                s.ns = String::from_utf8_lossy(&s.ns).into_owned().into_bytes();
                s.name = String::from_utf8_lossy(&s.name).into_owned().into_bytes();
                s.data.n %= 1000;
                Input::Shaped(Box::new(s), vec![])
            });
            let input = prop_oneof![3 => usual, 1 => input()];
            (vec(input, 1..6), any::<bool>(), io_plan_coarse())
                .prop_map(|(inputs, on_server, io)| OnConnection { inputs, on_server, io })
        },
        c03_connection,
    );
    let _ = EventType::End;
}
