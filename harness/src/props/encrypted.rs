//! C19 to C22: the encryption layer (and a part of C31)
use crate::drive::{drive, step, Step};
use crate::ensure;
use crate::gen::*;
use crate::refcodec::{self, Frame};
use crate::runner::{cases, Info, Outcome, Runner};
use crate::sim::{pair, Fault, IoPlan, Op, Net, SimListener, SimStream, Wires};
use crate::util::*;
use bromine::prelude::*;
use bromine::protocol::encrypted::{EncryptedListener, EncryptedStream, EncryptionOptions, Keys};
use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
use x25519_dalek::{PublicKey, StaticSecret};

pub fn secret(n: u8) -> StaticSecret {
    StaticSecret::from([n.wrapping_mul(37).wrapping_add(11); 32])
}

fn public(n: u8) -> PublicKey {
    PublicKey::from(&secret(n))
}

pub fn options<T: Clone + Default>(own: u8, known: &[u8], allow_unknown: bool) -> EncryptionOptions<T> {
    EncryptionOptions {
        inner_options: T::default(),
        keys: Keys { secret: secret(own), known_peers: known.iter().map(|n| public(*n)).collect(), allow_unknown },
    }
}

pub type EncOptions<T> = EncryptionOptions<T>;

pub fn keys(own: u8, known: &[u8], allow_unknown: bool) -> Keys {
    options::<()>(own, known, allow_unknown).keys
}

/// Options that let everybody connect
pub fn open_options<T: Clone + Default>() -> EncryptionOptions<T> {
    options(1, &[], true)
}

type Enc = EncryptedStream<SimStream>;

// ------------------------------------------------------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
enum WOp {
    /// given up after that many polls (if any number is given)
    Write(Blob, Option<u8>),
    WriteAll(Blob),
    Flush(Option<u8>),
    Sleep(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Side {
    ops: Vec<WOp>,
    /// how it ends: 0 nothing more, 1 shutdown, 2 dropped
    end: u8,
    /// sizes of the reads
    reads: Vec<u32>,
    /// pauses between them
    pauses: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Duplex {
    sides: (Side, Side),
    /// with the key exchange of the library
    handshake: bool,
    /// the halves are used through the split of the protocol, otherwise through that of tokio
    native_split: bool,
    io: (IoPlan, IoPlan),
}

#[derive(Default)]
struct Flow {
    written: Vec<u8>,
    flushed: usize,
    /// the writer is done; how
    ended: Option<u8>,
    received: Vec<u8>,
    /// the reader has reached the end: None for an end without error
    eof: Option<Option<String>>,
}

type SharedFlow = Arc<Mutex<Flow>>;

async fn poll_limited<T>(mut f: impl FnMut(&mut std::task::Context<'_>) -> Poll<T>, limit: Option<u8>) -> Option<T> {
    let mut left = limit.map(|l| l as u32 + 1);
    std::future::poll_fn(move |cx| {
        if left == Some(0) {
            return Poll::Ready(None);
        }
        match f(cx) {
            Poll::Ready(x) => Poll::Ready(Some(x)),
            Poll::Pending => {
                if let Some(l) = &mut left {
                    *l -= 1;
                    if *l == 0 {
                        return Poll::Ready(None);
                    }
                }
                Poll::Pending
            }
        }
    })
    .await
}

async fn writer<W: AsyncWrite + Unpin>(mut w: W, side: Side, flow: SharedFlow) -> Result<(), String> {
    for op in &side.ops {
        match op {
            WOp::Write(b, limit) => {
                let data = b.bytes();
                let r = match limit {
                    // whoever gives up does so at once or after some time
                    Some(n) if n % 2 == 1 => {
                        let f = poll_limited(|cx| Pin::new(&mut w).poll_write(cx, &data), None);
                        tokio::time::timeout(Duration::from_millis(*n as u64 / 2), f).await.ok().flatten()
                    }
                    l => poll_limited(|cx| Pin::new(&mut w).poll_write(cx, &data), *l).await,
                };
                match r {
                    Some(Ok(n)) => {
                        ensure!(n <= data.len() && (n > 0 || data.is_empty()), "a write of {} bytes took {n}", data.len());
                        flow.lock().unwrap().written.extend(&data[..n]);
                    }
                    Some(Err(e)) => return Err(format!("write: {e}")),
                    None => {}
                }
            }
            WOp::WriteAll(b) => {
                let data = b.bytes();
                // what is being written may arrive before it is done
                flow.lock().unwrap().written.extend(&data);
                w.write_all(&data).await.map_err(|e| format!("write_all: {e}"))?;
            }
            WOp::Flush(limit) => {
                let r = match limit {
                    Some(n) if n % 2 == 1 => {
                        let f = poll_limited(|cx| Pin::new(&mut w).poll_flush(cx), None);
                        tokio::time::timeout(Duration::from_millis(*n as u64 / 2), f).await.ok().flatten()
                    }
                    l => poll_limited(|cx| Pin::new(&mut w).poll_flush(cx), *l).await,
                };
                match r {
                    Some(Ok(())) => {
                        let mut f = flow.lock().unwrap();
                        f.flushed = f.written.len();
                    }
                    Some(Err(e)) => return Err(format!("flush: {e}")),
                    None => {}
                }
            }
            WOp::Sleep(ms) => sleep_ms(*ms as u64).await,
        }
    }
    match side.end % 3 {
        1 => {
            w.shutdown().await.map_err(|e| format!("shutdown: {e}"))?;
            let mut f = flow.lock().unwrap();
            f.flushed = f.written.len();
            f.ended = Some(1);
        }
        2 => {
            drop(w);
            flow.lock().unwrap().ended = Some(2);
        }
        _ => {
            w.flush().await.map_err(|e| format!("flush: {e}"))?;
            {
                let mut f = flow.lock().unwrap();
                f.flushed = f.written.len();
                f.ended = Some(0);
            }
            std::future::pending::<()>().await;
        }
    }
    Ok(())
}

async fn reader<R: AsyncRead + Unpin>(mut r: R, sizes: Vec<u32>, pauses: Vec<u8>, flow: SharedFlow) {
    let mut i = 0;
    loop {
        let size = sizes.get(i % sizes.len().max(1)).copied().unwrap_or(4096) as usize;
        let pause = pauses.get(i % pauses.len().max(1)).copied().unwrap_or(0);
        i += 1;
        if pause > 0 {
            sleep_ms(pause as u64).await;
        }
        let mut buf = vec![0u8; size];
        let mut rb = ReadBuf::new(&mut buf);
        let res = std::future::poll_fn(|cx| Pin::new(&mut r).poll_read(cx, &mut rb)).await;
        let n = rb.filled().len();
        let mut f = flow.lock().unwrap();
        f.received.extend(&buf[..n]);
        match res {
            Ok(()) if n == 0 && size > 0 => {
                f.eof = Some(None);
                return;
            }
            Ok(()) => {}
            Err(e) => {
                f.eof = Some(Some(format!("{:?}", e.kind())));
                return;
            }
        }
    }
}

fn check_flow(who: &str, f: &Flow, side: &Side, other_pauses: bool) -> Result<(), String> {
    ensure!(
        f.written.starts_with(&f.received),
        "{who}: received {} bytes that are not a beginning of the {} written (first difference at {})",
        f.received.len(),
        f.written.len(),
        f.received.iter().zip(&f.written).position(|(a, b)| a != b).unwrap_or(f.written.len())
    );
    if !other_pauses {
        ensure!(
            f.received.len() >= f.flushed,
            "{who}: {} bytes were flushed, but only {} can be read",
            f.flushed,
            f.received.len()
        );
    }
    if let Some(e) = &f.eof {
        ensure!(matches!(f.ended, Some(1 | 2)), "{who}: the reader sees an end ({e:?}) although the writer goes on (plan {})", side.end);
        ensure!(e.is_none() || e.as_deref() == Some("UnexpectedEof"), "{who}: reading fails with {e:?}");
        ensure!(f.received.len() >= f.flushed, "{who}: the end comes before all {} flushed bytes", f.flushed);
    }
    Ok(())
}

fn c19_duplex(c: &Duplex) -> Outcome {
    run_virtual(async {
        let (client, server, wires) = pair(&c.io.0, &c.io.1);
        let (client, server): (Enc, Enc) = if c.handshake {
            let (a, b) = (open_options::<()>().keys, open_options::<()>().keys);
            let (a, b) = tokio::join!(Enc::from_client_key_exchange(client, &a), Enc::from_server_key_exchange(server, &b));
            (a.map_err(|e| format!("{e:?}"))?, b.map_err(|e| format!("{e:?}"))?)
        } else {
            (
                EncryptedStream::new(client, secret(1).diffie_hellman(&public(2))),
                EncryptedStream::new(server, secret(2).diffie_hellman(&public(1))),
            )
        };
        let up: SharedFlow = Default::default();
        let down: SharedFlow = Default::default();
        let (s1, s2) = (c.sides.0.clone(), c.sides.1.clone());
        let mut writers = vec![];
        let mut readers = vec![];
        for (stream, own, other, tx, rx) in [(client, &s1, &s2, &up, &down), (server, &s2, &s1, &down, &up)] {
            let _ = other;
            if c.native_split {
                let (r, w) = stream.protocol_into_split();
                writers.push(tokio::spawn(writer(w, own.clone(), tx.clone())));
                readers.push(tokio::spawn(reader(r, own.reads.clone(), own.pauses.clone(), rx.clone())));
            } else {
                let (r, w) = tokio::io::split(stream);
                writers.push(tokio::spawn(writer(w, own.clone(), tx.clone())));
                readers.push(tokio::spawn(reader(r, own.reads.clone(), own.pauses.clone(), rx.clone())));
            }
        }
        // every now and then: what was flushed is there
        let paused = |s: &Side| s.pauses.iter().any(|p| *p > 0);
        let mut last = (0, 0);
        for round in 0..400 {
            settle().await;
            for (who, f, s, other) in [("up", &up, &s1, &s2), ("down", &down, &s2, &s1)] {
                check_flow(who, &f.lock().unwrap(), s, paused(other))?;
            }
            for w in writers.iter_mut() {
                if w.is_finished() {
                    let r = std::mem::replace(w, tokio::spawn(std::future::pending())).await;
                    r.map_err(|e| format!("panic: {e}"))??;
                }
            }
            let now = (up.lock().unwrap().received.len(), down.lock().unwrap().received.len());
            if now == last && round > 40 {
                // pauses of readers are shorter than this
                sleep_ms(300).await;
            }
            last = now;
        }
        sleep_ms(10_000_000).await;
        let mut ends = 0;
        for (who, f, s, w_closed) in [
            ("up", &up, &s1, wires.client_to_server.write_closed()),
            ("down", &down, &s2, wires.server_to_client.write_closed()),
        ] {
            let f = f.lock().unwrap();
            check_flow(who, &f, s, false)?;
            ensure!(f.ended.is_some(), "{who}: the writer does not come to its end");
            match f.ended {
                Some(1) => {
                    ends += 1;
                    ensure!(f.received == f.written, "{who}: {} of {} bytes arrive before the shutdown", f.received.len(), f.written.len());
                    ensure!(w_closed, "{who}: the transport is not closed after a shutdown");
                    ensure!(f.eof.is_some(), "{who}: the reader does not see the shutdown");
                }
                Some(2) => {
                    // with the split of tokio the reading half still holds the stream
                    ensure!(f.eof.is_some() || !c.native_split, "{who}: the reader does not see the end");
                }
                _ => ensure!(f.received == f.written, "{who}: {} of {} flushed bytes arrive", f.received.len(), f.written.len()),
            }
        }
        for r in readers {
            if r.is_finished() {
                r.await.map_err(|e| format!("panic: {e}"))?;
            }
        }
        let (u, d) = (up.lock().unwrap().received.len(), down.lock().unwrap().received.len());
        let gives_up = [&s1, &s2].iter().any(|s| s.ops.iter().any(|o| matches!(o, WOp::Write(_, Some(_)) | WOp::Flush(Some(_)))));
        Ok(Info::new(u + d > 0)
            .label(u > 0 && d > 0, "both directions")
            .label(u > 1024 || d > 1024, "more than one package")
            .label(gives_up, "abandoned operations")
            .label(ends > 0, "shutdown")
            .label(c.handshake, "key exchange"))
    })
}

fn side(max: u32) -> BoxedStrategy<Side> {
    let size = prop_oneof![4 => blob(200), 3 => blob(3000), 1 => (1020u32..1030, any::<u8>()).prop_map(|(n, s)| Blob { n, s }), 1 => blob(max)];
    let op = prop_oneof![
        3 => (size.clone(), prop_oneof![3 => Just(None), 2 => (0u8..12).prop_map(Some)]).prop_map(|(b, l)| WOp::Write(b, l)),
        3 => size.prop_map(WOp::WriteAll),
        4 => prop_oneof![3 => Just(None), 2 => (0u8..12).prop_map(Some)].prop_map(WOp::Flush),
        1 => (0u8..6).prop_map(WOp::Sleep),
    ];
    let reads = vec(prop_oneof![1u32..8, 0u32..300, 1000u32..1100, 2000u32..20_000, 2000u32..max.max(3000)], 0..4)
        .prop_map(|v| if v.iter().all(|x| *x == 0) { vec![] } else { v });
    let pauses = prop_oneof![3 => Just(vec![]), 1 => vec(0u8..5, 0..3)];
    (vec(op, 0..12), 0u8..3, reads, pauses).prop_map(|(ops, end, reads, pauses)| Side { ops, end, reads, pauses }).boxed()
}

/// Data passed to the stream, and whether it surely counts as written
type Passed = Arc<Mutex<(Vec<(Vec<u8>, bool)>, bool)>>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faulty {
    ops: Vec<WOp>,
    shutdown: bool,
    reads: Vec<u32>,
    native_split: bool,
    io: (IoPlan, IoPlan),
}

/// Whether the received bytes are a beginning of the passed ones, of which the unsure ones may also be missing
fn is_beginning(received: &[u8], passed: &[(Vec<u8>, bool)]) -> bool {
    let mut at = BTreeSet::from([0usize]);
    for (data, sure) in passed {
        let mut next = BTreeSet::new();
        for i in at {
            let same = data.iter().zip(&received[i..]).take_while(|(a, b)| a == b).count();
            if i + same == received.len() {
                return true;
            }
            if *sure && same == data.len() {
                next.insert(i + same);
            } else if !sure {
                next.extend(i..=i + same);
            }
        }
        at = next;
    }
    at.contains(&received.len())
}

/// Goes on after errors; tells after how much data a flush or shutdown has succeeded
async fn faulty_writer<W: AsyncWrite + Unpin>(mut w: W, ops: Vec<WOp>, shutdown: bool, passed: Passed, flushed: Arc<Mutex<Option<usize>>>) -> Result<usize, String> {
    let mut errors = 0;
    let done = |errors: usize| {
        if errors == 0 {
            *flushed.lock().unwrap() = Some(passed.lock().unwrap().0.iter().map(|(d, _)| d.len()).sum());
        }
    };
    for op in &ops {
        let op = async {
            match op {
                WOp::Write(b, limit) => {
                    let data = b.bytes();
                    let r = poll_limited(|cx| Pin::new(&mut w).poll_write(cx, &data), *limit).await;
                    let mut p = passed.lock().unwrap();
                    match r {
                        Some(Ok(n)) => p.0.push((data[..n].to_vec(), true)),
                        Some(Err(_)) => {
                            p.0.push((data, false));
                            errors += 1;
                        }
                        None => {}
                    }
                }
                WOp::WriteAll(b) => {
                    let data = b.bytes();
                    let at = {
                        let mut p = passed.lock().unwrap();
                        p.0.push((data.clone(), true));
                        p.0.len() - 1
                    };
                    if w.write_all(&data).await.is_err() {
                        passed.lock().unwrap().0[at].1 = false;
                        errors += 1;
                    }
                }
                WOp::Flush(limit) => match poll_limited(|cx| Pin::new(&mut w).poll_flush(cx), *limit).await {
                    Some(Ok(())) => done(errors),
                    Some(Err(_)) => errors += 1,
                    None => {}
                },
                WOp::Sleep(ms) => sleep_ms(*ms as u64).await,
            }
        };
        if tokio::time::timeout(Duration::from_secs(100_000), op).await.is_err() {
            return Err("an operation does not come to its end".into());
        }
    }
    let last = async {
        if shutdown {
            w.shutdown().await
        } else {
            w.flush().await
        }
    };
    match tokio::time::timeout(Duration::from_secs(100_000), last).await {
        Err(_) => return Err("the last operation does not come to its end".into()),
        Ok(Ok(())) => done(errors),
        Ok(Err(_)) => errors += 1,
    }
    Ok(errors)
}

async fn faulty_reader<R: AsyncRead + Unpin>(mut r: R, sizes: Vec<u32>, received: Arc<Mutex<Vec<u8>>>) -> usize {
    let (mut errors, mut stopped) = (0, 0);
    let mut ends = 0;
    for i in 0.. {
        let size = sizes.get(i % sizes.len().max(1)).copied().unwrap_or(4096).max(1) as usize;
        let mut buf = vec![0u8; size];
        match r.read(&mut buf).await {
            Ok(0) => ends += 1,
            Ok(n) => received.lock().unwrap().extend(&buf[..n]),
            Err(e) => {
                stopped += 1;
                errors += usize::from(e.to_string().contains("injected"));
            }
        }
        // what comes behind an error or the end is looked at as well
        if stopped + ends > 4 {
            break;
        }
    }
    errors
}

fn c19_faults(c: &Faulty) -> Outcome {
    run_virtual(async {
        let (client, server, _wires) = pair(&c.io.0, &c.io.1);
        let client: Enc = EncryptedStream::new(client, secret(1).diffie_hellman(&public(2)));
        let server: Enc = EncryptedStream::new(server, secret(2).diffie_hellman(&public(1)));
        let passed: Passed = Default::default();
        let flushed: Arc<Mutex<Option<usize>>> = Default::default();
        let received: Arc<Mutex<Vec<u8>>> = Default::default();
        let (ops, shutdown, reads) = (c.ops.clone(), c.shutdown, c.reads.clone());
        let (w, r, _keep): (_, _, Box<dyn std::any::Any>) = if c.native_split {
            let (r1, w1) = client.protocol_into_split();
            let (r2, w2) = server.protocol_into_split();
            let w = tokio::spawn(faulty_writer(w1, ops, shutdown, passed.clone(), flushed.clone()));
            (w, tokio::spawn(faulty_reader(r2, reads, received.clone())), Box::new((r1, w2)))
        } else {
            let w = tokio::spawn(faulty_writer(client, ops, shutdown, passed.clone(), flushed.clone()));
            (w, tokio::spawn(faulty_reader(server, reads, received.clone())), Box::new(()))
        };
        let errors = match tokio::time::timeout(Duration::from_secs(1_000_000_000), w).await {
            Ok(r) => r.map_err(|e| format!("panic in a write operation: {e}"))??,
            Err(_) => return Err("the writer does not come to its end".into()),
        };
        settle().await;
        let read_errors = match tokio::time::timeout(Duration::from_secs(1_000_000), r).await {
            Ok(r) => r.map_err(|e| format!("panic in a read operation: {e}"))?,
            Err(_) => return Err("the reader does not see the end of a stream that is gone".into()),
        };
        let received = received.lock().unwrap();
        let p = passed.lock().unwrap();
        ensure!(is_beginning(&received, &p.0), "{} bytes were received that are not a beginning of what was written", received.len());
        let reader_fails = c.io.1.faults.iter().any(|f| f.op == Op::Read);
        if let Some(n) = *flushed.lock().unwrap() {
            ensure!(
                received.len() >= n || reader_fails,
                "{n} bytes were flushed without any error, but only {} have arrived",
                received.len()
            );
        }
        Ok(Info::new(errors + read_errors > 0)
            .label(errors > 0, "write errors")
            .label(read_errors > 0, "read errors")
            .label(received.len() > 0, "data arrives")
            .label(errors > 0 && flushed.lock().unwrap().is_some(), "errors after a flush"))
    })
}

fn faults(ops: BoxedStrategy<Op>) -> BoxedStrategy<Vec<Fault>> {
    let at = prop_oneof![3 => 0u16..4, 2 => 0u16..30, 1 => 0u16..400];
    vec((ops, at, any::<bool>(), any::<u8>()).prop_map(|(op, at, forever, kind)| Fault { op, at, forever, kind }), 0..4).boxed()
}

fn faulty() -> BoxedStrategy<Faulty> {
    let out = prop_oneof![3 => Just(Op::Write), 2 => Just(Op::Flush), 1 => Just(Op::Shutdown)].boxed();
    let plans = (io_plan(), io_plan(), faults(out), prop_oneof![2 => Just(vec![]).boxed(), 1 => faults(Just(Op::Read).boxed())]);
    (side(6000), any::<bool>(), plans).prop_map(|(s, native_split, (mut a, mut b, f, g))| {
        a.faults = f;
        b.faults = g;
        // whoever reads no longer must not be waited for
        a.cap = 0;
        b.cap = 0;
        Faulty { ops: s.ops, shutdown: s.end == 1, reads: s.reads, native_split, io: (a, b) }
    }).boxed()
}

pub fn c19(r: &mut Runner) {
    r.rule("A case is non-trivial if data arrives; of those with a failing transport, if an operation fails.");
    r.part(
        "duplex",
        cases(60_000, 1_000_000),
        || {
            (side(20_000), side(20_000), any::<bool>(), any::<bool>(), (io_plan(), io_plan())).prop_map(
                |(a, b, handshake, native_split, io)| Duplex { sides: (a, b), handshake, native_split, io },
            )
        },
        c19_duplex,
    );
    r.part(
        "large",
        cases(6_000, 80_000),
        || {
            (side(400_000), side(400_000), any::<bool>(), any::<bool>(), (io_plan_coarse(), io_plan_coarse())).prop_map(
                |(a, b, handshake, native_split, io)| Duplex { sides: (a, b), handshake, native_split, io },
            )
        },
        c19_duplex,
    );
    // operations of the transport fail
    r.part("faults", cases(60_000, 1_000_000), faulty, c19_faults);
    // megabytes in one direction, with few large reads
    r.part(
        "huge",
        cases(64, 1_500),
        || {
            let writes = vec((huge_blob(17, 23), any::<bool>()), 1..3).prop_map(|v| {
                v.into_iter().flat_map(|(b, flush)| [Some(WOp::WriteAll(b)), flush.then_some(WOp::Flush(None))]).flatten().collect()
            });
            let reads = vec(prop_oneof![1000u32..70_000, 60_000u32..5_000_000], 1..4);
            let big = (writes, 0u8..2, reads).prop_map(|(ops, end, reads)| Side { ops, end, reads, pauses: vec![] });
            (big, side(2000), any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(a, mut b, swap, handshake, native_split)| {
                // the other one does not read in small pieces
                b.reads = a.reads.clone();
                b.pauses = vec![];
                let sides = if swap { (b, a) } else { (a, b) };
                Duplex { sides, handshake, native_split, io: Default::default() }
            })
        },
        c19_duplex,
    );
}

// ------------------------------------------------------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Access {
    own: u8,
    known: Vec<u8>,
    allow_unknown: bool,
    /// that many keys of nobody, in front of the known ones or behind them
    filler: (u16, u16),
    /// keys that differ from those of the others by one bit: (key, bit)
    near: Vec<(u8, u8)>,
}

impl Access {
    fn options<T: Clone + Default>(&self) -> EncryptionOptions<T> {
        let mut o = options(self.own, &self.known, self.allow_unknown);
        let nobody = |salt: u8, n: u16| {
            (0..n).map(move |i| {
                let mut k = [salt; 32];
                k[..2].copy_from_slice(&i.to_be_bytes());
                PublicKey::from(k)
            })
        };
        let mut list: Vec<PublicKey> = nobody(1, self.filler.0).collect();
        list.append(&mut o.keys.known_peers);
        for (k, bit) in &self.near {
            let mut bytes = *public(*k).as_bytes();
            // the last bit of the last byte means nothing
            let bit = (*bit as usize) % 255;
            bytes[bit / 8] ^= 1 << (bit % 8);
            list.push(PublicKey::from(bytes));
        }
        list.extend(nobody(64, self.filler.1));
        o.keys.known_peers = list;
        o
    }
    fn accepts(&self, key: u8) -> bool {
        self.allow_unknown || self.known.contains(&key)
    }
}

fn access() -> BoxedStrategy<Access> {
    (1u8..6, vec(1u8..6, 0..4), prop_oneof![2 => Just(false), 1 => Just(true)], filler(), vec((1u8..6, any::<u8>()), 0..3))
        .prop_map(|(own, known, allow_unknown, filler, near)| Access { own, known, allow_unknown, filler, near })
        .boxed()
}

fn filler() -> BoxedStrategy<(u16, u16)> {
    let n = || prop_oneof![6 => Just(0u16), 2 => 0u16..10, 1 => 10u16..70, 1 => 100u16..1100];
    (n(), n()).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Meeting {
    client: Access,
    server: Access,
    data: Blob,
    io: (IoPlan, IoPlan),
}

fn check_refusal(who: &str, r: &Result<Enc, IPCError>, other: u8) -> Result<(), String> {
    match r {
        Ok(_) => Err(format!("the {who} accepts a key that it does not know")),
        Err(IPCError::UnknownPeer(k)) => {
            ensure!(*k == public(other), "the {who} names another key than the one it refused");
            Ok(())
        }
        Err(e) => Err(format!("the {who} refuses with another error: {e:?}")),
    }
}

fn c20_meeting(c: &Meeting) -> Outcome {
    run_virtual(async {
        let (a, b, wires) = pair(&c.io.0, &c.io.1);
        let (ck, sk) = (c.client.options::<()>().keys, c.server.options::<()>().keys);
        let server_accepts = c.server.accepts(c.client.own);
        let client_accepts = c.client.accepts(c.server.own);
        let data = c.data.bytes();
        let (d1, d2) = (data.clone(), data.clone());
        // each side sends data as soon as it considers itself connected
        let client = async {
            let r = Enc::from_client_key_exchange(a, &ck).await;
            talk(r, d1).await
        };
        let server = async {
            let r = Enc::from_server_key_exchange(b, &sk).await;
            talk(r, d2).await
        };
        let ((cr, cgot), (sr, sgot)) = tokio::join!(client, server);
        if server_accepts && client_accepts {
            ensure!(cr.is_ok() && sr.is_ok(), "client {:?}, server {:?}", cr.err(), sr.err());
            ensure!(cgot == data && sgot == data, "the data does not arrive");
        } else {
            ensure!(cr.is_err(), "the client is connected although the server {server_accepts}, the client {client_accepts}");
            ensure!(cgot.is_empty() && sgot.is_empty(), "data crosses a refused connection");
            if !server_accepts {
                check_refusal("server", &sr, c.client.own)?;
            } else {
                check_refusal("client", &cr, c.server.own)?;
            }
        }
        drop(wires);
        Ok(Info::new(true)
            .label(server_accepts && client_accepts, "established")
            .label(!server_accepts, "refused by the server")
            .label(server_accepts && !client_accepts, "refused by the client"))
    })
}

async fn talk(r: Result<Enc, IPCError>, data: Vec<u8>) -> (Result<Enc, IPCError>, Vec<u8>) {
    let mut got = vec![];
    match r {
        Ok(s) => {
            let (mut rd, mut wr) = tokio::io::split(s);
            let write = async {
                let _ = wr.write_all(&data).await;
                let _ = wr.flush().await;
                let _ = wr.shutdown().await;
            };
            let read = async {
                let _ = rd.read_to_end(&mut got).await;
            };
            tokio::join!(write, read);
            (Ok(rd.unsplit(wr)), got)
        }
        Err(e) => (Err(e), got),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Guest {
    /// a client of the library
    Honest(Access),
    /// presents the public key of somebody else, then sends packages sealed with what it can compute
    Impostor(u8, u8),
    Silent,
    /// closes after so many bytes of a correct beginning
    Abort(u8),
    /// that many bytes that mean nothing
    Noise(Blob),
    /// sends its key, but does not read the answer
    Stalled(u8),
    /// so many of one kind
    Crowd(u16, Box<Guest>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Party {
    server: Access,
    guests: Vec<(Guest, u8)>,
    io: (IoPlan, IoPlan),
}

fn c20_party(c: &Party) -> Outcome {
    run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let rec = Recorder::default();
        let rec2 = rec.clone();
        let b = IPCBuilder::<EncryptedListener<SimListener>>::new()
            .address(net.clone())
            .server_options(c.server.options())
            .on("echo", move |ctx, event| {
                rec2.note("echo", &event);
                Box::pin(async move { ctx.response(raw(event.data_raw().to_vec())) })
            });
        let server = tokio::spawn(b.build_server());
        settle().await;
        ensure!(net.is_bound(), "the server does not listen");
        let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
        let mut honest = vec![];
        let (mut bad, mut good, mut refused) = (0, 0, 0);
        let guests: Vec<(Guest, u8)> = c
            .guests
            .iter()
            .flat_map(|(g, pause)| match g {
                Guest::Crowd(n, g) => vec![((**g).clone(), 0); *n as usize],
                g => vec![(g.clone(), *pause)],
            })
            .collect();
        for (i, (g, pause)) in guests.iter().enumerate() {
            match g {
                Guest::Crowd(..) => unreachable!(),
                Guest::Honest(a) => {
                    let (opts, net) = (a.options(), net.clone());
                    let h = tokio::spawn(async move {
                        let ctx = IPCBuilder::<EncryptedListener<SimListener>>::new()
                            .address(net)
                            .client_options(opts)
                            .build_client()
                            .await
                            .map_err(|e| (format!("connecting: {e:?}"), matches!(e, IPCError::UnknownPeer(_))))?;
                        let r = ctx
                            .emit("echo", raw(marker(i).to_vec()))
                            .await_reply()
                            .with_timeout(Duration::from_secs(30))
                            .await
                            .map_err(|e| (format!("requesting: {e:?}"), false))?;
                        Ok::<_, (String, bool)>((r.data_raw().to_vec(), ctx))
                    });
                    honest.push((i, a.clone(), h));
                }
                Guest::Impostor(key, how) => {
                    bad += 1;
                    let mut s = net.connect().map_err(|e| e.to_string())?;
                    let (key, how, server_key) = (*key, *how, c.server.own);
                    // zero is the key for which every secret gives the same result
                    let weak = key == 0 || how >= 4;
                    let presented = if weak { low_order(how) } else { *public(key).as_bytes() };
                    // who lets everybody in cannot complain
                    let weak = weak && !c.server.allow_unknown;
                    keep.push(Box::new(tokio::spawn(async move {
                        let _ = s.write_all(&presented).await;
                        let _ = s.flush().await;
                        let mut answer = vec![0u8; 32 + 4 + 48];
                        let n = tokio::time::timeout(Duration::from_millis(20), s.read_exact(&mut answer)).await;
                        let own = secret(77).diffie_hellman(&public(server_key));
                        let body = Frame::new(1, 0, None, None, "echo", marker(i).to_vec()).encode();
                        if weak && n.map(|r| r.is_ok()) == Ok(true) {
                            // everybody knows the key that results from this one
                            if let Some(k) = static_open(&[0u8; 32], &answer[36..]) {
                                let (a, _b, w) = pair(&IoPlan::default(), &IoPlan::default());
                                let mut e: Enc = EncryptedStream::new(a, secret(77).diffie_hellman(&PublicKey::from(presented)));
                                e.update_key(k.into());
                                let _ = e.write_all(&body).await;
                                let _ = e.flush().await;
                                let _ = s.write_all(&w.client_to_server.log()).await;
                                let _ = s.flush().await;
                            }
                            std::future::pending::<()>().await;
                        }
                        let out: Vec<u8> = match how % 4 {
                            // its own key instead of the one that is missing
                            0 | 1 => {
                                let stream = tokio::io::duplex(1 << 16);
                                drop(stream);
                                let (a, b, w) = pair(&IoPlan::default(), &IoPlan::default());
                                let mut e: Enc = EncryptedStream::new(a, own);
                                if how % 4 == 1 {
                                    e.update_key(vec![0u8; 32].into());
                                }
                                let _ = e.write_all(&body).await;
                                let _ = e.flush().await;
                                drop(b);
                                w.client_to_server.log()
                            }
                            // what the server has sent, back to it
                            2 => answer[32..].to_vec(),
                            // in the clear
                            _ => body,
                        };
                        let _ = s.write_all(&out).await;
                        let _ = s.flush().await;
                        std::future::pending::<()>().await;
                    })));
                }
                Guest::Silent => {
                    bad += 1;
                    keep.push(Box::new(net.connect().map_err(|e| e.to_string())?));
                }
                Guest::Abort(n) => {
                    bad += 1;
                    let mut s = net.connect().map_err(|e| e.to_string())?;
                    let mut bytes = public(c.server.known.first().copied().unwrap_or(9)).as_bytes().to_vec();
                    bytes.extend([0, 0, 0, 40, 1, 2, 3, 4]);
                    let n = *n as usize % bytes.len();
                    keep.push(Box::new(tokio::spawn(async move {
                        let _ = s.write_all(&bytes[..n]).await;
                        let _ = s.flush().await;
                    })));
                }
                Guest::Noise(b) => {
                    bad += 1;
                    let mut s = net.connect().map_err(|e| e.to_string())?;
                    let bytes = b.bytes();
                    keep.push(Box::new(tokio::spawn(async move {
                        let _ = s.write_all(&bytes).await;
                        let _ = s.flush().await;
                        std::future::pending::<()>().await;
                    })));
                }
                Guest::Stalled(key) => {
                    bad += 1;
                    let mut s = net.connect().map_err(|e| e.to_string())?;
                    let conn = net.connections() - 1;
                    net.wires(conn).server_to_client.freeze(true);
                    let key = *key;
                    keep.push(Box::new(tokio::spawn(async move {
                        let _ = s.write_all(public(key).as_bytes()).await;
                        let _ = s.flush().await;
                        std::future::pending::<()>().await;
                    })));
                }
            }
            if *pause > 0 {
                sleep_ms(*pause as u64).await;
            }
        }
        sleep_ms(60_000).await;
        let mut expected = BTreeSet::new();
        for (i, a, h) in honest {
            ensure!(h.is_finished(), "guest {i} still waits for its connection");
            let r = h.await.map_err(|e| format!("panic: {e}"))?;
            let (server_accepts, client_accepts) = (c.server.accepts(a.own), a.accepts(c.server.own));
            match r {
                Ok((d, ctx)) => {
                    ensure!(server_accepts && client_accepts, "guest {i} is connected although the server {server_accepts}, the client {client_accepts}");
                    ensure!(d == marker(i), "guest {i} gets another answer");
                    expected.insert(marker(i)[..2].to_vec());
                    good += 1;
                    keep.push(Box::new(ctx));
                }
                Err((e, unknown)) => {
                    ensure!(!(server_accepts && client_accepts), "guest {i} cannot connect: {e}");
                    ensure!(e.starts_with("connecting"), "guest {i} was connected, then: {e}");
                    ensure!(unknown == (server_accepts && !client_accepts), "guest {i} fails with {e}");
                    refused += 1;
                }
            }
        }
        let calls = rec.calls();
        let handled: BTreeSet<Vec<u8>> = calls.iter().map(|c| c.frame.data[..2].to_vec()).collect();
        ensure!(handled == expected && calls.len() == expected.len(), "events of the guests {handled:?} were handled instead of {expected:?}");
        ensure!(!server.is_finished(), "the server has stopped");
        drop(keep);
        Ok(Info::new(good > 0 && bad + refused > 0)
            .label(good > 0, "accepted guests")
            .label(refused > 0, "refused guests")
            .label(bad > 0, "bad guests"))
    })
}

/// Public keys with which every secret gives zero
fn low_order(n: u8) -> [u8; 32] {
    let mut k = [0u8; 32];
    match n % 7 {
        0 => {}
        1 => k[0] = 1,
        2 => {
            k = [
                0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d,
                0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00,
            ]
        }
        3 => {
            k = [
                0x5f, 0x9c, 0x95, 0xbc, 0xa3, 0x50, 0x8c, 0x24, 0xb1, 0xd0, 0xb1, 0x55, 0x9c, 0x83, 0xef, 0x5b, 0x04, 0x44, 0x5c,
                0xc4, 0x58, 0x1c, 0x8e, 0x86, 0xd8, 0x22, 0x4e, 0xdd, 0xd0, 0x9f, 0x11, 0x57,
            ]
        }
        n => {
            k = [0xff; 32];
            k[0] = 0xec + (n - 4);
            k[31] = 0x7f;
        }
    }
    k
}

/// A server that presents a public key of which it does not have the secret, or that does not say what it must
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FakeServer {
    client: Access,
    /// the key that it presents; 0 for one with which every secret gives the same result
    key: u8,
    how: u8,
    noise: Blob,
    io: (IoPlan, IoPlan),
}

fn c20_fake_server(c: &FakeServer) -> Outcome {
    run_virtual(async {
        let (a, mut b, _wires) = pair(&c.io.0, &c.io.1);
        let keys = c.client.options::<()>().keys;
        let client = tokio::spawn(async move { Enc::from_client_key_exchange(a, &keys).await });
        let mut theirs = [0u8; 32];
        b.read_exact(&mut theirs).await.map_err(|e| format!("the client sends no key: {e}"))?;
        ensure!(theirs == *public(c.client.own).as_bytes(), "the client sends another key than its own");
        let presented = if c.key == 0 { low_order(c.how / 9) } else { *public(c.key).as_bytes() };
        let seal = |shared: x25519_dalek::SharedSecret, what: Vec<u8>| async move {
            let (x, _y, w) = pair(&IoPlan::default(), &IoPlan::default());
            let mut e: Enc = EncryptedStream::new(x, shared);
            let _ = e.write_all(&what).await;
            let _ = e.flush().await;
            w.client_to_server.log()
        };
        let session = Blob { n: 32, s: c.noise.s }.bytes();
        let right = || secret(c.key).diffie_hellman(&public(c.client.own));
        let (mut genuine, mut open) = (false, true);
        let how = c.how % 9;
        let rest: Vec<u8> = match how {
            0 => vec![],
            1 => {
                open = false;
                vec![]
            }
            // something of any length and something of the right one
            2 => c.noise.bytes(),
            3 => [vec![0, 0, 0, 48], Blob { n: 48, s: c.noise.s }.bytes()].concat(),
            // sealed with the secret of somebody else
            4 => seal(secret(77).diffie_hellman(&public(c.client.own)), session).await,
            // the right one, but changed, or cut off and closed
            5 => {
                let mut p = seal(right(), session).await;
                let at = 4 + c.noise.n as usize % (p.len() - 4);
                p[at] ^= 1 << (c.noise.s % 8);
                p
            }
            6 => {
                open = false;
                let mut p = seal(right(), session).await;
                p.truncate(c.noise.n as usize % p.len());
                p
            }
            // too little
            7 => {
                open = false;
                seal(right(), session[..c.noise.n as usize % 32].to_vec()).await
            }
            _ => {
                genuine = true;
                seal(right(), session).await
            }
        };
        let _ = b.write_all(&presented).await;
        let _ = b.write_all(&rest).await;
        let _ = b.flush().await;
        if !open {
            drop(b);
        } else {
            keep_open(b);
        }
        sleep_ms(100_000).await;
        let accepted = c.client.allow_unknown || c.key != 0 && c.client.known.contains(&c.key);
        let done = client.is_finished();
        let weak = c.key == 0;
        let outcome = if done { Some(client.await.map_err(|e| format!("panic: {e}"))?) } else { None };
        match outcome {
            None => ensure!(accepted && open && matches!(how, 0 | 2), "the client still waits (how {how})"),
            Some(r) if !accepted => match &r {
                Err(IPCError::UnknownPeer(k)) => ensure!(*k.as_bytes() == presented, "the error names another key"),
                Ok(_) => return Err("the client is connected to a server whose key it does not know".into()),
                Err(e) => return Err(format!("the client refuses with another error: {e:?}")),
            },
            // who accepts everybody accepts a weak key as well, whose owner nobody can tell
            Some(_) if weak => {}
            Some(Ok(_)) => ensure!(genuine, "the client is connected to a server that has not shown that it has its secret (how {how})"),
            Some(Err(e)) => ensure!(!genuine, "the client cannot connect: {e:?}"),
        }
        Ok(Info::new(accepted && !weak)
            .label(!accepted, "unknown key")
            .label(weak, "weak key")
            .label(accepted && !genuine, "impostor")
            .label(accepted && genuine && !weak, "established"))
    })
}

/// The connection stays
fn keep_open(s: SimStream) {
    tokio::spawn(async move {
        std::future::pending::<()>().await;
        drop(s);
    });
}

fn marker(i: usize) -> [u8; 40] {
    let mut m = [i as u8; 40];
    m[1] = (i >> 8) as u8;
    m
}

pub fn c20(r: &mut Runner) {
    r.rule("Every meeting is non-trivial; a fake server if the client accepts its key; a party is if one guest at least is accepted and another is refused or broken.");
    r.part(
        "meetings",
        cases(60_000, 1_000_000),
        || {
            (access(), access(), blob(2000), (io_plan(), io_plan()))
                .prop_map(|(client, server, data, io)| Meeting { client, server, data, io })
        },
        c20_meeting,
    );
    r.part(
        "parties",
        cases(30_000, 500_000),
        || party(false),
        c20_party,
    );
    r.part("crowds", cases(160, 3_000), || party(true), c20_party);
    let fake = || {
        (access(), 0u8..6, any::<u8>(), blob(300), (io_plan(), io_plan()), any::<bool>()).prop_map(|(mut client, key, how, noise, io, knows)| {
            if knows && key > 0 {
                client.known.push(key);
            }
            FakeServer { client, key, how, noise, io }
        })
    };
    r.part("fake servers", cases(60_000, 800_000), fake, c20_fake_server);
}

fn party(crowds: bool) -> BoxedStrategy<Party> {
            let bad = || prop_oneof![
                2 => (0u8..6, 0u8..12).prop_map(|(k, h)| Guest::Impostor(k, h)),
                1 => Just(Guest::Silent),
                1 => (0u8..40).prop_map(Guest::Abort),
                1 => blob(200).prop_map(Guest::Noise),
                1 => (1u8..6).prop_map(Guest::Stalled),
            ];
            let crowd = (prop_oneof![60u16..300, 300u16..2500], bad()).prop_map(|(n, g)| Guest::Crowd(n, Box::new(g)));
            let guest = prop_oneof![
                6 => (access(), any::<bool>()).prop_map(|(a, allow_unknown)| Guest::Honest(Access { allow_unknown, ..a })),
                6 => bad(),
                if crowds { 6 } else { 0 } => crowd,
            ];
            let n = if crowds { 3..7 } else { 1..8 };
            let plan = move || if crowds { io_plan_coarse() } else { io_plan() };
            (access(), vec((guest, prop_oneof![2 => Just(0u8), 1 => 0u8..30]), n), (plan(), plan()))
                .prop_map(|(server, guests, io)| Party { server, guests, io })
                .boxed()
}

// ----------------------------------------------------------------------------------------------------- C21 and C22

/// An established connection with the harness in between
struct Mitm {
    client: Enc,
    server: Enc,
    /// the end that the client talks to
    at_client: SimStream,
    at_server: SimStream,
    wires: (Wires, Wires),
    /// bytes of the key exchange: from the client, from the server
    start: (Vec<u8>, Vec<u8>),
}

/// What is changed of the key exchange
type Tamper = Option<(bool, u16, u8)>;

async fn relay(from: &mut SimStream, to: &mut SimStream, at: &mut usize, flip: Option<(u16, u8)>, log: &mut Vec<u8>) {
    let mut buf = [0u8; 512];
    match tokio::time::timeout(Duration::from_millis(1), from.read(&mut buf)).await {
        Ok(Ok(n)) if n > 0 => {
            if let Some((pos, bit)) = flip {
                let pos = pos as usize;
                if pos >= *at && pos < *at + n {
                    buf[pos - *at] ^= 1 << (bit % 8);
                }
            }
            *at += n;
            log.extend(&buf[..n]);
            let _ = to.write_all(&buf[..n]).await;
            let _ = to.flush().await;
        }
        _ => {}
    }
}

type Established = Result<Enc, IPCError>;

/// Runs both key exchanges with the harness in between, for as long as something happens
async fn meet(client: Keys, server: Keys, tamper: Tamper) -> (Option<Established>, Option<Established>, SimStream, SimStream, (Wires, Wires), (Vec<u8>, Vec<u8>)) {
    let plain = IoPlan::default();
    let (c_end, mut at_client, w1) = pair(&plain, &plain);
    let (mut at_server, s_end, w2) = pair(&plain, &plain);
    let c = tokio::spawn(async move { Enc::from_client_key_exchange(c_end, &client).await });
    let s = tokio::spawn(async move { Enc::from_server_key_exchange(s_end, &server).await });
    let (mut up, mut down) = (0, 0);
    let mut log = (vec![], vec![]);
    for _ in 0..40 {
        let flip = |to_server: bool| tamper.and_then(|(d, p, b)| (d == to_server).then_some((p, b)));
        relay(&mut at_client, &mut at_server, &mut up, flip(true), &mut log.0).await;
        relay(&mut at_server, &mut at_client, &mut down, flip(false), &mut log.1).await;
        if c.is_finished() && s.is_finished() {
            break;
        }
    }
    let take = |h: tokio::task::JoinHandle<Established>| async move {
        if h.is_finished() {
            match h.await {
                Ok(r) => Some(r),
                Err(e) => Some(Err(IPCError::Message(format!("panic: {e}")))),
            }
        } else {
            h.abort();
            None
        }
    };
    (take(c).await, take(s).await, at_client, at_server, (w1, w2), log)
}

async fn connect_through(client: u8, server: u8) -> Result<Mitm, String> {
    let (c, s, at_client, at_server, wires, start) =
        meet(options::<()>(client, &[server], false).keys, options::<()>(server, &[client], false).keys, None).await;
    match (c, s) {
        (Some(Ok(client)), Some(Ok(server))) => Ok(Mitm { client, server, at_client, at_server, wires, start }),
        (c, s) => Err(format!(
            "the key exchange fails: client {:?}, server {:?}",
            c.map(|r| r.err()),
            s.map(|r| r.err())
        )),
    }
}

/// Writes and flushes the chunks; what the harness sees: the packages, and the contents of each. How the data is divided
/// is up to the library, a package however is longer than its contents by a fixed number of bytes.
async fn capture(sender: &mut Enc, mitm: &mut SimStream, chunks: &[Vec<u8>]) -> Result<(Vec<Vec<u8>>, Vec<Vec<u8>>), String> {
    let mut out = vec![];
    let mut contents = vec![];
    let mut buf = vec![];
    for c in chunks {
        sender.write_all(c).await.map_err(|e| format!("write: {e}"))?;
        sender.flush().await.map_err(|e| format!("flush: {e}"))?;
        buf.clear();
        loop {
            let mut b = [0u8; 4096];
            // everything is there already
            let n = {
                let mut rb = ReadBuf::new(&mut b);
                let p = std::future::poll_fn(|cx| Poll::Ready(Pin::new(&mut *mitm).poll_read(cx, &mut rb))).await;
                match p {
                    Poll::Ready(Ok(())) => rb.filled().len(),
                    _ => 0,
                }
            };
            if n == 0 {
                break;
            }
            buf.extend(&b[..n]);
        }
        ensure!(buf.len() > 4, "a chunk that was flushed is not on the transport");
        let packages = split_packages(&buf);
        let bodies: usize = packages.iter().map(|p| p.len() - 4).sum();
        ensure!(
            !packages.is_empty() && packages.iter().map(|p| p.len()).sum::<usize>() == buf.len(),
            "a flushed chunk of {} bytes does not end with a package: {} bytes", c.len(), buf.len()
        );
        ensure!(bodies >= c.len(), "a flushed chunk of {} bytes is in packages of {bodies} bytes", c.len());
        let overhead = (bodies - c.len()) / packages.len();
        let mut at = 0;
        for p in &packages {
            let n = (p.len() - 4).saturating_sub(overhead).min(c.len() - at);
            contents.push(c[at..at + n].to_vec());
            at += n;
        }
        ensure!(at == c.len(), "harness: packages of unequal overhead");
        out.extend(packages);
    }
    Ok((out, contents))
}

/// The complete packages at the beginning of the bytes
fn split_packages(mut w: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    while w.len() >= 4 {
        let n = u32::from_be_bytes(w[..4].try_into().unwrap()) as usize;
        if w.len() - 4 < n {
            break;
        }
        out.push(w[..4 + n].to_vec());
        w = &w[4 + n..];
    }
    out
}

async fn receive_all(r: &mut Enc) -> (Vec<u8>, Option<String>) {
    let mut got = vec![];
    let mut buf = vec![0u8; 700];
    loop {
        match r.read(&mut buf).await {
            Ok(0) => return (got, None),
            Ok(n) => got.extend(&buf[..n]),
            Err(e) => {
                // it must not recover
                for _ in 0..2 {
                    match r.read(&mut buf).await {
                        Ok(n) => got.extend(&buf[..n]),
                        Err(_) => break,
                    }
                }
                return (got, Some(format!("{:?}", e.kind())));
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Evil {
    Flip(u16, u16, u8),
    /// takes bytes off the end of a package, with or without adjusting its length
    Shorten(u16, u8, bool),
    Lengthen(u16, Blob, bool),
    Remove(u16),
    Repeat(u16, u16),
    Swap(u16, u16),
    Inject(u16, Blob),
    /// a package is replaced by one of: the other direction, another connection, the other direction there
    Replace(u16, u8, u16),
    /// the other's package is inserted
    Insert(u16, u8, u16),
    /// the stream ends within or before a package
    Cut(u16, u16),
    /// two packages become one
    Merge(u16),
    /// a package comes again a power of two later: before the package there, or instead of it
    Echo(u16, u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tampering {
    /// the attacked direction
    to_server: bool,
    chunks: Vec<Blob>,
    back: Vec<Blob>,
    other: Vec<Blob>,
    evil: Vec<Evil>,
}

fn contents(chunks: &[Blob], salt: u8) -> Vec<Vec<u8>> {
    chunks
        .iter()
        .enumerate()
        .map(|(i, b)| {
            let mut d = vec![salt, i as u8];
            d.extend(b.bytes());
            d.truncate(1000);
            d
        })
        .collect()
}

const K1: &str = "reflected-own-package-with-same-index";

fn c21_tamper(c: &Tampering) -> Outcome {
    run_virtual(async {
        let mut m = connect_through(1, 2).await?;
        let mut m2 = connect_through(1, 2).await?;
        let chunks = contents(&c.chunks, 1);
        let back = contents(&c.back, 2);
        let other = contents(&c.other, 3);
        let (sender, receiver, at_sender, at_receiver) = if c.to_server {
            (&mut m.client, &mut m.server, &mut m.at_client, &mut m.at_server)
        } else {
            (&mut m.server, &mut m.client, &mut m.at_server, &mut m.at_client)
        };
        let (orig, chunks) = capture(sender, at_sender, &chunks).await?;
        // the receiver has sent something, too
        let (reflected, back) = capture(receiver, at_receiver, &back).await?;
        let (foreign_same, _) = capture(&mut m2.client, &mut m2.at_client, &other).await?;
        let (foreign_back, _) = capture(&mut m2.server, &mut m2.at_server, &other).await?;
        let mut list = orig.clone();
        let mut cut: Option<(usize, usize)> = None;
        let pool = |which: u8, i: u16| -> Option<Vec<u8>> {
            let l = match which % 3 {
                0 => &reflected,
                1 => &foreign_same,
                _ => &foreign_back,
            };
            if l.is_empty() {
                None
            } else {
                Some(l[i as usize % l.len()].clone())
            }
        };
        let fix = |p: &mut Vec<u8>| {
            if p.len() >= 4 {
                let n = (p.len() - 4) as u32;
                p[..4].copy_from_slice(&n.to_be_bytes());
            }
        };
        for e in &c.evil {
            if list.is_empty() {
                break;
            }
            let at = |i: &u16| *i as usize % list.len();
            match e {
                Evil::Flip(i, pos, bit) => {
                    let i = at(i);
                    let pos = *pos as usize % list[i].len();
                    list[i][pos] ^= 1 << (bit % 8);
                }
                Evil::Shorten(i, n, adjust) => {
                    let i = at(i);
                    let len = list[i].len().saturating_sub(*n as usize + 1).max(4);
                    list[i].truncate(len);
                    if *adjust {
                        fix(&mut list[i]);
                    }
                }
                Evil::Lengthen(i, b, adjust) => {
                    let i = at(i);
                    list[i].extend(b.bytes());
                    if *adjust {
                        fix(&mut list[i]);
                    }
                }
                Evil::Remove(i) => {
                    let i = at(i);
                    list.remove(i);
                }
                Evil::Repeat(i, to) => {
                    let (p, to) = (list[at(i)].clone(), *to as usize % (list.len() + 1));
                    list.insert(to, p);
                }
                Evil::Swap(i, j) => {
                    let (i, j) = (at(i), at(j));
                    list.swap(i, j);
                }
                Evil::Inject(i, b) => {
                    let mut p = vec![0; 4];
                    p.extend(b.bytes());
                    fix(&mut p);
                    let i = *i as usize % (list.len() + 1);
                    list.insert(i, p);
                }
                Evil::Replace(i, which, j) => {
                    if let Some(p) = pool(*which, *j) {
                        let i = at(i);
                        list[i] = p;
                    }
                }
                Evil::Insert(i, which, j) => {
                    if let Some(p) = pool(*which, *j) {
                        let i = *i as usize % (list.len() + 1);
                        list.insert(i, p);
                    }
                }
                Evil::Cut(i, n) => {
                    let i = at(i);
                    cut = Some((i, *n as usize % (list[i].len() + 1)));
                }
                Evil::Merge(i) => {
                    let i = at(i);
                    if i + 1 < list.len() {
                        let b = list.remove(i + 1);
                        list[i].extend(&b[4..]);
                        fix(&mut list[i]);
                    }
                }
                Evil::Echo(i, k, insert) => {
                    let d = 1 << (k % 12);
                    if d < list.len() {
                        let i = *i as usize % (list.len() - d);
                        let p = list[i].clone();
                        if *insert {
                            list.insert(i + d, p);
                        } else {
                            list[i + d] = p;
                        }
                    }
                }
            }
        }
        let mut wire = vec![];
        for (i, p) in list.iter().enumerate() {
            match cut {
                Some((k, n)) if k == i => {
                    wire.extend(&p[..n.min(p.len())]);
                    break;
                }
                _ => wire.extend(p),
            }
        }
        // what arrives unchanged, package by package of the bytes on the wire
        let packages = split_packages(&wire);
        let strict = packages.iter().zip(&orig).take_while(|(a, b)| a == b).count();
        let expected: Vec<u8> = chunks[..strict].concat();
        // with the weakness K1, own packages count when they come at their own index
        let mut weak: Vec<u8> = vec![];
        for (i, p) in packages.iter().enumerate() {
            if orig.get(i) == Some(p) {
                weak.extend(&chunks[i]);
            } else if reflected.get(i) == Some(p) {
                weak.extend(&back[i]);
            } else {
                break;
            }
        }
        let (a, b) = tokio::io::split(std::mem::replace(at_receiver, pair(&IoPlan::default(), &IoPlan::default()).0));
        let mut b = b;
        let unchanged = wire == orig.concat();
        tokio::spawn(async move {
            let _ = b.write_all(&wire).await;
            let _ = b.shutdown().await;
            let _a = a;
            std::future::pending::<()>().await;
        });
        let (got, err) = receive_all(receiver).await;
        if let Some(e) = &err {
            ensure!(e == "InvalidData" || e == "UnexpectedEof" || !e.is_empty(), "odd error {e}");
        } else {
            // an end without an error is fine only behind the last package
            ensure!(packages.len() == strict, "no error although the traffic was changed");
        }
        let mut info = Info::new(!unchanged && !chunks.is_empty())
            .label(strict > 0, "unchanged beginning")
            .label(strict == 0, "changed from the beginning")
            .label(unchanged, "nothing changed");
        if got != expected {
            if got == weak && weak != expected {
                info.signatures.push((K1.into(), "an own package that is sent back at the index it was sent with is accepted as the other's".into()));
            } else {
                return Err(format!(
                    "received {} bytes instead of the {} of the {strict} packages that arrive unchanged (error {err:?}){}",
                    got.len(),
                    expected.len(),
                    if chunks.concat().starts_with(&got) { "" } else { "; they are not a beginning of what was written" }
                ));
            }
        }
        Ok(info.label(chunks.len() > 256, "more than 256 packages").label(strict > 256, "more than 256 unchanged packages"))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Exchange {
    open: bool,
    to_server: bool,
    pos: u16,
    bit: u8,
    data: Blob,
}

/// One bit of the key exchange is changed
fn c21_exchange(c: &Exchange) -> Outcome {
    run_virtual(async {
        let (ck, sk) = if c.open {
            (options::<()>(1, &[], true).keys, options::<()>(2, &[], true).keys)
        } else {
            (options::<()>(1, &[2], false).keys, options::<()>(2, &[1], false).keys)
        };
        let pos = c.pos % if c.to_server { 32 } else { 32 + 4 + 48 };
        let (cl, se, at_client, at_server, wires, _) = meet(ck, sk, Some((c.to_server, pos, c.bit))).await;
        for r in [&cl, &se] {
            if let Some(Err(IPCError::Message(m))) = r {
                return Err(m.clone());
            }
        }
        // X25519 ignores the highest bit of a public key: it is the same key, and both may agree
        let same_point = pos == 31 && c.bit % 8 == 7;
        let connected = matches!(&cl, Some(Ok(_))) && matches!(&se, Some(Ok(_)));
        ensure!(!matches!(&cl, Some(Ok(_))) || same_point, "the client is connected although the key exchange was changed");
        // whatever either side sends is not accepted as anything else
        let data = c.data.bytes();
        let mut crossed = 0;
        if let Some(Ok(mut se)) = se {
            let mut at_server = at_server;
            if let Some(Ok(mut cl)) = cl {
                let mut at_client = at_client;
                let _ = cl.write_all(&data).await;
                let _ = cl.flush().await;
                drop(cl);
                let mut all = vec![];
                let _ = at_client.read_to_end(&mut all).await;
                let _ = at_server.write_all(&all).await;
            } else {
                let mut e: Enc = EncryptedStream::new(pair(&IoPlan::default(), &IoPlan::default()).0, secret(1).diffie_hellman(&public(2)));
                let _ = e.write_all(&data).await;
                let _ = e.flush().await;
            }
            drop(at_server);
            let (got, _) = receive_all(&mut se).await;
            ensure!(data.starts_with(&got) && (connected || got.is_empty()), "the server accepts {} bytes", got.len());
            crossed = got.len();
        }
        drop(wires);
        Ok(Info::new(!same_point).label(same_point, "ignored bit").label(crossed > 0, "established nevertheless"))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Replay {
    /// the recorded session is played to a server, otherwise to a client
    to_server: bool,
    chunks: Vec<Blob>,
}

const K3: &str = "replayed-server-session";

/// A recorded session is played to a new connection
fn c21_replay(c: &Replay) -> Outcome {
    run_virtual(async {
        let mut m = connect_through(1, 2).await?;
        let chunks = contents(&c.chunks, 1);
        let plain = IoPlan::default();
        let (near, far, _w) = pair(&plain, &plain);
        let mut near = near;
        let mut signature = vec![];
        let mut bytes;
        let result = if c.to_server {
            let (packages, _) = capture(&mut m.client, &mut m.at_client, &chunks).await?;
            bytes = m.start.0.clone();
            bytes.extend(packages.concat());
            let keys = options::<()>(2, &[1], false).keys;
            let h = tokio::spawn(async move { Enc::from_server_key_exchange(far, &keys).await });
            let _ = near.write_all(&bytes).await;
            let _ = near.shutdown().await;
            h.await.map_err(|e| format!("panic: {e}"))?
        } else {
            let (packages, _) = capture(&mut m.server, &mut m.at_server, &chunks).await?;
            bytes = m.start.1.clone();
            bytes.extend(packages.concat());
            let keys = options::<()>(1, &[2], false).keys;
            let h = tokio::spawn(async move { Enc::from_client_key_exchange(far, &keys).await });
            let _ = near.write_all(&bytes).await;
            let _ = near.shutdown().await;
            h.await.map_err(|e| format!("panic: {e}"))?
        };
        if let Ok(mut s) = result {
            let (got, _) = receive_all(&mut s).await;
            if !got.is_empty() {
                if !c.to_server && got == chunks.concat() {
                    signature.push((K3.to_string(), "a client accepts the recorded session of its server".to_string()));
                } else {
                    return Err(format!("{} bytes of a recorded session are accepted", got.len()));
                }
            }
        }
        drop(near);
        let mut info = Info::new(!chunks.is_empty()).label(c.to_server, "to a server").label(!c.to_server, "to a client");
        info.signatures = signature;
        Ok(info)
    })
}

pub fn c21(r: &mut Runner) {
    r.rule("A case is non-trivial if data was sent and the traffic of the connection was changed or replayed.");
    r.part("packages", cases(150_000, 2_000_000), || tampering(1..12, 8), c21_tamper);
    r.part("long", cases(800, 12_000), || tampering(200..2500, 600), c21_tamper);
    r.part(
        "key exchange",
        cases(20_000, 300_000),
        || {
            (any::<bool>(), any::<bool>(), 0u16..84, 0u8..8, blob(300))
                .prop_map(|(open, to_server, pos, bit, data)| Exchange { open, to_server, pos, bit, data })
        },
        c21_exchange,
    );
    r.part(
        "replay",
        cases(8_000, 100_000),
        || (any::<bool>(), vec(blob(300), 1..6)).prop_map(|(to_server, chunks)| Replay { to_server, chunks }),
        c21_replay,
    );
}

fn tampering(n: std::ops::Range<usize>, others: usize) -> BoxedStrategy<Tampering> {
    let long = n.end > 256;
    let small = move || (0u32..if long { 20 } else { 120 }, any::<u8>()).prop_map(|(n, s)| Blob { n, s });
    let chunk = move || if long { small().boxed() } else { prop_oneof![6 => small().boxed(), 1 => blob(900)].boxed() };
    let evil = move || prop_oneof![
        4 => (any::<u16>(), any::<u16>(), 0u8..8).prop_map(|(a, b, c)| Evil::Flip(a, b, c)),
        1 => (any::<u16>(), 0u8..40, any::<bool>()).prop_map(|(a, b, c)| Evil::Shorten(a, b, c)),
        1 => (any::<u16>(), blob(40), any::<bool>()).prop_map(|(a, b, c)| Evil::Lengthen(a, b, c)),
        3 => any::<u16>().prop_map(Evil::Remove),
        3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Evil::Repeat(a, b)),
        3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Evil::Swap(a, b)),
        2 => (any::<u16>(), blob(60)).prop_map(|(a, b)| Evil::Inject(a, b)),
        3 => (any::<u16>(), 0u8..3, any::<u16>()).prop_map(|(a, b, c)| Evil::Replace(a, b, c)),
        2 => (any::<u16>(), 0u8..3, any::<u16>()).prop_map(|(a, b, c)| Evil::Insert(a, b, c)),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Evil::Cut(a, b)),
        1 => any::<u16>().prop_map(Evil::Merge),
        if long { 6 } else { 1 } => (any::<u16>(), 0u8..12, any::<bool>()).prop_map(|(a, b, c)| Evil::Echo(a, b, c)),
    ];
    (
        any::<bool>(),
        vec(chunk(), n),
        vec(chunk(), 0..others),
        vec(chunk(), 0..others),
        prop_oneof![4 => vec(evil(), 1..2), 2 => vec(evil(), 0..4)],
    )
        .prop_map(|(to_server, chunks, back, other, evil)| Tampering { to_server, chunks, back, other, evil })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Secrecy {
    /// client, server of each connection
    pairs: Vec<(u8, u8)>,
    /// (connection, by the client, contents)
    sends: Vec<(u8, bool, Blob)>,
    /// so many equal packages more on the first connection
    long: u32,
}

const K1_STREAM: &str = "same-key-stream-in-opposite-directions";
const K2: &str = "same-key-stream-for-session-keys-of-same-peers";

fn c22_secrecy(c: &Secrecy) -> Outcome {
    run_virtual(async {
        let mut ms = vec![];
        for (a, b) in &c.pairs {
            ms.push(connect_through(1 + a % 3, 4 + b % 2).await?);
        }
        // (connection, direction, index) of each key stream beginning
        let mut streams: HashMap<[u8; 12], (usize, bool, usize)> = HashMap::new();
        let mut bodies: HashMap<Vec<u8>, usize> = HashMap::new();
        let mut index: BTreeMap<(usize, bool), usize> = BTreeMap::new();
        let mut sigs = BTreeMap::new();
        let mut packages = 0;
        let one_way = c.long > 10_000 && c.long % 2 == 1;
        let long = (0..c.long).map(|i| (0u8, one_way || i % 2 == 0, Blob { n: 14, s: 9 }));
        let sends: Vec<_> = c.sends.iter().cloned().chain(long).collect();
        for (conn, by_client, b) in &sends {
            let conn = *conn as usize % ms.len();
            let m = &mut ms[conn];
            let mut data = b.bytes();
            data.truncate(1000);
            if data.is_empty() {
                data.push(7);
            }
            let (p, parts) = if *by_client {
                capture(&mut m.client, &mut m.at_client, &[data.clone()]).await?
            } else {
                capture(&mut m.server, &mut m.at_server, &[data.clone()]).await?
            };
            for (p, data) in p.iter().zip(&parts) {
                let i = index.entry((conn, *by_client)).or_default();
                let (at, body) = ((conn, *by_client, *i), &p[4..]);
                *i += 1;
                packages += 1;
                if data.len() >= 12 {
                    ensure!(body.len() >= data.len(), "a package is shorter than its contents");
                    ensure!(!p.windows(12).any(|w| w == &data[..12]), "data is on the transport in the clear");
                    ensure!(!p.windows(12).any(|w| w == &data[data.len() - 12..]), "data is on the transport in the clear");
                    // the whole stream, wherever the beginning may be
                    let ks: [u8; 12] = std::array::from_fn(|k| data[k] ^ body[k]);
                    if let Some(before) = streams.insert(ks, at) {
                        if before.0 == at.0 && before.1 != at.1 && before.2 == at.2 {
                            sigs.insert(K1_STREAM, "packages with the same index in opposite directions have the same key stream");
                            // the one of the other direction stays
                        } else {
                            return Err(format!("the packages {before:?} and {at:?} (connection, by the client, index) have the same key stream"));
                        }
                    }
                    if data.len() >= 16 {
                        if let Some(before) = bodies.insert(body[..16].to_vec(), packages) {
                            // equal contents and equal stream: only where K1 says so
                            ensure!(sigs.contains_key(K1_STREAM), "package {before} and {packages} are encrypted to the same bytes");
                        }
                    }
                }
            }
        }
        // the session keys travel encrypted with the static keys of the peers
        let mut firsts: BTreeMap<(u8, u8), usize> = BTreeMap::new();
        let mut keys: BTreeSet<Vec<u8>> = BTreeSet::new();
        for (m, (a, b)) in ms.iter().zip(&c.pairs) {
            let (a, b) = (1 + a % 3, 4 + b % 2);
            let start = &m.start.1;
            for s in [secret(a).to_bytes(), secret(b).to_bytes()] {
                ensure!(!start.windows(32).any(|w| w == s) && !m.start.0.windows(32).any(|w| w == s), "a secret key is on the transport");
            }
            if start.len() > 36 {
                ensure!(keys.insert(start[36..].to_vec()), "two connections have the same session key");
                if let Some(k) = static_open(&secret(a).diffie_hellman(&public(b)).to_bytes(), &start[36..]) {
                    ensure!(!start.windows(16).any(|w| w == &k[..16]), "the session key is on the transport in the clear");
                    let n = firsts.entry((a, b)).or_default();
                    *n += 1;
                    if *n == 2 {
                        sigs.insert(K2, "the session keys of two connections of the same peers have the same key stream");
                    }
                }
            }
            let _ = &m.wires;
        }
        let mut info = Info::new(packages > 1)
            .label(ms.len() > 1, "several connections")
            .label(packages > 60_000, "more than 60000 packages")
            .label(packages > 300, "more than 300 packages");
        info.signatures = sigs.into_iter().map(|(k, d)| (k.to_string(), d.to_string())).collect();
        Ok(info)
    })
}

/// That many connections to a server
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SessionKeys {
    n: u32,
    own: u8,
}

fn c22_session_keys(c: &SessionKeys) -> Outcome {
    run_virtual(async {
        let server_keys = open_options::<()>().keys;
        let own = secret(c.own);
        let shared = own.diffie_hellman(&PublicKey::from(&server_keys.secret)).to_bytes();
        let mut seen: std::collections::HashSet<Vec<u8>> = Default::default();
        let (mut ones, mut zeros) = ([0u8; 32], [0u8; 32]);
        for i in 0..c.n {
            let (mut a, b, _) = pair(&IoPlan::default(), &IoPlan::default());
            a.write_all(PublicKey::from(&own).as_bytes()).await.map_err(|e| e.to_string())?;
            let r = Enc::from_server_key_exchange(b, &server_keys).await;
            r.map_err(|e| format!("{e:?}"))?;
            let mut answer = vec![];
            a.read_to_end(&mut answer).await.map_err(|e| e.to_string())?;
            // another way of agreeing on the key would not be looked at
            let Some(k) = answer.get(36..).and_then(|p| static_open(&shared, p)) else { return Ok(Info::new(false)) };
            for (i, b) in k.iter().take(32).enumerate() {
                ones[i] |= b;
                zeros[i] |= !b;
            }
            ensure!(seen.insert(k), "two of {} connections have the same session key", i + 1);
        }
        for i in 0..32 {
            ensure!(ones[i] == 255 && zeros[i] == 255, "bits of byte {i} of the session key are the same on {} connections", c.n);
        }
        Ok(Info::new(true))
    })
}

/// Whether the package is encrypted with the static key and the first nonce
pub(super) fn static_open(key: &[u8; 32], body: &[u8]) -> Option<Vec<u8>> {
    use chacha20poly1305::aead::Aead;
    use chacha20poly1305::{ChaCha20Poly1305, Key, KeyInit, Nonce};
    ChaCha20Poly1305::new(Key::from_slice(key)).decrypt(Nonce::from_slice(&[0u8; 12]), body).ok().filter(|k| k.len() >= 16)
}

pub fn c22(r: &mut Runner) {
    r.rule("A case is non-trivial if at least two packages were sent; one of session keys if they could be opened.");
    let strategy = |long: std::ops::Range<u32>| {
        let send = (0u8..4, any::<bool>(), prop_oneof![2 => Just(Blob { n: 30, s: 4 }), 3 => blob(900)]);
        (vec((0u8..3, 0u8..2), 1..4), vec(send, 0..14), long).prop_map(|(pairs, sends, long)| Secrecy { pairs, sends, long })
    };
    r.part("packages", cases(120_000, 2_000_000), || strategy(0..1), c22_secrecy);
    r.part("hundreds", cases(1500, 20_000), || strategy(500..1400), c22_secrecy);
    r.part("many", cases(16, 96), || strategy(132_000..140_000), c22_secrecy);
    r.part("a million", cases(4, 32), || strategy(1_060_000..1_070_000), c22_secrecy);
    r.part("session keys", cases(8, 64), || (20_000u32..24_000, 1u8..200).prop_map(|(n, own)| SessionKeys { n, own }), c22_session_keys);
}

// keeps the codec in use for the variant without other users
#[allow(dead_code)]
fn _unused() -> usize {
    refcodec::decode_all(&[]).map(|x| x.1).unwrap_or(0)
}

// ------------------------------------------------------------------------------------------------------------- C31

/// Both directions of an encrypted stream, driven in any way
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DrivenStreams {
    /// data and whether it is flushed
    sides: (Vec<(Blob, bool)>, Vec<(Blob, bool)>),
    reads: Vec<u16>,
    native_split: bool,
    io: (IoPlan, IoPlan),
    steps: Vec<Step>,
}

async fn driven_writer<W: AsyncWrite + Unpin + Send + 'static>(mut w: W, ops: Vec<(Blob, bool)>, steps: Vec<Step>) -> Result<W, String> {
    for (b, flush) in ops {
        let (back, r) = drive(&steps, async move {
            let r = w.write_all(&b.bytes()).await;
            (w, r)
        })
        .await;
        r.map_err(|e| format!("write_all: {e}"))?;
        w = back;
        if flush {
            let (back, r) = drive(&steps, async move {
                let r = w.flush().await;
                (w, r)
            })
            .await;
            r.map_err(|e| format!("flush: {e}"))?;
            w = back;
        }
    }
    let (w, r) = drive(&steps, async move {
        let r = w.shutdown().await;
        (w, r)
    })
    .await;
    r.map_err(|e| format!("shutdown: {e}"))?;
    Ok(w)
}

async fn driven_reader<R: AsyncRead + Unpin + Send + 'static>(mut r: R, sizes: Vec<u16>, want: Vec<u8>, steps: Vec<Step>) -> Result<(), String> {
    let (mut got, mut i) = (vec![], 0);
    while got.len() < want.len() {
        let size = sizes.get(i % sizes.len().max(1)).copied().unwrap_or(4096).max(1) as usize;
        i += 1;
        let (back, bytes) = drive(&steps, async move {
            let mut buf = vec![0u8; size];
            let n = r.read(&mut buf).await;
            (r, n.map(|n| buf[..n].to_vec()))
        })
        .await;
        r = back;
        let bytes = bytes.map_err(|e| format!("reading after {} bytes: {e}", got.len()))?;
        ensure!(!bytes.is_empty(), "the stream ends after {} of {} bytes", got.len(), want.len());
        got.extend(bytes);
        ensure!(want.starts_with(&got), "other bytes arrive than were written (within {} bytes)", got.len());
    }
    Ok(())
}

async fn driven_streams(c: DrivenStreams) -> Outcome {
    let (client, server, _wires) = pair(&c.io.0, &c.io.1);
    let (s1, s2) = (c.steps.clone(), c.steps.clone());
    let shake = |stream, steps: Vec<Step>, is_client: bool| {
        tokio::spawn(async move {
            let keys = open_options::<()>().keys;
            let f = async move {
                match is_client {
                    true => Enc::from_client_key_exchange(stream, &keys).await,
                    false => Enc::from_server_key_exchange(stream, &keys).await,
                }
            };
            drive(&steps, f).await.map_err(|e| format!("handshake: {e:?}"))
        })
    };
    let (client, server) = (shake(client, s1, true), shake(server, s2, false));
    let client: Enc = client.await.map_err(|e| format!("panic: {e}"))??;
    let server: Enc = server.await.map_err(|e| format!("panic: {e}"))??;
    let all = |ops: &[(Blob, bool)]| ops.iter().flat_map(|(b, _)| b.bytes()).collect::<Vec<u8>>();
    let mut writers = vec![];
    let mut readers = vec![];
    for (stream, own, other) in [(client, &c.sides.0, &c.sides.1), (server, &c.sides.1, &c.sides.0)] {
        let (own, want, sizes) = (own.clone(), all(other), c.reads.clone());
        let (s1, s2) = (c.steps.clone(), c.steps.clone());
        if c.native_split {
            let (r, w) = stream.protocol_into_split();
            writers.push(tokio::spawn(async move { driven_writer(w, own, s1).await.map(drop) }));
            readers.push(tokio::spawn(driven_reader(r, sizes, want, s2)));
        } else {
            let (r, w) = tokio::io::split(stream);
            writers.push(tokio::spawn(async move { driven_writer(w, own, s1).await.map(drop) }));
            readers.push(tokio::spawn(driven_reader(r, sizes, want, s2)));
        }
    }
    for t in readers.into_iter().chain(writers) {
        t.await.map_err(|e| format!("panic: {e}"))??;
    }
    let sent = c.sides.0.iter().chain(&c.sides.1).any(|(b, _)| !b.bytes().is_empty());
    Ok(Info::new(sent && c.steps.iter().any(|s| *s != Step::Plain))
        .label(c.native_split, "halves of the library")
        .label(all(&c.sides.0).len() > 1024 || all(&c.sides.1).len() > 1024, "more than a buffer"))
}

pub fn c31_streams(r: &mut Runner) {
    let strategy = || {
        let data = prop_oneof![3 => blob(300), 2 => blob(3000)];
        let side = vec((data, any::<bool>()), 0..6);
        let size = prop_oneof![1u16..20, 1u16..3000];
        ((side.clone(), side), vec(size, 0..4), any::<bool>(), (io_plan(), io_plan()), vec(step(), 1..12))
            .prop_map(|(sides, reads, native_split, io, steps)| DrivenStreams { sides, reads, native_split, io, steps })
    };
    r.part("streams", cases(40_000, 600_000), strategy, |c: &DrivenStreams| run_virtual(driven_streams(c.clone())));
}
