//! C25 (connections that are over leave nothing behind)
use super::requests::{answers, end_like, ending, Ending};
use super::server::garbage;
use crate::ensure;
use crate::gen::*;
use crate::refcodec::Frame;
use crate::runner::{cases, Info, Outcome, Runner, EXPECTED_PANIC};
use crate::sim::{Fault, IoPlan, Op, Net, SimListener, Wires};
use crate::util::*;
use bromine::prelude::*;
use bromine::protocol::AsyncStreamProtocolListener;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Who {
    Server,
    /// a server with the encryption layer
    Encrypted,
    Client,
    Pool(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    /// the peer sends an event: 0 echo, 1 failing, 2 without handler, 3 panicking, 4 with several replies, 5 slow,
    /// 6 in a namespace, 7 a reply to nothing
    Event(u8, Blob),
    /// the endpoint makes a request
    Go(Ending),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    /// the peer closes
    Close,
    /// the peer closes its sending side and reads on
    HalfClose,
    /// in the middle of an event
    Cut(u8),
    /// the peer sends something invalid and waits
    Garbage(u8),
    /// the contexts of a client are dropped and it is stopped; a server's peer just closes
    Stop,
    /// the handshake of an encrypted connection does not succeed: nothing, a part of the key, a key and garbage
    BadHandshake(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Life {
    acts: Vec<Act>,
    end: End,
    /// whether the peer answers requests
    answers: bool,
    /// the end comes so many ms after the last act
    pause: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lives {
    who: Who,
    lives: Vec<Life>,
    rounds: u16,
    io: (IoPlan, IoPlan),
}

fn handlers<L: AsyncStreamProtocolListener>(endings: Vec<Ending>) -> IPCBuilder<L> {
    let endings = Arc::new(endings);
    let mut eh = EventHandler::new();
    eh.on("e0", |ctx, event| Box::pin(async move { Response::payload(ctx, raw(event.data_raw().to_vec())) }));
    IPCBuilder::<L>::new()
        .add_namespace(Namespace::new("n0", eh))
        .on("e0", |ctx, event| Box::pin(async move { Response::payload(ctx, raw(event.data_raw().to_vec())) }))
        .on("e1", |_, _| Box::pin(async move { Err(IPCError::Message("no".into())) }))
        .on("e3", |_, _| Box::pin(async move { panic!("{EXPECTED_PANIC}") }))
        .on("e4", |ctx, event| {
            Box::pin(async move {
                for _ in 0..5 {
                    ctx.emit("some", raw(event.data_raw().to_vec())).await?;
                }
                Ok(Response::empty())
            })
        })
        .on("e5", |ctx, _| {
            Box::pin(async move {
                sleep_ms(500).await;
                ctx.emit("late", raw(vec![1])).await?;
                Ok(Response::empty())
            })
        })
        .on("go", move |ctx, event| {
            let e = endings[event.data_raw()[0] as usize % endings.len()];
            Box::pin(async move {
                // requests fail in many ways when the connection ends meanwhile
                let _ = end_like(ctx, e).await;
                Ok(Response::empty())
            })
        })
}

/// The side of the peer; false if it could not finish what it wanted because the endpoint has closed already
async fn live<S: AsyncRead + AsyncWrite + Unpin>(mut peer: RawPeer<S>, life: Life, ctx: Option<Context>, counter: &AtomicU64) -> Result<(), String> {
    let mut reads = true;
    let mut own = vec![];
    for (i, act) in life.acts.iter().enumerate() {
        match act {
            Act::Event(kind, data) => {
                let id = counter.fetch_add(1, Ordering::Relaxed);
                let ref_id = (*kind == 7).then_some(5);
                let ns = (*kind == 6).then_some("n0");
                let name = format!("e{}", if *kind == 6 { 0 } else { *kind });
                let f = Frame::new(id, if *kind == 7 { 1 } else { 0 }, ref_id, ns, &name, data.bytes());
                // under back-pressure the endpoint may wait for this side to read
                let _ = tokio::time::timeout(Duration::from_millis(20), peer.send(&f)).await;
            }
            Act::Go(e) => match &ctx {
                None => {
                    let id = counter.fetch_add(1, Ordering::Relaxed);
                    let f = Frame::new(id, 0, None, None, "go", vec![i as u8]);
                    let _ = tokio::time::timeout(Duration::from_millis(20), peer.send(&f)).await;
                }
                Some(ctx) => {
                    let (ctx, e) = (ctx.clone(), *e);
                    own.push(tokio::spawn(async move { end_like(&ctx, e).await }));
                }
            },
        }
        if life.answers && reads {
            let mut next = 0;
            loop {
                match tokio::time::timeout(Duration::from_millis(3), peer.recv()).await {
                    Ok(Ok(Some(f))) => {
                        for f in answers(&f, &mut next) {
                            let id = counter.fetch_add(1, Ordering::Relaxed);
                            let _ = tokio::time::timeout(Duration::from_millis(20), peer.send(&Frame { id, ..f })).await;
                        }
                    }
                    Ok(_) => {
                        reads = false;
                        break;
                    }
                    Err(_) => break,
                }
            }
        }
    }
    sleep_ms(life.pause as u64).await;
    let to_end = |mut peer: RawPeer<S>| async move {
        let mut sink = vec![0; 4096];
        let end = async {
            loop {
                match tokio::io::AsyncReadExt::read(&mut peer.stream, &mut sink).await {
                    Ok(0) | Err(_) => return,
                    Ok(_) => {}
                }
            }
        };
        let r = tokio::time::timeout(Duration::from_secs(300), end).await;
        r.map_err(|_| "the endpoint does not close a connection that is over".to_string())
    };
    let mut drop_ctx = ctx;
    match life.end {
        End::Close | End::BadHandshake(_) => drop(peer),
        End::Cut(n) => {
            let bytes = Frame::new(1, 0, None, None, "e0", vec![7; 300]).encode();
            let _ = tokio::time::timeout(Duration::from_millis(20), peer.send_bytes(&bytes[..n as usize])).await;
            drop(peer);
        }
        End::HalfClose => {
            let _ = tokio::time::timeout(Duration::from_millis(20), peer.stream.shutdown()).await;
            drop(drop_ctx.take());
            to_end(peer).await?;
        }
        End::Garbage(k) => {
            let _ = tokio::time::timeout(Duration::from_millis(20), peer.send_bytes(&garbage(k, &Blob { n: 3, s: 1 }))).await;
            drop(drop_ctx.take());
            // whatever did not fit before is read meanwhile
            to_end(peer).await?;
        }
        End::Stop => match drop_ctx.take() {
            None => drop(peer),
            Some(ctx) => {
                let _ = ctx.stop().await;
                to_end(peer).await?;
            }
        },
    }
    drop(drop_ctx);
    for t in own {
        let r = tokio::time::timeout(Duration::from_secs(300), t).await;
        let r = r.map_err(|_| "a request does not end although its connection is over")?;
        let _ = r.map_err(|e| format!("panic: {e}"))?;
    }
    Ok(())
}

#[cfg(feature = "encryption")]
async fn connect_encrypted(net: &Net, life: &Life, may_fail: bool) -> Result<Option<RawPeer<bromine::protocol::encrypted::EncryptedStream<crate::sim::SimStream>>>, String> {
    use bromine::protocol::encrypted::EncryptedStream;
    use bromine::protocol::AsyncProtocolStream;
    if let End::BadHandshake(n) = life.end {
        let mut peer = RawPeer::connect(net)?;
        let bytes = match n {
            0..=32 => vec![9; n as usize],
            n => vec![9; 32 + (n as usize - 32) * 8],
        };
        let _ = tokio::time::timeout(Duration::from_millis(20), peer.send_bytes(&bytes)).await;
        sleep_ms(life.pause as u64).await;
        return Ok(None);
    }
    let s = EncryptedStream::protocol_connect(net.clone(), super::encrypted::open_options()).await;
    match s {
        Ok(s) => Ok(Some(RawPeer::new(s))),
        Err(_) if may_fail => Ok(None),
        Err(e) => Err(format!("connecting failed: {e:?}")),
    }
}

fn released(w: &Wires, server: bool) -> (bool, bool) {
    let (input, output) = match server {
        true => (&w.client_to_server, &w.server_to_client),
        false => (&w.server_to_client, &w.client_to_server),
    };
    (input.read_closed(), output.write_closed())
}

fn c25_lives(c: &Lives) -> Outcome {
    run_virtual(async {
        const WARM: usize = 12;
        let rounds = c.rounds as usize;
        let net = Net::new(vec![c.io.clone()]);
        let counter = Arc::new(AtomicU64::new(1 << 41));
        let endings = |l: &Life| -> Vec<Ending> {
            l.acts.iter().map(|a| if let Act::Go(e) = a { *e } else { Ending::NeverPolled }).collect()
        };
        // the index of an act is the index of its ending: every life has the endings of the longest
        let mut all: Vec<Ending> = vec![Ending::NeverPolled];
        for l in &c.lives {
            let e = endings(l);
            if e.len() > all.len() {
                all = e;
            }
        }
        let server = matches!(c.who, Who::Server | Who::Encrypted);
        let faulty = !c.io.0.faults.is_empty() || !c.io.1.faults.is_empty();
        let mut running = None;
        match c.who {
            Who::Server => running = Some(start_server(&net, handlers::<SimListener>(all.clone())).await?),
            #[cfg(feature = "encryption")]
            Who::Encrypted => {
                let b = handlers::<bromine::protocol::encrypted::EncryptedListener<SimListener>>(all.clone());
                let b = b.address(net.clone()).server_options(super::encrypted::open_options());
                running = Some(tokio::spawn(b.build_server()));
                settle().await;
            }
            #[cfg(not(feature = "encryption"))]
            Who::Encrypted => return Ok(Info::new(false)),
            _ => {}
        }
        let mut at_warm = 0;
        let mut growth: Vec<isize> = Vec::with_capacity(rounds);
        for round in 0..WARM + rounds {
            if round == WARM {
                at_warm = crate::alloc::live();
            }
            let mut tasks = vec![];
            let mut listener = None;
            match c.who {
                Who::Server => {
                    for life in &c.lives {
                        let (peer, life, counter) = (RawPeer::connect(&net)?, life.clone(), counter.clone());
                        tasks.push(tokio::spawn(async move { live(peer, life, None, &counter).await }));
                    }
                }
                Who::Encrypted => {
                    #[cfg(feature = "encryption")]
                    for life in &c.lives {
                        let (net, life, counter) = (net.clone(), life.clone(), counter.clone());
                        tasks.push(tokio::spawn(async move {
                            match connect_encrypted(&net, &life, faulty).await? {
                                Some(peer) => live(peer, life, None, &counter).await,
                                None => Ok(()),
                            }
                        }));
                    }
                }
                Who::Client | Who::Pool(_) => {
                    let l = net.listen();
                    let builder = handlers::<SimListener>(all.clone()).address(net.clone());
                    let mut ctxs = vec![];
                    match c.who {
                        Who::Client => ctxs.push(builder.build_client().await.map_err(|e| format!("{e:?}"))?),
                        _ => {
                            let pool = builder.build_pooled_client(c.lives.len()).await.map_err(|e| format!("{e:?}"))?;
                            let guards = guards_in_order(&pool, c.lives.len(), &net).await?;
                            ctxs.extend(guards.iter().map(|g| Context::clone(g)));
                        }
                    }
                    for (ctx, life) in ctxs.into_iter().zip(&c.lives) {
                        let (peer, life, counter) = (RawPeer::new(l.accept().await), life.clone(), counter.clone());
                        tasks.push(tokio::spawn(async move { live(peer, life, Some(ctx), &counter).await }));
                    }
                    listener = Some(l);
                }
            }
            for t in tasks {
                t.await.map_err(|e| format!("panic: {e}"))??;
            }
            // the longest wait of a handler or a request
            sleep_ms(200_000).await;
            for i in 0..net.connections() {
                let (input, output) = released(&net.wires(i), server);
                ensure!(input && output, "connection {i} of round {round} is over but not released (reading half: {input}, writing half: {output})");
            }
            drop(listener);
            net.forget();
            if round >= WARM {
                growth.push(crate::alloc::live() - at_warm);
            }
        }
        ensure!(running.as_ref().map(|r| r.is_finished()) != Some(true), "the server has stopped");
        let total = *growth.last().unwrap();
        let connections = rounds * c.lives.len();
        if std::env::var("BVT_SHOW").is_ok() {
            println!("{total} {} {:?}", connections, c.who);
        }
        // tables may still grow to their final size, not with every connection
        let limit = (2_000 + connections) as isize;
        ensure!(
            total <= limit,
            "{total} bytes are retained after {connections} connections that are over; growth over the rounds: {:?}",
            growth.iter().step_by((rounds / 6).max(1)).collect::<Vec<_>>()
        );
        if let Some(r) = running {
            r.abort();
        }
        let acts = c.lives.iter().map(|l| l.acts.len()).sum::<usize>();
        let mut info = Info::new(acts > 0)
            .label(c.lives.len() > 1, "several at once")
            .label(rounds > 1000, "thousands of connections")
            .label(faulty, "failing transport")
            .label(total == 0, "no growth at all");
        for l in &c.lives {
            let name = format!("{:?}", l.end);
            info.add_label(true, name.split('(').next().unwrap());
        }
        info.labels.sort();
        info.labels.dedup();
        Ok(info)
    })
}

pub fn c25(r: &mut Runner) {
    r.rule("A case is non-trivial if events or requests travel on the connections before they end. Each case repeats its connections 60 to 2500 times.");
    let strategy = || {
        let act = prop_oneof![3 => (0u8..8, blob(300)).prop_map(|(k, b)| Act::Event(k, b)), 2 => ending().prop_map(Act::Go)];
        let end = prop_oneof![
            3 => Just(End::Close),
            2 => Just(End::HalfClose),
            2 => (1u8..200).prop_map(End::Cut),
            2 => any::<u8>().prop_map(End::Garbage),
            3 => Just(End::Stop),
            1 => (0u8..80).prop_map(End::BadHandshake),
        ];
        let life = (vec(act, 0..5), end, any::<bool>(), prop_oneof![Just(0u8), 0u8..100])
            .prop_map(|(acts, end, answers, pause)| Life { acts, end, answers, pause });
        let who = prop_oneof![3 => Just(Who::Server), 2 => Just(Who::Encrypted), 2 => Just(Who::Client), 1 => (1u8..4).prop_map(Who::Pool)];
        let few = (Just(60u16), (io_plan(), io_plan())).boxed();
        let many = (1500u16..2500, (io_plan_coarse(), io_plan_coarse())).boxed();
        (who, vec(life, 1..4), prop_oneof![20 => few, 1 => many]).prop_map(|(who, lives, (rounds, io))| {
            let lives = if who == Who::Client { lives[..1].to_vec() } else { lives };
            Lives { who, lives, rounds, io }
        })
    };
    r.part("rounds", cases(3_000, 60_000), strategy, c25_lives);
    // operations on the transport of the endpoint fail
    let failing = move || {
        let op = prop_oneof![3 => Just(Op::Read), 2 => Just(Op::Write), 1 => Just(Op::Flush), 1 => Just(Op::Shutdown)];
        (strategy(), vec((op, prop_oneof![2 => 0u16..6, 1 => 0u16..40], any::<bool>(), any::<u8>()), 1..3)).prop_map(|(mut c, faults)| {
            let end = if matches!(c.who, Who::Server | Who::Encrypted) { &mut c.io.1 } else { &mut c.io.0 };
            end.faults = faults.into_iter().map(|(op, at, forever, kind)| Fault { op, at, forever, kind }).collect();
            c.rounds = c.rounds.min(300);
            c
        })
    };
    r.part("faults", cases(3_000, 60_000), failing, c25_lives);
}
