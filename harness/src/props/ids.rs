//! C18 (unique event ids)
use crate::ensure;
use crate::gen::*;
use crate::refcodec::{self, Frame};
use crate::runner::{cases, serial, Info, Outcome, Runner};
use crate::sim::{IoPlan, Net};
use crate::util::*;
use bromine::event::Event as Ev;
use bromine::prelude::*;
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

// every id seen in this process so far (as far as this property is concerned)
static SEEN: Mutex<Option<HashSet<u64>>> = Mutex::new(None);
const SEEN_LIMIT: usize = 40_000_000;

fn note(ids: &[u64]) -> Result<(), String> {
    // the set is the harness' own memory
    let before = crate::alloc::guard(false);
    let r = note_all(ids);
    crate::alloc::guard(before);
    r
}

fn note_all(ids: &[u64]) -> Result<(), String> {
    let mut g = SEEN.lock().unwrap_or_else(|e| e.into_inner());
    let set = g.get_or_insert_with(HashSet::new);
    if set.len() > SEEN_LIMIT {
        set.clear();
    }
    for id in ids {
        ensure!(set.insert(*id), "the id {id} ({id:#x}) was given to two events");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Burst {
    /// per thread: (events, kind of the first, pause after that many)
    threads: Vec<(u32, u8, u16)>,
}

fn c18_burst(c: &Burst) -> Outcome {
    let barrier = Barrier::new(c.threads.len());
    let name = String::new;
    let lists: Vec<Vec<u64>> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .map(|(n, kind, pause)| {
                let barrier = &barrier;
                s.spawn(move || {
                    let mut ids = Vec::with_capacity(*n as usize);
                    barrier.wait();
                    for i in 0..*n {
                        let e = match (i as u8).wrapping_add(*kind) % 4 {
                            0 => Ev::initiator(None, name(), Default::default()),
                            1 => Ev::response(None, name(), Default::default(), 5),
                            2 => Ev::error(None, name(), Default::default(), 5),
                            _ => Ev::end(None, name(), Default::default(), 5),
                        };
                        ids.push(e.id());
                        if *pause > 0 && i % *pause as u32 == 0 {
                            std::thread::yield_now();
                        }
                    }
                    ids
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let all: Vec<u64> = lists.concat();
    let distinct: HashSet<u64> = all.iter().copied().collect();
    ensure!(distinct.len() == all.len(), "{} events have {} ids", all.len(), distinct.len());
    note(&all)?;
    Ok(Info::new(c.threads.len() > 1 && all.len() > 1).label(all.len() > 65_536, "more than 65536 at once"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talk {
    clients: Vec<u8>,
    /// (client, how, how it is answered, further emits of the handler, data)
    ops: Vec<(u8, u8, u8, u8, Blob)>,
    io: (IoPlan, IoPlan),
}

#[derive(Default)]
struct Seen {
    /// contents -> id, as the emitter was told
    emitted: HashMap<Vec<u8>, u64>,
    /// as the receiver saw it
    received: Vec<(Vec<u8>, u64)>,
    errors: Vec<String>,
}

fn talk_handler(ops: Arc<Vec<(u8, u8, u8, u8, Blob)>>, seen: Arc<Mutex<Seen>>) -> impl for<'a> Fn(&'a Context, Event) -> HFut<'a> + Send + Sync + 'static {
    hf(move |ctx, event| {
        let (ops, seen) = (ops.clone(), seen.clone());
        Box::pin(async move {
            let data = event.data_raw().to_vec();
            seen.lock().unwrap().received.push((data.clone(), event.id()));
            let i = data[0] as usize;
            let (_, _, answer, more, _) = &ops[i];
            if data[1] > 0 {
                return Ok(Response::empty());
            }
            for k in 0..*more {
                let d = vec![i as u8, 100 + k];
                let id = if k % 2 == 0 { ctx.emit("more", raw(d.clone())).await? } else { ctx.emit_to("n0", "more", raw(d.clone())).await? };
                seen.lock().unwrap().emitted.insert(d, id);
            }
            match answer % 3 {
                0 => Ok(Response::empty()),
                1 => ctx.response(raw(vec![i as u8, 250])),
                _ => Err("no".into()),
            }
        })
    })
}

async fn talk(c: Talk, threads: bool) -> Outcome {
    let net = Net::new(vec![c.io.clone()]);
    let seen: Arc<Mutex<Seen>> = Default::default();
    let ops = Arc::new(c.ops.clone());
    let builder = || {
        let h = || talk_handler(ops.clone(), seen.clone());
        Builder::new().on("x", h()).on("more", h()).namespace("n0").on("x", h()).on("more", h()).build()
    };
    start_server(&net, builder()).await?;
    let mut ctxs = vec![];
    let mut keep = vec![];
    for size in &c.clients {
        let b = builder().address(net.clone()).timeout(Duration::from_millis(20_000));
        if *size == 0 {
            ctxs.push(b.build_client().await.map_err(|e| format!("{e:?}"))?);
        } else {
            let p = b.build_pooled_client(*size as usize).await.map_err(|e| format!("{e:?}"))?;
            for _ in 0..*size {
                let g = p.acquire();
                ctxs.push(Context::clone(&g));
                keep.push(g);
            }
        }
    }
    let mut tasks = vec![];
    for (i, (client, how, ..)) in c.ops.iter().enumerate() {
        let (ctx, how, seen) = (ctxs[*client as usize % ctxs.len()].clone(), *how, seen.clone());
        let mut d = vec![i as u8, 0];
        d.extend(c.ops[i].4.bytes());
        tasks.push(tokio::spawn(async move {
            let r: Result<(), String> = async {
                let m = if how % 2 == 0 { ctx.emit("x", raw(d.clone())) } else { ctx.emit_to("n0", "x", raw(d.clone())) };
                match how / 2 % 3 {
                    0 => {
                        let id = err_text(m.await)?;
                        seen.lock().unwrap().emitted.insert(d, id);
                    }
                    1 => match m.await_reply().await {
                        Ok(e) => {
                            // the reply refers to the id that the receiver saw
                            let seen = seen.lock().unwrap();
                            let id = seen.received.iter().find(|(r, _)| *r == d).map(|(_, id)| *id);
                            ensure!(e.reference_id() == id && id.is_some(), "the reply refers to {:?} instead of {id:?}", e.reference_id());
                        }
                        Err(IPCError::ErrorEvent(_)) => {}
                        Err(e) => return Err(format!("{e:?}")),
                    },
                    _ => {
                        let mut s = err_text(m.stream_replies().await)?;
                        while let Some(e) = s.next().await {
                            match e {
                                Ok(_) | Err(IPCError::ErrorEvent(_)) => {}
                                Err(e) => return Err(format!("{e:?}")),
                            }
                        }
                    }
                }
                Ok(())
            }
            .await;
            if let Err(e) = r {
                seen.lock().unwrap().errors.push(e);
            }
        }));
    }
    for t in tasks {
        t.await.map_err(|e| format!("panic: {e}"))?;
    }
    // until all events and answers are through: every event of the clients that is not a reply gets one answer
    let frames = || -> Result<Vec<Frame>, String> {
        let mut all = vec![];
        for i in 0..net.connections() {
            let w = net.wires(i);
            all.extend(refcodec::decode_all(&w.client_to_server.log())?.0);
            all.extend(refcodec::decode_all(&w.server_to_client.log())?.0);
        }
        Ok(all)
    };
    let mut last = 0;
    for _ in 0..2000 {
        sleep_ms(if threads { 2 } else { 50 }).await;
        let n = frames()?.len();
        if n == last {
            break;
        }
        last = n;
    }
    let frames = frames()?;
    let ids: Vec<u64> = frames.iter().map(|f| f.id).collect();
    let distinct: HashSet<u64> = ids.iter().copied().collect();
    ensure!(distinct.len() == ids.len(), "{} events on the wires have {} ids", ids.len(), distinct.len());
    note(&ids)?;
    let seen = seen.lock().unwrap();
    if let Some(e) = seen.errors.first() {
        return Err(e.clone());
    }
    for (d, id) in seen.emitted.iter() {
        let f = frames.iter().find(|f| f.data == *d && f.ty < 2);
        let f = f.ok_or_else(|| "an emitted event is not on the wire".to_string())?;
        ensure!(f.id == *id, "the emitter was told the id {id}, on the wire it is {}", f.id);
    }
    for (d, id) in seen.received.iter() {
        ensure!(
            frames.iter().any(|f| f.data == *d && f.id == *id && f.ty < 2),
            "a handler sees the id {id}, which is not on the wire with this event"
        );
    }
    drop(keep);
    Ok(Info::new(ids.len() > 1)
        .label(ctxs.len() > 1, "several connections")
        .label(frames.iter().any(|f| f.ty == refcodec::ERROR), "error answers")
        .label(frames.iter().any(|f| f.ty == refcodec::RESPONSE), "responses")
        .label(threads, "threads"))
}

/// One step of the system's clock and the events created after it
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tick {
    Stand,
    /// microseconds
    Forward(u64),
    Back(u64),
    /// seconds, milliseconds: all the way around what fits into 16 bits of seconds
    Around(i32, i16),
    Set(u32, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Clock {
    start: (u32, u16),
    /// (step, events, of which every one whose id passes a filter of one in this many is remembered)
    steps: Vec<(Tick, u64)>,
    threads: u8,
    keep: u64,
}

fn mix(id: u64) -> u64 {
    let mut z = id.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z ^ (z >> 32)
}

fn c18_clock(c: &Clock) -> Outcome {
    let now = c.start.0 as i64 * 1_000_000 + c.start.1 as i64 * 1000;
    let _off = crate::clock::Guard;
    // the lists of ids are the harness' own memory
    let before = crate::alloc::guard(false);
    let r = c18_clock_ids(c, now);
    crate::alloc::guard(before);
    r
}

fn c18_clock_ids(c: &Clock, mut now: i64) -> Outcome {
    let mut ids: Vec<u64> = vec![];
    let mut total = 0;
    for (tick, n) in &c.steps {
        now = match tick {
            Tick::Stand => now,
            Tick::Forward(us) => now + *us as i64,
            Tick::Back(us) => now - *us as i64,
            Tick::Around(times, ms) => now + *times as i64 * 65_535_000_000 + *ms as i64 * 1000,
            Tick::Set(s, ms) => *s as i64 * 1_000_000 + *ms as i64 * 1000,
        }
        .clamp(0, 8_000_000_000_000_000);
        crate::clock::set(now);
        total += n;
        let create = |n: u64| {
            let before = crate::alloc::guard(false);
            let mut ids = vec![];
            for _ in 0..n {
                let id = Ev::initiator(None, String::new(), Default::default()).id();
                if c.keep == 1 || mix(id) % c.keep == 0 {
                    ids.push(id);
                }
            }
            crate::alloc::guard(before);
            ids
        };
        if c.threads < 2 {
            ids.extend(create(*n));
        } else {
            let lists: Vec<Vec<u64>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..c.threads).map(|_| s.spawn(|| create(*n / c.threads as u64))).collect();
                while *n > 1 << 20 && !hs.iter().all(|h| h.is_finished()) {
                    std::thread::sleep(Duration::from_millis(100));
                }
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            lists.into_iter().for_each(|l| ids.extend(l));
        }
    }
    let kept = ids.len();
    ids.sort_unstable();
    if let Some(w) = ids.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("the id {} ({:#x}) was given to two events", w[0], w[0]));
    }
    Ok(Info::new(kept > 1 && c.steps.len() > 1)
        .label(c.steps.iter().any(|s| matches!(s.0, Tick::Back(_))), "the clock is set back")
        .label(c.steps.iter().any(|s| matches!(s.0, Tick::Around(..))), "the seconds of the ids are repeated")
        .label(total > 1 << 24, "more than 2^24 events")
        .label(total > 1 << 32, "more than 2^32 events"))
}

/// The first events of a process, created by several threads at once
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh {
    /// per thread: spins before the first event, events
    threads: Vec<(u16, u8)>,
}

/// The process: prints the ids of all events that its threads create
pub fn fresh(args: &[String]) {
    let c: Fresh = serde_json::from_str(&args[0]).expect("case");
    let go = std::sync::atomic::AtomicUsize::new(0);
    let ready = || go.load(std::sync::atomic::Ordering::SeqCst) == c.threads.len();
    let lists: Vec<Vec<u64>> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .map(|(spins, n)| {
                let (go, ready) = (&go, &ready);
                s.spawn(move || {
                    go.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    while !ready() {
                        std::hint::spin_loop();
                    }
                    (0..*spins).for_each(|_| std::hint::spin_loop());
                    (0..*n).map(|_| Ev::initiator(None, String::new(), Default::default()).id()).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    println!("{}", serde_json::to_string(&lists.concat()).unwrap());
}

fn c18_fresh(c: &Fresh) -> Outcome {
    let exe = std::env::current_exe().unwrap_or_else(|e| crate::runner::give_up(&e.to_string()));
    let out = std::process::Command::new(exe).arg("ids").arg(serde_json::to_string(c).unwrap()).output();
    let out = out.unwrap_or_else(|e| crate::runner::give_up(&format!("no process: {e}")));
    let text = String::from_utf8_lossy(&out.stdout);
    let ids: Vec<u64> = match serde_json::from_str(&text) {
        Ok(ids) if out.status.success() => ids,
        _ => return Err(format!("creating events fails: {:.300}", String::from_utf8_lossy(&out.stderr))),
    };
    let distinct: HashSet<u64> = ids.iter().copied().collect();
    ensure!(distinct.len() == ids.len(), "the first {} events of a process have {} ids: {ids:?}", ids.len(), distinct.len());
    Ok(Info::new(c.threads.iter().filter(|t| t.1 > 0).count() > 1))
}

/// Threads that come and go
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Generations {
    /// (threads, events of each)
    generations: Vec<(u8, u8)>,
}

fn c18_generations(c: &Generations) -> Outcome {
    let mut all = vec![];
    for (threads, n) in &c.generations {
        let lists: Vec<Vec<u64>> = std::thread::scope(|s| {
            let create = || (0..*n).map(|_| Ev::initiator(None, String::new(), Default::default()).id()).collect();
            let hs: Vec<_> = (0..*threads).map(|_| s.spawn(create)).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        all.extend(lists.concat());
    }
    let distinct: HashSet<u64> = all.iter().copied().collect();
    ensure!(distinct.len() == all.len(), "{} events have {} ids", all.len(), distinct.len());
    note(&all)?;
    Ok(Info::new(all.len() > 1))
}

pub fn c18(r: &mut Runner) {
    r.rule("A case is non-trivial if at least two events are created, in bursts by at least two threads.");
    r.part(
        "bursts",
        serial(400, 6_000),
        || {
            let n = prop_oneof![4 => 0u32..300, 3 => 0u32..5_000, 1 => 10_000u32..40_000];
            let pause = prop_oneof![3 => Just(0u16), 1 => 1u16..100];
            vec((n, 0u8..4, pause), 1..17).prop_map(|threads| Burst { threads })
        },
        c18_burst,
    );
    r.part(
        "first events",
        serial(500, 6_000),
        || vec((prop_oneof![3 => Just(0u16), 1 => 0u16..200], 0u8..4), 2..9).prop_map(|threads| Fresh { threads }),
        c18_fresh,
    );
    r.part(
        "generations of threads",
        serial(500, 8_000),
        || vec((1u8..9, 0u8..200), 1..12).prop_map(|generations| Generations { generations }),
        c18_generations,
    );
    let start = || (prop_oneof![Just(0u32), 1_700_000_000..1_800_000_000u32, any::<u32>()], 0u16..1000);
    r.part(
        "clocks",
        serial(6_000, 100_000),
        || {
            let tick = prop_oneof![
                2 => Just(Tick::Stand),
                3 => prop_oneof![0u64..3_000, 0u64..5_000_000].prop_map(Tick::Forward),
                3 => prop_oneof![0u64..3_000, 0u64..5_000_000].prop_map(Tick::Back),
                3 => (-3i32..=3, -2i16..=2).prop_map(|(t, m)| Tick::Around(t, m)),
                1 => start().prop_map(|(s, m)| Tick::Set(s, m)),
            ];
            let n = prop_oneof![3 => 0u64..10, 2 => 0u64..400, 1 => 0u64..5_000];
            (start(), vec((tick, n), 1..12), 1u8..5).prop_map(|(start, steps, threads)| Clock { start, steps, threads, keep: 1 })
        },
        c18_clock,
    );
    r.part(
        "many events",
        serial(3, 12),
        || {
            // rounds of tens of millions of events, after each of which the clock shows the same time again
            (start(), 18u64..24, vec(1i32..4, 1..3)).prop_map(|(start, millions, around)| {
                let n = millions * 1_000_000;
                let mut steps = vec![(Tick::Stand, n)];
                steps.extend(around.into_iter().map(|t| (Tick::Around(t, 0), n)));
                Clock { start, steps, threads: 8, keep: 1 }
            })
        },
        c18_clock,
    );
    if r.thorough || r.replay.is_some() {
        r.part(
            "billions of events",
            serial(1, 1),
            || start().prop_map(|(s, ms)| Clock { start: (s, ms | 1), steps: vec![(Tick::Stand, (1 << 32) + (1 << 28)), (Tick::Around(1, 0), 1 << 28)], threads: 8, keep: 1024 }),
            c18_clock,
        );
    }
    let strategy = || {
        let op = (0u8..8, 0u8..6, 0u8..3, 0u8..6, blob(200));
        (vec(0u8..4, 1..4), vec(op, 1..15), (io_plan(), io_plan())).prop_map(|(clients, ops, io)| Talk { clients, ops, io })
    };
    r.part("endpoints", cases(60_000, 900_000), strategy, |c: &Talk| run_virtual(talk(c.clone(), false)));
    r.part("threads", serial(400, 6_000), strategy, |c: &Talk| {
        run_threads(8, Duration::from_secs(60), talk(c.clone(), true))
    });
}
