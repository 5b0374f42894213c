//! C29 (generated keys and default options)
use super::encrypted::{options, secret};
use crate::ensure;
use crate::gen::*;
use crate::runner::{cases, serial, Info, Outcome, Runner};
use crate::sim::{IoPlan, Net, SimListener};
use crate::util::*;
use bromine::prelude::*;
use bromine::protocol::encrypted::{EncryptedListener, EncryptionOptions};
use bromine::utils::generate_secret;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use x25519_dalek::PublicKey;

type Bytes32 = [u8; 32];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Draws {
    threads: u8,
    each: u32,
    /// by the default options instead of the function, every how many
    default_every: u8,
    /// microseconds since 1970, all the while
    clock: Option<i64>,
}

fn draw(c: &Draws) -> Vec<Bytes32> {
    let list = |_| {
        (0..c.each)
            .map(|i| match c.default_every {
                n if n > 0 && i % n as u32 == 0 => EncryptionOptions::<()>::default().keys.secret.to_bytes(),
                _ => generate_secret().to_bytes(),
            })
            .collect()
    };
    let lists: Vec<Vec<Bytes32>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..c.threads.max(1)).map(|t| s.spawn(move || list(t))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    lists.concat()
}

/// The columns of the bits that mean something: three of the first and two of the last byte are the same in all keys
fn columns(keys: &[Bytes32]) -> Vec<Vec<u64>> {
    let bits = (3..254).map(|bit| {
        let mut column = vec![0u64; keys.len().div_ceil(64)];
        for (i, k) in keys.iter().enumerate() {
            column[i / 64] |= ((k[bit / 8] >> (bit % 8) & 1) as u64) << (i % 64);
        }
        column
    });
    bits.collect()
}

/// Whether a number of heads is out of the question for that many fair coins (beyond eight standard deviations)
fn unfair(heads: u32, coins: usize) -> bool {
    (heads as f64 - coins as f64 / 2.0).abs() > 8.0 * (coins as f64).sqrt() / 2.0
}

fn looks_random(keys: &[Bytes32]) -> Result<(), String> {
    for (half, range) in [("first", 0..16), ("second", 16..32)] {
        let distinct: HashSet<&[u8]> = keys.iter().map(|k| &k[range.clone()]).collect();
        ensure!(distinct.len() == keys.len(), "{} secrets have {} different {half} halves", keys.len(), distinct.len());
    }
    let n = keys.len() / 64 * 64;
    if n < 1024 {
        return Ok(());
    }
    let own = columns(&keys[..n]);
    for (i, a) in own.iter().enumerate() {
        let ones = a.iter().map(|w| w.count_ones()).sum();
        ensure!(!unfair(ones, n), "bit {} is set in {ones} of {n} secrets", i + 3);
        for (j, b) in own.iter().enumerate().skip(i + 1) {
            let same = a.iter().zip(b).map(|(x, y)| (!(x ^ y)).count_ones()).sum();
            ensure!(!unfair(same, n), "bits {} and {} are the same in {same} of {n} secrets", i + 3, j + 3);
        }
    }
    // and the secrets that follow each other
    let mut next = keys[1..n].to_vec();
    next.push(keys[0]);
    let next = columns(&next);
    for (i, a) in own.iter().enumerate() {
        for (j, b) in next.iter().enumerate() {
            let same = a.iter().zip(b).map(|(x, y)| (!(x ^ y)).count_ones()).sum();
            ensure!(!unfair(same, n), "bit {} of a secret is bit {} of the one before {same} times of {n}", j + 3, i + 3);
        }
    }
    Ok(())
}

fn c29_draws(c: &Draws) -> Outcome {
    let guard = crate::clock::Guard;
    if let Some(t) = c.clock {
        crate::clock::set(t);
    }
    let keys = draw(c);
    drop(guard);
    if keys.len() > 1 << 16 {
        let sample: Vec<Bytes32> = keys.iter().step_by(keys.len() >> 14).copied().collect();
        looks_random(&sample)?;
        // even 46 bits of randomness would repeat by now and then
        let mut halves: Vec<u128> = keys.iter().map(|k| u128::from_be_bytes(k[8..24].try_into().unwrap())).collect();
        halves.sort_unstable();
        ensure!(halves.windows(2).all(|w| w[0] != w[1]), "two of {} secrets are the same", keys.len());
    } else {
        looks_random(&keys)?;
    }
    Ok(Info::new(keys.len() > 1).label(c.clock.is_some(), "the clock stands still").label(keys.len() > 1 << 19, "over 500000 secrets"))
}

/// In a process of its own: the first secrets of several threads
pub fn fresh(args: &[String]) {
    let c: Draws = serde_json::from_str(&args[0]).unwrap();
    println!("{}", serde_json::to_string(&draw(&c)).unwrap());
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Processes {
    draws: Draws,
    n: u8,
}

fn c29_processes(c: &Processes) -> Outcome {
    let exe = std::env::current_exe().unwrap_or_else(|e| crate::runner::give_up(&e.to_string()));
    let run = || std::process::Command::new(&exe).arg("secrets").arg(serde_json::to_string(&c.draws).unwrap()).stdout(std::process::Stdio::piped()).spawn();
    // all at the same time
    let children: Vec<_> = (0..c.n).map(|_| run().unwrap_or_else(|e| crate::runner::give_up(&format!("no process: {e}")))).collect();
    let mut all: Vec<Bytes32> = vec![];
    for child in children {
        let out = child.wait_with_output().unwrap_or_else(|e| crate::runner::give_up(&e.to_string()));
        match serde_json::from_slice::<Vec<Bytes32>>(&out.stdout) {
            Ok(keys) if out.status.success() => all.extend(keys),
            _ => return Err("generating secrets fails".into()),
        }
    }
    looks_random(&all)?;
    Ok(Info::new(c.n > 1))
}

/// The options that an end is given
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Given {
    /// none at all
    Nothing,
    Default,
    /// default ones apart from those of the transport
    DefaultOn(u8),
    /// a key, known peers, whether unknown ones are allowed
    Own(u8, u8, bool),
}

type Options<T> = Option<EncryptionOptions<T>>;

impl Given {
    fn options<T: Clone + Default>(&self) -> Options<T> {
        match self {
            Given::Nothing => None,
            Given::Default => Some(EncryptionOptions::default()),
            Given::DefaultOn(_) => Some(EncryptionOptions { inner_options: T::default(), ..EncryptionOptions::default() }),
            Given::Own(own, known, unknown) => Some(options(*own, &(1..=*known).collect::<Vec<_>>(), *unknown)),
        }
    }
    /// Whether it accepts the other one
    fn accepts(&self, other: &Given) -> bool {
        match (self, other) {
            (Given::Own(_, _, true), _) => true,
            (Given::Own(_, known, _), Given::Own(other, _, _)) => (1..=*known).contains(other),
            _ => false,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Defaults {
    server: Given,
    clients: Vec<(Given, Blob)>,
    pool: u8,
    io: (IoPlan, IoPlan),
}

fn c29_defaults(c: &Defaults) -> Outcome {
    run_virtual(async {
        type L = EncryptedListener<SimListener>;
        let net = Net::new(vec![c.io.clone()]);
        let calls = Arc::new(AtomicUsize::new(0));
        let count = calls.clone();
        let builder = || IPCBuilder::<L>::new().address(net.clone()).timeout(Duration::from_secs(1));
        let mut server = builder().on("echo", move |ctx, event| {
            count.fetch_add(1, Ordering::SeqCst);
            Box::pin(async move { ctx.response(raw(event.data_raw().to_vec())) })
        });
        if let Some(o) = c.server.options() {
            server = server.server_options(o);
        }
        let running = tokio::spawn(server.build_server());
        settle().await;
        let mut seen: Vec<(bool, Bytes32)> = vec![];
        let (mut established, mut refused) = (0, 0);
        for (given, data) in &c.clients {
            let at = net.connections();
            let mut b = builder();
            if let Some(o) = given.options() {
                b = b.client_options(o);
            }
            let (mut pool, mut ctx) = (None, None);
            let result = if c.pool == 0 {
                b.build_client().await.map(|c| ctx = Some(c))
            } else {
                b.build_pooled_client(c.pool as usize).await.map(|p| pool = Some(p))
            };
            let accepted = (c.server.accepts(given), given.accepts(&c.server));
            // the keys on the wire
            let wires = net.wires(at);
            let (up, down) = (wires.client_to_server.log(), wires.server_to_client.log());
            ensure!(up.len() >= 32, "the client presents no key");
            let key: Bytes32 = up[..32].try_into().unwrap();
            match given {
                Given::Own(own, ..) => ensure!(key == *PublicKey::from(&secret(*own)).as_bytes(), "the client presents another key than its own"),
                _ => seen.push((true, key)),
            }
            let server_key: Option<Bytes32> = down.get(..32).map(|k| k.try_into().unwrap());
            ensure!(server_key.is_some() == accepted.0, "a server that accepts a client ({}) presents a key: {:?}", accepted.0, server_key.is_some());
            if let (Some(k), Given::Own(own, ..)) = (server_key, c.server) {
                ensure!(k == *PublicKey::from(&secret(own)).as_bytes(), "the server presents another key than its own");
            }
            match result {
                Ok(()) => {
                    ensure!(accepted == (true, true), "{given:?} and {:?} are connected", c.server);
                    established += 1;
                    let guard = pool.as_ref().map(|p| p.acquire());
                    let ctx = ctx.as_ref().or(guard.as_deref()).unwrap();
                    let r = ctx.emit("echo", raw(data.bytes())).await_reply().with_timeout(FOREVER).await;
                    let r = r.map_err(|e| format!("a request fails: {e:?}"))?;
                    ensure!(r.data_raw() == &data.bytes()[..], "the answer is another one");
                }
                Err(e) => {
                    ensure!(accepted != (true, true), "{given:?} and {:?} are not connected: {e:?}", c.server);
                    refused += 1;
                    if accepted.0 {
                        ensure!(
                            matches!((&e, server_key), (IPCError::UnknownPeer(k), Some(s)) if *k.as_bytes() == s),
                            "the client refuses the server with {e:?}"
                        );
                    }
                }
            }
        }
        ensure!(calls.load(Ordering::SeqCst) == established, "{} requests of {established} clients are handled", calls.load(Ordering::SeqCst));
        ensure!(!running.is_finished(), "the server has stopped");
        running.abort();
        let distinct: HashSet<_> = seen.iter().collect();
        ensure!(distinct.len() == seen.len(), "{} clients with default options have {} keys", seen.len(), distinct.len());
        Ok(Info::new(true)
            .label(established > 0, "established")
            .label(refused > 0, "refused")
            .label(!matches!(c.server, Given::Own(..)), "a server with default options")
            .label(seen.len() > 1, "several clients with default options"))
    })
}

fn given() -> BoxedStrategy<Given> {
    prop_oneof![
        1 => Just(Given::Nothing),
        1 => Just(Given::Default),
        1 => any::<u8>().prop_map(Given::DefaultOn),
        4 => (1u8..6, 0u8..6, any::<bool>()).prop_map(|(a, b, c)| Given::Own(a, b, c)),
    ]
    .boxed()
}

pub fn c29(r: &mut Runner) {
    r.rule("A case is non-trivial if it draws several secrets or two endpoints meet.");
    let draws = |each: BoxedStrategy<u32>| {
        let clock = prop_oneof![2 => Just(None), 1 => prop_oneof![Just(0i64), 0i64..1 << 52].prop_map(Some)];
        (1u8..9, each, prop_oneof![1 => Just(0u8), 2 => 1u8..4], clock)
            .prop_map(|(threads, each, default_every, clock)| Draws { threads, each, default_every, clock })
    };
    r.part("few", serial(1500, 20_000), || draws((1u32..600).boxed()), c29_draws);
    r.part("many", serial(8, 80), || draws((700_000u32..1_000_000).boxed()), c29_draws);
    let processes = || {
        (draws((1u32..20).boxed()), 2u8..12).prop_map(|(draws, n)| Processes { draws: Draws { clock: None, ..draws }, n })
    };
    r.part("processes", cases(200, 3000), processes, c29_processes);
    let io = || (io_plan(), io_plan());
    let clients = || proptest::collection::vec((given(), blob(300)), 1..6);
    let pool = || prop_oneof![2 => Just(0u8), 1 => 1u8..4];
    let defaults = || (given(), clients(), pool(), io()).prop_map(|(server, clients, pool, io)| Defaults { server, clients, pool, io });
    r.part("defaults", cases(30_000, 500_000), defaults, c29_defaults);
}
