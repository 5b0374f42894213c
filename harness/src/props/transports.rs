//! C23 (transports), C24 (builders)
use crate::ensure;
use crate::gen::*;
use crate::refcodec::{self, Frame};
use crate::runner::{cases, serial, Info, Outcome, Runner};
use crate::sim::{IoPlan, Net, SimListener, SimOptions};
use crate::util::*;
use bromine::error::Error as BromineError;
use bromine::prelude::*;
use bromine::protocol::tcp::TcpOptions;
use bromine::protocol::{AsyncProtocolStream, AsyncStreamProtocolListener};
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream, UnixListener, UnixStream};

const LIMIT: Duration = Duration::from_secs(60);

// ------------------------------------------------------------------------------------------------------------- C23

/// A loopback address that no other case of this process uses
fn tcp_addr() -> SocketAddr {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let port = 10_000 + (std::process::id() % 20_000) as u16;
    loop {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let a = SocketAddr::from(([127, 1 + (n / 62_500 % 250) as u8, 1 + (n / 250 % 250) as u8, 1 + (n % 250) as u8], port));
        if std::net::TcpListener::bind(a).is_ok() {
            return a;
        }
    }
}

/// A directory of its own, removed when dropped
struct Dir(PathBuf);

impl Dir {
    fn new() -> Self {
        static NEXT: AtomicU32 = AtomicU32::new(0);
        let p = std::env::temp_dir().join(format!("bvt-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
    fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs a case in real time, on one or more threads
fn run_real<T: Send + 'static>(threads: bool, fut: impl Future<Output = Result<T, String>> + Send + 'static) -> Result<T, String> {
    if threads {
        return run_threads(2, LIMIT, fut);
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(async { real_limit(LIMIT, fut).await? });
    rt.shutdown_timeout(Duration::from_secs(5));
    r
}

/// What a client does; everything has one outcome
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Note(Blob),
    Echo(Blob),
    EchoTo(Blob),
    Fail(u8),
    Unknown,
    /// nobody answers in this time (ms)
    Silent(u8),
    Stream(u8, Blob),
    FailingStream(u8),
    Ask(Blob),
    Burst(u8, Blob),
    /// an event that the format cannot represent
    TooLong,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Work {
    ops: Vec<(u8, Op)>,
    pool: u8,
    threads: bool,
    io: (IoPlan, IoPlan),
}

type Notes = Arc<Mutex<Vec<Vec<u8>>>>;

fn work_server<L: AsyncStreamProtocolListener>(notes: Notes) -> IPCBuilder<L> {
    let (notes2, notes3) = (notes.clone(), notes.clone());
    IPCBuilder::<L>::new()
        .on("note", move |_, event| {
            notes.lock().unwrap().push(event.data_raw().to_vec());
            Box::pin(async move { Ok(Response::empty()) })
        })
        .on("echo", |ctx, event| Box::pin(async move { ctx.response(raw(event.data_raw().to_vec())) }))
        .on("fail", |_, event| {
            Box::pin(async move { Err(IPCError::Message(format!("it fails with {}", event.data_raw()[0]))) })
        })
        .on("silent", |_, _| {
            Box::pin(async move {
                std::future::pending::<()>().await;
                Ok(Response::empty())
            })
        })
        .on("count", |ctx, event| {
            Box::pin(async move {
                let d = event.data_raw();
                for i in 0..d[0] {
                    let mut item = vec![i];
                    item.extend(&d[1..]);
                    ctx.emit("item", raw(item)).await?;
                }
                if d.len() == 1 {
                    return Err(IPCError::Message("no contents".into()));
                }
                ctx.response(raw(vec![d[0]]))
            })
        })
        .on("ask", move |ctx, event| {
            let notes = notes3.clone();
            Box::pin(async move {
                let r = ctx.emit("back", raw(event.data_raw().to_vec())).await_reply().await?;
                notes.lock().unwrap().push(r.data_raw().to_vec());
                Ok(Response::empty())
            })
        })
        .namespace("ns")
        .on("echo", move |ctx, event| {
            notes2.lock().unwrap().push(b"ns".to_vec());
            Box::pin(async move {
                let mut d = event.data_raw().to_vec();
                d.reverse();
                ctx.response(raw(d))
            })
        })
        .build()
}

fn work_client<L: AsyncStreamProtocolListener>() -> IPCBuilder<L> {
    IPCBuilder::<L>::new().timeout(Duration::from_secs(40)).on("back", |ctx, event| {
        Box::pin(async move {
            let mut d = event.data_raw().to_vec();
            d.push(b'!');
            ctx.response(raw(d))
        })
    })
}

fn brief(d: &[u8]) -> String {
    let h = d.iter().fold(0u64, |h, b| h.wrapping_mul(1_000_003).wrapping_add(*b as u64 + 1));
    format!("{}:{h:x}", d.len())
}

fn reply(ty: u8, d: &[u8]) -> String {
    format!("type {ty} {}", brief(d))
}

fn outcome(r: IPCResult<Event>) -> String {
    match r {
        Ok(e) => reply(type_num(e.event_type()), e.data_raw()),
        Err(BromineError::ErrorEvent(e)) => {
            // however the message is dressed up
            let at = e.message.find("it fails with").unwrap_or(0);
            let n: String = e.message[at..].chars().filter(|c| c.is_ascii_digit()).collect();
            format!("error {} it fails with {n}", e.code)
        }
        Err(BromineError::Timeout) => "timeout".into(),
        Err(_) => "failure".into(),
    }
}

async fn perform(ctx: &Context, op: &Op) -> Vec<String> {
    match op {
        Op::Note(b) => vec![outcome(ctx.emit("note", raw(b.bytes())).await_reply().await)],
        Op::Echo(b) => vec![outcome(ctx.emit("echo", raw(b.bytes())).await_reply().await)],
        Op::EchoTo(b) => vec![outcome(ctx.emit_to("ns", "echo", raw(b.bytes())).await_reply().await)],
        Op::Fail(k) => vec![outcome(ctx.emit("fail", raw(vec![*k])).await_reply().await)],
        Op::Unknown => vec![outcome(ctx.emit_to("nowhere", "echo", raw(vec![1])).await_reply().await)],
        Op::Silent(ms) => {
            let r = ctx.emit("silent", raw(vec![])).await_reply().with_timeout(Duration::from_millis(*ms as u64)).await;
            vec![outcome(r)]
        }
        Op::Stream(n, b) => {
            let mut d = vec![*n];
            d.extend(b.bytes());
            collect(ctx.emit("count", raw(d))).await
        }
        Op::FailingStream(n) => collect(ctx.emit("count", raw(vec![*n]))).await,
        // the question reaches the handler of the client because nobody waits
        Op::Ask(b) => vec![if ctx.emit("ask", raw(b.bytes())).await.is_ok() { "sent".into() } else { "failure".into() }],
        Op::Burst(n, b) => {
            let all = (0..*n).map(|i| {
                let mut d = vec![i];
                d.extend(b.bytes());
                async move { outcome(ctx.emit("echo", raw(d)).await_reply().await) }
            });
            futures::future::join_all(all).await
        }
        Op::TooLong => {
            let r = ctx.emit("x".repeat(70_000), raw(vec![])).await;
            vec![if r.is_ok() { "sent".into() } else { "failure".into() }]
        }
    }
}

async fn collect<P: IntoPayload + Send + Sync + 'static>(m: emit_metadata::EmitMetadata<P>) -> Vec<String> {
    let mut out = vec![];
    match m.stream_replies().await {
        Ok(mut s) => {
            while let Some(r) = s.next().await {
                out.push(match r {
                    Ok(e) if type_num(e.event_type()) == refcodec::ERROR => "error event".to_string(),
                    r => outcome(r),
                })
            }
            out.push("end".into());
        }
        Err(_) => out.push("failure".into()),
    }
    out
}

/// What must come out, on every transport
fn model(op: &Op) -> Vec<String> {
    let end = |d: &[u8]| vec![reply(refcodec::END, d)];
    let with = |first: u8, b: &Blob| {
        let mut d = vec![first];
        d.extend(b.bytes());
        d
    };
    match op {
        Op::Note(_) | Op::Unknown => end(&[]),
        Op::Echo(b) => end(&b.bytes()),
        Op::EchoTo(b) => end(&b.bytes().into_iter().rev().collect::<Vec<_>>()),
        Op::Fail(k) => vec![format!("error 500 it fails with {k}")],
        Op::Silent(_) => vec!["timeout".into()],
        Op::Stream(n, b) => {
            let mut v: Vec<_> = (0..*n).map(|i| reply(refcodec::RESPONSE, &with(i, b))).collect();
            if b.bytes().is_empty() {
                v.push("error event".into());
            } else {
                v.extend(end(&[*n]));
            }
            v.push("end".into());
            v
        }
        Op::FailingStream(n) => model(&Op::Stream(*n, Blob { n: 0, s: 0 })),
        Op::Ask(_) => vec!["sent".into()],
        Op::Burst(n, b) => (0..*n).map(|i| reply(refcodec::END, &with(i, b))).collect(),
        Op::TooLong => vec!["failure".into()],
    }
}

fn notes_of(ops: &[(u8, Op)]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ops
        .iter()
        .filter_map(|(_, o)| match o {
            Op::Note(b) => Some(b.bytes()),
            Op::EchoTo(_) => Some(b"ns".to_vec()),
            Op::Ask(b) => {
                let mut d = b.bytes();
                d.push(b'!');
                Some(d)
            }
            _ => None,
        })
        .collect();
    v.sort();
    v
}

fn refused(e: &BromineError) -> bool {
    use std::io::ErrorKind::*;
    matches!(e, BromineError::IoError(e) if matches!(e.kind(), ConnectionRefused | NotFound))
}

/// Connects as soon as the server listens
async fn connected<T, F: Future<Output = IPCResult<T>>>(
    server: &tokio::task::JoinHandle<IPCResult<()>>,
    connect: impl Fn() -> F,
) -> Result<T, String> {
    for _ in 0..5000 {
        match connect().await {
            Ok(c) => return Ok(c),
            Err(e) if refused(&e) && !server.is_finished() => tokio::time::sleep(Duration::from_millis(1)).await,
            Err(e) => return Err(format!("connecting failed: {e:?}")),
        }
    }
    Err("the server does not listen".into())
}

async fn work<L>(
    c: &Work,
    address: L::AddressType,
    so: L::ListenerOptions,
    co: <L::Stream as AsyncProtocolStream>::StreamOptions,
) -> Result<(), String>
where
    L: AsyncStreamProtocolListener + 'static,
    L::AddressType: 'static,
{
    let notes = Notes::default();
    let server = tokio::spawn(work_server::<L>(notes.clone()).address(address.clone()).server_options(so).build_server());
    let builder = || work_client::<L>().address(address.clone()).client_options(co.clone());
    let mut ctxs = vec![];
    let mut guards = vec![];
    if c.pool == 0 {
        ctxs.push(connected(&server, || builder().build_client()).await?);
    } else {
        let pool = connected(&server, || builder().build_pooled_client(c.pool as usize)).await?;
        for _ in 0..c.pool {
            let g = pool.acquire();
            ctxs.push(Context::clone(&g));
            guards.push(g);
        }
    }
    for (i, (conn, op)) in c.ops.iter().enumerate() {
        let got = perform(&ctxs[*conn as usize % ctxs.len()], op).await;
        let want = model(op);
        ensure!(got == want, "operation {i} ({op:?}): {got:.300?} instead of {want:.300?}");
    }
    let want = notes_of(&c.ops);
    let mut pause = 1;
    while notes.lock().unwrap().len() < want.len() {
        tokio::time::sleep(Duration::from_millis(pause)).await;
        pause = (pause + 1).min(100);
    }
    let mut seen = notes.lock().unwrap().clone();
    seen.sort();
    ensure!(seen == want, "the server handled other events than were emitted");
    ensure!(!server.is_finished(), "the server stopped");
    // the server goes on after its clients are gone
    drop(guards);
    for ctx in ctxs {
        let _ = ctx.stop().await;
    }
    let again = connected(&server, || builder().build_client()).await?;
    let (op, d) = (Op::Echo(Blob { n: 5, s: 1 }), Blob { n: 5, s: 1 }.bytes());
    let got = perform(&again, &op).await;
    ensure!(got == vec![reply(refcodec::END, &d)], "a later client: {got:?}");
    let _ = again.stop().await;
    server.abort();
    let _ = server.await;
    Ok(())
}

fn c23_work(c: &Work) -> Outcome {
    let c2 = c.clone();
    run_real(c.threads, async move {
        let c = c2;
        let at = |t: &'static str| move |e: String| format!("{t}: {e}");
        work::<SimListener>(&c, Net::new(vec![c.io.clone()]), SimOptions(0), SimOptions(0)).await.map_err(at("in memory"))?;
        work::<TcpListener>(&c, tcp_addr(), Default::default(), Default::default()).await.map_err(at("tcp"))?;
        let dir = Dir::new();
        work::<UnixListener>(&c, dir.path("plain"), (), ()).await.map_err(at("unix"))?;
        #[cfg(feature = "encryption")]
        {
            use super::encrypted::options;
            use bromine::protocol::encrypted::EncryptedListener;
            let net = Net::new(vec![c.io.clone()]);
            work::<EncryptedListener<SimListener>>(&c, net, options(1, &[2], false), options(2, &[1], false))
                .await
                .map_err(at("in memory, encrypted"))?;
            work::<EncryptedListener<TcpListener>>(&c, tcp_addr(), options(1, &[2], false), options(2, &[1], false))
                .await
                .map_err(at("tcp, encrypted"))?;
            work::<EncryptedListener<UnixListener>>(&c, dir.path("enc"), options(1, &[2], false), options(2, &[1], false))
                .await
                .map_err(at("unix, encrypted"))?;
        }
        Ok(Info::new(c.ops.len() > 1)
            .label(c.pool > 1, "pool")
            .label(c.threads, "threads")
            .label(!c.io.0.is_plain() || !c.io.1.is_plain(), "splits and delays in memory")
            .label(c.ops.iter().any(|o| matches!(o.1, Op::Silent(_))), "timeouts")
            .label(c.ops.iter().any(|o| matches!(o.1, Op::Stream(..) | Op::FailingStream(_))), "streams")
            .label(c.ops.iter().any(|o| matches!(o.1, Op::Fail(_) | Op::FailingStream(_) | Op::TooLong)), "failures"))
    })
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => blob(3000).prop_map(Op::Note),
        3 => prop_oneof![4 => blob(3000), 1 => blob(300_000)].prop_map(Op::Echo),
        2 => blob(3000).prop_map(Op::EchoTo),
        2 => any::<u8>().prop_map(Op::Fail),
        1 => Just(Op::Unknown),
        1 => (1u8..12).prop_map(Op::Silent),
        3 => (0u8..30, blob(2000)).prop_map(|(n, b)| Op::Stream(n, b)),
        1 => (0u8..30).prop_map(Op::FailingStream),
        2 => blob(3000).prop_map(Op::Ask),
        2 => (1u8..20, blob(20_000)).prop_map(|(n, b)| Op::Burst(n, b)),
        1 => Just(Op::TooLong),
    ]
    .boxed()
}

// --- raw peers on real sockets

#[derive(Clone, Debug, Serialize, Deserialize)]
enum RawEnd {
    /// closes after everything was answered
    Close,
    /// closes without reading the answers
    Abrupt,
    /// sends so many permille of another event and closes
    Cut(u16),
    /// stops writing, reads the rest
    HalfClose,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawCase {
    unix: bool,
    threads: bool,
    /// per peer: (events, bytes per write (0 for all at once), how it ends)
    peers: Vec<(Vec<Blob>, u16, RawEnd)>,
    /// what a client emits before it stops
    emits: Vec<Blob>,
    /// its peer starts to read after so many ms
    lazy: u8,
}

trait Socket: tokio::io::AsyncRead + tokio::io::AsyncWrite + Unpin + Send {}
impl<T: tokio::io::AsyncRead + tokio::io::AsyncWrite + Unpin + Send> Socket for T {}

enum Place {
    Tcp(SocketAddr),
    Unix(PathBuf),
}

async fn dial(p: &Place) -> std::io::Result<Box<dyn Socket>> {
    Ok(match p {
        Place::Tcp(a) => {
            let s = TcpStream::connect(a).await?;
            s.set_nodelay(true)?;
            Box::new(s)
        }
        Place::Unix(p) => Box::new(UnixStream::connect(p).await?),
    })
}

async fn raw_peer(place: Arc<Place>, events: Vec<Blob>, chunk: u16, end: RawEnd) -> Result<(), String> {
    let io = |e: std::io::Error| format!("a peer's socket: {e}");
    let s = dial(&place).await.map_err(io)?;
    let (r, mut w) = tokio::io::split(s);
    let mut reader = RawPeer::new(r);
    let mut bytes = vec![];
    for (i, b) in events.iter().enumerate() {
        bytes.extend(Frame::new(i as u64, 0, None, None, "echo", b.bytes()).encode());
    }
    let cut = if let RawEnd::Cut(permille) = end {
        let f = Frame::new(77, 0, None, None, "echo", vec![1; 200]).encode();
        f[..1 + (f.len() - 2) * (permille as usize % 1000) / 1000].to_vec()
    } else {
        vec![]
    };
    let chunk = if chunk == 0 { usize::MAX } else { (chunk as usize).max(bytes.len() / 60) };
    let half = matches!(end, RawEnd::HalfClose);
    let n = events.len();
    // writes and reads at once, so that nothing blocks
    let write = async move {
        for part in bytes.chunks(chunk.max(1)) {
            w.write_all(part).await.map_err(io)?;
            w.flush().await.map_err(io)?;
            tokio::task::yield_now().await;
        }
        if half {
            w.shutdown().await.map_err(io)?;
        }
        Ok::<_, String>(w)
    };
    if matches!(end, RawEnd::Abrupt) {
        drop(write.await?);
        return Ok(());
    }
    let read = async {
        let mut got = std::collections::BTreeMap::new();
        while got.len() < n {
            let f = reader.expect().await?;
            ensure!(f.ty == refcodec::END, "an answer of type {}", f.ty);
            let Some(k) = f.ref_id else { return Err("an answer without reference".to_string()) };
            ensure!(got.insert(k, f.data).is_none(), "two answers to event {k}");
        }
        for (i, b) in events.iter().enumerate() {
            ensure!(got.get(&(i as u64)) == Some(&b.bytes()), "event {i} is answered with something else");
        }
        Ok::<_, String>(())
    };
    let (w, r) = tokio::join!(write, read);
    let mut w = w?;
    r?;
    if !cut.is_empty() {
        w.write_all(&cut).await.map_err(io)?;
    }
    Ok(())
}

async fn raw_run<L: AsyncStreamProtocolListener + 'static>(c: &RawCase, address: L::AddressType, place: Place) -> Result<(), String>
where
    L::AddressType: 'static,
{
    let server = tokio::spawn(work_server::<L>(Notes::default()).address(address.clone()).build_server());
    let place = Arc::new(place);
    for i in 0.. {
        if dial(&place).await.is_ok() {
            break;
        }
        ensure!(i < 5000 && !server.is_finished(), "the server does not listen");
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    let peers: Vec<_> = c
        .peers
        .iter()
        .map(|(events, chunk, end)| tokio::spawn(raw_peer(place.clone(), events.clone(), *chunk, end.clone())))
        .collect();
    for (i, p) in peers.into_iter().enumerate() {
        p.await.map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("peer {i}: {e}"))?;
    }
    raw_peer(place, vec![Blob { n: 3, s: 3 }], 0, RawEnd::Close).await.map_err(|e| format!("a later peer: {e}"))?;
    server.abort();
    let _ = server.await;
    Ok(())
}

/// A client on a real socket stops: everything arrives, then the end
async fn raw_stop(c: &RawCase, ctx: Context, mut socket: Box<dyn Socket>) -> Result<(), String> {
    let lazy = c.lazy as u64;
    let reading = tokio::spawn(async move {
        tokio::time::sleep(Duration::from_millis(lazy)).await;
        let mut all = vec![];
        socket.read_to_end(&mut all).await.map_err(|e| format!("the peer cannot read to the end: {e}"))?;
        Ok::<_, String>(all)
    });
    let mut ids = vec![];
    for b in &c.emits {
        let m = ctx.emit("data", raw(b.bytes())).await.map_err(|e| format!("emitting failed: {e:?}"))?;
        ids.push(m);
    }
    err_text(ctx.stop().await)?;
    let all = reading.await.map_err(|e| format!("panic: {e}"))??;
    let (frames, rest) = refcodec::decode_all(&all)?;
    ensure!(rest == 0, "the stream of a stopped client ends within an event");
    let got: Vec<_> = frames.iter().map(|f| f.data.clone()).collect();
    let want: Vec<_> = c.emits.iter().map(|b| b.bytes()).collect();
    ensure!(frames.iter().map(|f| f.id).eq(ids), "an emit returned another id than the event has");
    ensure!(got == want, "{} of {} events of a stopped client arrived", got.len(), want.len());
    Ok(())
}

fn c23_raw(c: &RawCase) -> Outcome {
    let c2 = c.clone();
    run_real(c.threads, async move {
        let c = c2;
        let io = |e: std::io::Error| format!("harness: {e}");
        let err = |e: BromineError| format!("connecting failed: {e:?}");
        if c.unix {
            let dir = Dir::new();
            raw_run::<UnixListener>(&c, dir.path("s"), Place::Unix(dir.path("s"))).await?;
            let l = UnixListener::bind(dir.path("l")).map_err(io)?;
            let ctx = work_client::<UnixListener>().address(dir.path("l")).build_client().await.map_err(err)?;
            let (s, _) = l.accept().await.map_err(io)?;
            raw_stop(&c, ctx, Box::new(s)).await?;
        } else {
            let a = tcp_addr();
            raw_run::<TcpListener>(&c, a, Place::Tcp(a)).await?;
            let a = tcp_addr();
            let l = TcpListener::bind(a).await.map_err(io)?;
            let ctx = work_client::<TcpListener>().address(a).build_client().await.map_err(err)?;
            let (s, _) = l.accept().await.map_err(io)?;
            raw_stop(&c, ctx, Box::new(s)).await?;
        }
        Ok(Info::new(c.peers.iter().any(|p| !p.0.is_empty()))
            .label(c.unix, "unix")
            .label(!c.unix, "tcp")
            .label(c.peers.len() > 1, "several peers")
            .label(c.peers.iter().any(|p| !matches!(p.2, RawEnd::Close)), "peers that break off"))
    })
}

// --- options and errors

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TtlCase {
    server: Option<u16>,
    client: Option<u16>,
    encrypted: bool,
    pool: u8,
}

/// (local address, peer if connected, ttl, nodelay) of the sockets of this process that belong to the address
fn sockets(of: SocketAddr) -> Vec<(SocketAddr, Option<SocketAddr>, u32, bool)> {
    use std::os::fd::BorrowedFd;
    let mut out = vec![];
    let Ok(dir) = std::fs::read_dir("/proc/self/fd") else { return out };
    for e in dir.flatten() {
        let Some(fd) = e.file_name().to_str().and_then(|s| s.parse().ok()) else { continue };
        if !std::fs::read_link(e.path()).map(|l| l.to_string_lossy().starts_with("socket:")).unwrap_or(false) {
            continue;
        }
        // nothing else of the process opens or closes files meanwhile
        let Ok(own) = (unsafe { BorrowedFd::borrow_raw(fd) }).try_clone_to_owned() else { continue };
        let s = std::net::TcpStream::from(own);
        let (Ok(local), peer) = (s.local_addr(), s.peer_addr().ok()) else { continue };
        if local == of || peer == Some(of) {
            if let (Ok(ttl), Ok(nodelay)) = (s.ttl(), s.nodelay()) {
                out.push((local, peer, ttl, nodelay));
            }
        }
    }
    out
}

/// What plain sockets do: (listener, accepted, client) or where it fails
fn plain_ttl(server: Option<u16>, client: Option<u16>) -> Result<(Option<(u32, u32)>, Option<u32>), String> {
    let io = |e: std::io::Error| format!("harness: {e}");
    let a = tcp_addr();
    let l = std::net::TcpListener::bind(a).map_err(io)?;
    let s_ok = server.map(|t| l.set_ttl(t as u32).is_ok()).unwrap_or(true);
    let c = std::net::TcpStream::connect(a).map_err(io)?;
    let (acc, _) = l.accept().map_err(io)?;
    let c_ok = client.map(|t| c.set_ttl(t as u32).is_ok()).unwrap_or(true);
    let s = (l.ttl().map_err(io)?, acc.ttl().map_err(io)?);
    Ok((s_ok.then_some(s), c_ok.then_some(c.ttl().map_err(io)?)))
}

async fn ttl_run<L>(
    c: &TtlCase,
    a: SocketAddr,
    so: L::ListenerOptions,
    co: <L::Stream as AsyncProtocolStream>::StreamOptions,
) -> Result<Info, String>
where
    L: AsyncStreamProtocolListener<AddressType = SocketAddr> + 'static,
{
    let (ps, pc) = plain_ttl(c.server, c.client)?;
    let server = tokio::spawn(work_server::<L>(Notes::default()).address(a).server_options(so).build_server());
    let Some((listener_ttl, accepted_ttl)) = ps else {
        let r = real_limit(LIMIT, server).await;
        ensure!(matches!(&r, Ok(Ok(Err(_)))), "the server ignores that its ttl {:?} cannot be set: {r:?}", c.server);
        return Ok(Info::new(true).label(true, "refused by the system"));
    };
    let n = (c.pool as usize).max(1);
    let builder = || work_client::<L>().address(a).client_options(co.clone());
    let mut ctxs = vec![];
    let mut guards = vec![];
    if pc.is_none() {
        let r = connected(&server, || builder().build_client()).await;
        ensure!(r.is_err(), "the client ignores that its ttl {:?} cannot be set", c.client);
        server.abort();
        return Ok(Info::new(true).label(true, "refused by the system"));
    }
    if c.pool == 0 {
        ctxs.push(connected(&server, || builder().build_client()).await?);
    } else {
        let pool = connected(&server, || builder().build_pooled_client(n)).await?;
        for _ in 0..n {
            let g = pool.acquire();
            ctxs.push(Context::clone(&g));
            guards.push(g);
        }
    }
    for ctx in &ctxs {
        let got = perform(ctx, &Op::Echo(Blob { n: 4, s: 4 })).await;
        ensure!(got == model(&Op::Echo(Blob { n: 4, s: 4 })), "the connection does not work: {got:?}");
    }
    let all = sockets(a);
    let (mut ls, mut accs, mut cs) = (0, 0, 0);
    for (local, peer, ttl, nodelay) in all {
        ensure!(!nodelay, "an option that was not given (nodelay) is set");
        match peer {
            None => {
                ls += 1;
                ensure!(ttl == listener_ttl, "the listener has the ttl {ttl} instead of {listener_ttl}");
            }
            Some(_) if local == a => {
                accs += 1;
                ensure!(ttl == accepted_ttl, "an accepted connection has the ttl {ttl} instead of {accepted_ttl}");
            }
            Some(_) => {
                cs += 1;
                ensure!(Some(ttl) == pc, "a client has the ttl {ttl} instead of {pc:?}");
            }
        }
    }
    ensure!((ls, accs, cs) == (1, n, n), "{ls} listeners, {accs} accepted and {cs} client sockets instead of 1, {n}, {n}");
    for ctx in ctxs {
        let _ = ctx.stop().await;
    }
    server.abort();
    let _ = server.await;
    Ok(Info::new(c.server.is_some() || c.client.is_some())
        .label(c.server.is_some(), "server option")
        .label(c.client.is_some(), "client option")
        .label(c.encrypted, "encrypted"))
}

fn c23_ttl(c: &TtlCase) -> Outcome {
    let c2 = c.clone();
    run_real(false, async move {
        let c = c2;
        let o = |t: Option<u16>| TcpOptions { ttl: t.map(|t| t as u32) };
        #[cfg(feature = "encryption")]
        if c.encrypted {
            use super::encrypted::{keys, EncOptions};
            let eo = |t, own| EncOptions { inner_options: o(t), keys: keys(own, &[], true) };
            return ttl_run::<bromine::protocol::encrypted::EncryptedListener<TcpListener>>(&c, tcp_addr(), eo(c.server, 1), eo(c.client, 2))
                .await;
        }
        // the sockets by themselves
        let io = |e: std::io::Error| format!("harness: {e}");
        let (ps, pc) = plain_ttl(c.server, c.client)?;
        let a = tcp_addr();
        let l = TcpListener::protocol_bind(a, o(c.server)).await;
        match (&ps, &l) {
            (Some((t, _)), Ok(l)) => {
                let ttl = l.ttl().map_err(io)?;
                ensure!(ttl == *t, "a bound listener has the ttl {ttl} instead of {t}");
            }
            (None, Err(_)) => {}
            (_, l) => return Err(format!("binding with the ttl {:?}: {l:?}", c.server)),
        }
        drop(l);
        let a = tcp_addr();
        let _l = TcpListener::bind(a).await.map_err(io)?;
        let s = TcpStream::protocol_connect(a, o(c.client)).await;
        match (&pc, &s) {
            (Some(t), Ok(s)) => {
                let ttl = s.ttl().map_err(io)?;
                ensure!(ttl == *t, "a connected stream has the ttl {ttl} instead of {t}");
                let plain = TcpStream::connect(a).await.map_err(io)?;
                ensure!(s.nodelay().ok() == plain.nodelay().ok(), "nodelay is changed");
                ensure!(s.linger().ok() == plain.linger().ok(), "linger is changed");
            }
            (None, Err(_)) => {}
            (_, s) => return Err(format!("connecting with the ttl {:?}: {s:?}", c.client)),
        }
        ttl_run::<TcpListener>(&c, tcp_addr(), o(c.server), o(c.client)).await
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Trouble {
    transport: u8,
    pool: u8,
    /// what is at the address
    there: u8,
    encrypted: bool,
}

fn is_io(e: &BromineError) -> bool {
    matches!(e, BromineError::IoError(_))
}

async fn trouble<L>(c: &Trouble, free: L::AddressType, used: L::AddressType) -> Result<(), String>
where
    L: AsyncStreamProtocolListener + 'static,
    L::AddressType: 'static,
{
    let soon = Duration::from_secs(30);
    // nobody listens
    let r = real_limit(soon, work_client::<L>().address(free.clone()).build_client()).await;
    match r {
        Err(_) => return Err("connecting to nobody does not end".into()),
        Ok(Ok(_)) => return Err("a client connects although nobody listens".into()),
        Ok(Err(e)) => ensure!(is_io(&e), "connecting to nobody: {e:?}"),
    }
    let r = real_limit(soon, work_client::<L>().address(free.clone()).build_pooled_client(1 + c.pool as usize)).await;
    match r {
        Err(_) => return Err("connecting a pool to nobody does not end".into()),
        Ok(Ok(_)) => return Err("a pool connects although nobody listens".into()),
        Ok(Err(e)) => ensure!(is_io(&e), "connecting a pool to nobody: {e:?}"),
    }
    // the address is in use
    for _ in 0..2 {
        let r = real_limit(soon, work_server::<L>(Notes::default()).address(used.clone()).build_server()).await;
        match r {
            Err(_) => return Err("a server starts at an address that is in use".into()),
            Ok(Ok(())) => return Err("a server ends without error at an address that is in use".into()),
            Ok(Err(e)) => ensure!(is_io(&e), "binding an address in use: {e:?}"),
        }
    }
    Ok(())
}

fn c23_trouble(c: &Trouble) -> Outcome {
    let c2 = c.clone();
    run_real(false, async move {
        let c = c2;
        let io = |e: std::io::Error| format!("harness: {e}");
        let started = Instant::now();
        match c.transport % 3 {
            0 => {
                // another socket of this process, or one of the library
                let used = tcp_addr();
                let keep;
                let server;
                if c.there % 2 == 0 {
                    keep = Some(TcpListener::bind(used).await.map_err(io)?);
                    server = None;
                } else {
                    keep = None;
                    server = Some(tokio::spawn(work_server::<TcpListener>(Notes::default()).address(used).build_server()));
                    connected(server.as_ref().unwrap(), || work_client::<TcpListener>().address(used).build_client()).await?;
                }
                // an address of another host cannot be bound
                let foreign = SocketAddr::from(([192, 0, 2, 1], 4000));
                let used = if c.there % 3 == 2 && keep.is_some() { foreign } else { used };
                match c.encrypted {
                    #[cfg(feature = "encryption")]
                    true => trouble::<bromine::protocol::encrypted::EncryptedListener<TcpListener>>(&c, tcp_addr(), used).await?,
                    _ => trouble::<TcpListener>(&c, tcp_addr(), used).await?,
                }
                if let Some(s) = server {
                    // it still works
                    let ctx = connected(&s, || work_client::<TcpListener>().address(used).build_client()).await?;
                    let got = perform(&ctx, &Op::Note(Blob { n: 3, s: 0 })).await;
                    ensure!(got == model(&Op::Note(Blob { n: 3, s: 0 })), "the server that was there is disturbed: {got:?}");
                    s.abort();
                }
                drop(keep);
            }
            1 => {
                let dir = Dir::new();
                let used = dir.path("used");
                let mut free = dir.path("free");
                let mut keep = None;
                match c.there % 5 {
                    0 => keep = Some(UnixListener::bind(&used).map_err(io)?),
                    // a socket that nobody listens on any more
                    1 => drop(std::os::unix::net::UnixListener::bind(&used).map_err(io)?),
                    2 => std::fs::write(&used, b"contents").map_err(io)?,
                    3 => std::fs::create_dir(&used).map_err(io)?,
                    _ => {
                        keep = Some(UnixListener::bind(&used).map_err(io)?);
                        free = dir.path("no/such/folder");
                    }
                }
                if c.there % 5 == 1 || c.there % 5 == 2 {
                    free = used.clone();
                }
                match c.encrypted {
                    #[cfg(feature = "encryption")]
                    true => trouble::<bromine::protocol::encrypted::EncryptedListener<UnixListener>>(&c, free, used.clone()).await?,
                    _ => trouble::<UnixListener>(&c, free, used.clone()).await?,
                }
                if c.there % 5 == 2 {
                    let d = std::fs::read(&used).map_err(|e| format!("the file at the address is gone: {e}"))?;
                    ensure!(d == b"contents", "the file at the address is overwritten");
                }
                ensure!(c.there % 5 != 3 || used.is_dir(), "the folder at the address is gone");
                if let Some(l) = keep {
                    let (a, b) = tokio::join!(UnixStream::connect(&used), l.accept());
                    ensure!(a.is_ok() && b.is_ok(), "the listener that was there is unreachable");
                }
            }
            _ => {
                let used = Net::default();
                let _l = used.listen();
                match c.encrypted {
                    #[cfg(feature = "encryption")]
                    true => trouble::<bromine::protocol::encrypted::EncryptedListener<SimListener>>(&c, Net::default(), used).await?,
                    _ => trouble::<SimListener>(&c, Net::default(), used).await?,
                }
            }
        }
        let _ = started;
        Ok(Info::new(true)
            .label(c.transport % 3 == 0, "tcp")
            .label(c.transport % 3 == 1, "unix")
            .label(c.transport % 3 == 2, "in memory")
            .label(c.encrypted, "encrypted"))
    })
}

pub fn c23(r: &mut Runner) {
    r.rule("A case is non-trivial if it has several operations, sends events, gives an option or meets a failure.");
    r.part(
        "workloads",
        cases(1400, 14_000),
        || {
            (vec((0u8..4, op()), 0..10), 0u8..4, any::<bool>(), (io_plan_coarse(), io_plan_coarse()))
                .prop_map(|(ops, pool, threads, io)| Work { ops, pool, threads, io })
        },
        c23_work,
    );
    r.part(
        "raw peers",
        cases(8000, 80_000),
        || {
            let end = prop_oneof![
                3 => Just(RawEnd::Close),
                1 => Just(RawEnd::Abrupt),
                1 => any::<u16>().prop_map(RawEnd::Cut),
                2 => Just(RawEnd::HalfClose),
            ];
            let b = || prop_oneof![6 => blob(2000), 1 => blob(200_000)];
            let peer = (vec(b(), 0..6), prop_oneof![Just(0u16), 1u16..40, 1u16..4000], end);
            (any::<bool>(), any::<bool>(), vec(peer, 0..5), vec(b(), 0..6), prop_oneof![3 => Just(0u8), 1 => 0u8..8])
                .prop_map(|(unix, threads, peers, emits, lazy)| RawCase { unix, threads, peers, emits, lazy })
        },
        c23_raw,
    );
    r.part(
        "options",
        serial(600, 6000),
        || {
            let ttl = || opt(prop_oneof![6 => 1u16..256, 1 => Just(0u16), 1 => 256u16..2000]);
            (ttl(), ttl(), any::<bool>(), 0u8..4)
                .prop_map(|(server, client, encrypted, pool)| TtlCase { server, client, encrypted, pool })
        },
        c23_ttl,
    );
    r.part(
        "addresses",
        cases(6000, 60_000),
        || {
            (any::<u8>(), 0u8..4, any::<u8>(), any::<bool>())
                .prop_map(|(transport, pool, there, encrypted)| Trouble { transport, pool, there, encrypted })
        },
        c23_trouble,
    );
}

// ---------------------------------------------------------------------------------------- C14: used up descriptors

/// A server in a process of its own that may have only a few open files
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Descriptors {
    unix: bool,
    encrypted: bool,
    limit: u8,
    /// per round: connections beyond the limit, how long they stay (ms), what each of them sends
    rounds: Vec<(u8, u8, Blob)>,
    after: Blob,
}

struct ServerProcess(std::process::Child);

impl Drop for ServerProcess {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn descriptors_address(text: &str) -> (bool, SocketAddr, PathBuf) {
    match text.strip_prefix("unix:") {
        Some(p) => (true, SocketAddr::from(([127, 0, 0, 1], 0)), PathBuf::from(p)),
        None => (false, text.parse().expect("an address"), PathBuf::new()),
    }
}

/// Serves until the standard input ends: `bvt serve <encrypted> <address>`
pub fn serve(args: &[String]) {
    let encrypted = args[0] == "1";
    let (unix, tcp, path) = descriptors_address(&args[1]);
    std::thread::spawn(|| {
        let _ = std::io::copy(&mut std::io::stdin(), &mut std::io::sink());
        std::process::exit(0);
    });
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(async move {
        match (unix, encrypted) {
            (false, false) => work_server::<TcpListener>(Notes::default()).address(tcp).build_server().await,
            (true, false) => work_server::<UnixListener>(Notes::default()).address(path).build_server().await,
            #[cfg(feature = "encryption")]
            _ => {
                use super::encrypted::options;
                use bromine::protocol::encrypted::EncryptedListener;
                if unix {
                    let b = work_server::<EncryptedListener<UnixListener>>(Notes::default());
                    b.address(path).server_options(options(1, &[2], false)).build_server().await
                } else {
                    let b = work_server::<EncryptedListener<TcpListener>>(Notes::default());
                    b.address(tcp).server_options(options(1, &[2], false)).build_server().await
                }
            }
            #[cfg(not(feature = "encryption"))]
            _ => unreachable!(),
        }
    });
    eprintln!("the server has ended: {r:?}");
    std::process::exit(3);
}

async fn descriptors_client(c: &Descriptors, tcp: SocketAddr, path: &std::path::Path) -> IPCResult<Context> {
    match (c.unix, c.encrypted) {
        (false, false) => work_client::<TcpListener>().address(tcp).build_client().await,
        (true, false) => work_client::<UnixListener>().address(path.to_path_buf()).build_client().await,
        #[cfg(feature = "encryption")]
        _ => {
            use super::encrypted::options;
            use bromine::protocol::encrypted::EncryptedListener;
            if c.unix {
                let b = work_client::<EncryptedListener<UnixListener>>().address(path.to_path_buf());
                b.client_options(options(2, &[1], false)).build_client().await
            } else {
                let b = work_client::<EncryptedListener<TcpListener>>().address(tcp);
                b.client_options(options(2, &[1], false)).build_client().await
            }
        }
        #[cfg(not(feature = "encryption"))]
        _ => unreachable!(),
    }
}

fn c14_descriptors(c: &Descriptors) -> Outcome {
    let c2 = c.clone();
    run_real(false, async move {
        let c = c2;
        let h = |e: std::io::Error| format!("harness: {e}");
        let dir = Dir::new();
        let (tcp, path) = (tcp_addr(), dir.path("socket"));
        let address = if c.unix { format!("unix:{}", path.display()) } else { tcp.to_string() };
        let limit = 24 + c.limit as usize;
        let child = std::process::Command::new("/bin/sh")
            .arg("-c")
            .arg(format!("ulimit -n {limit}; exec \"$0\" \"$@\""))
            .arg(std::env::current_exe().map_err(h)?)
            .args(["serve", if c.encrypted { "1" } else { "0" }, &address])
            .stdin(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .map_err(h)?;
        let mut child = ServerProcess(child);
        let started = Instant::now();
        let first = loop {
            match descriptors_client(&c, tcp, &path).await {
                Ok(c) => break c,
                Err(e) => {
                    ensure!(started.elapsed() < Duration::from_secs(30), "harness: the server does not start: {e:?}");
                    tokio::time::sleep(Duration::from_millis(3)).await;
                }
            }
        };
        let mut id = 0u8;
        let mut echo = |n: u32| {
            id += 1;
            Op::Echo(Blob { n: n % 2000, s: id })
        };
        for (over, ms, sent) in &c.rounds {
            let (mut tcps, mut unixes) = (vec![], vec![]);
            for _ in 0..limit + *over as usize {
                // both only need room in the backlog
                if c.unix {
                    let mut s = UnixStream::connect(&path).await.map_err(h)?;
                    let _ = s.write_all(&sent.bytes()).await;
                    unixes.push(s);
                } else {
                    let mut s = TcpStream::connect(tcp).await.map_err(h)?;
                    let _ = s.write_all(&sent.bytes()).await;
                    tcps.push(s);
                }
            }
            tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
            let died = child.0.try_wait().map_err(h)?;
            ensure!(died.is_none(), "the server stops for a lack of descriptors");
            // what is open keeps working
            let op = echo(sent.n);
            let got = perform(&first, &op).await;
            ensure!(got == model(&op), "the connection that was there before gets {got:?}");
        }
        let later = tokio::time::timeout(Duration::from_secs(30), descriptors_client(&c, tcp, &path)).await;
        let died = child.0.try_wait().map_err(h)?;
        ensure!(died.is_none(), "the server has stopped after a lack of descriptors");
        let later = match later {
            Err(_) => return Err("nobody can connect although there is room again".into()),
            Ok(r) => r.map_err(|e| format!("connecting fails although there is room again: {e:?}"))?,
        };
        for ctx in [&later, &first] {
            let op = Op::Echo(c.after.clone());
            let got = perform(ctx, &op).await;
            ensure!(got == model(&op), "after a lack of descriptors an echo gives {got:?}");
        }
        Ok(Info::new(!c.rounds.is_empty())
            .label(c.unix, "unix")
            .label(!c.unix, "tcp")
            .label(c.encrypted, "encrypted"))
    })
}

pub fn c14_descriptors_part(r: &mut Runner) {
    r.part(
        "descriptors",
        cases(48, 1_000),
        || {
            let encrypted = if cfg!(feature = "encryption") { any::<bool>().boxed() } else { Just(false).boxed() };
            let sent = prop_oneof![1 => Just(Blob { n: 0, s: 0 }), 1 => blob(100)];
            (any::<bool>(), encrypted, 0u8..60, vec((0u8..40, 0u8..200, sent), 1..3), blob(2000))
                .prop_map(|(unix, encrypted, limit, rounds, after)| Descriptors { unix, encrypted, limit, rounds, after })
        },
        c14_descriptors,
    );
}
