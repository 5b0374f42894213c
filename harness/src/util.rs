use crate::refcodec::{self, Frame, Verdict};
use crate::sim::{self, Net, SimListener, SimStream, Wires};
use bromine::event::EventType;
use bromine::prelude::*;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

pub type Builder = IPCBuilder<SimListener>;

pub const FOREVER: Duration = Duration::from_secs(40_000_000);

/// Runs a case on one thread with virtual time: time passes only when nothing else can happen, so that waiting
/// forever shows as reaching `FOREVER`.
pub fn run_virtual<T>(fut: impl Future<Output = Result<T, String>>) -> Result<T, String> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    crate::runner::in_virtual_time(true);
    let r = rt.block_on(async {
        match tokio::time::timeout(FOREVER, fut).await {
            Ok(r) => r,
            Err(_) => Err("deadlock: nothing can happen any more, but something is still waited for".to_string()),
        }
    });
    drop(rt);
    crate::runner::in_virtual_time(false);
    if sim::livelocked() {
        return Err("livelock: endless polling without progress".into());
    }
    r
}

/// Waits in real time. When the limit is reached, it depends on whether anything still runs: if nothing does, what is
/// waited for never comes; otherwise the machine is slow.
pub async fn real_limit<T>(limit: Duration, fut: impl Future<Output = T>) -> Result<T, String> {
    tokio::pin!(fut);
    let began = std::time::Instant::now();
    loop {
        if let Ok(r) = tokio::time::timeout(limit, &mut fut).await {
            return Ok(r);
        }
        let (rest, r) = {
            let rest = crate::runner::at_rest();
            tokio::pin!(rest);
            tokio::select! {
                r = &mut fut => (true, Some(r)),
                rest = &mut rest => (rest, None),
            }
        };
        match r {
            Some(r) => return Ok(r),
            None if rest => return Err(format!("something is still waited for after {limit:?}, and nothing runs any more")),
            None if began.elapsed() > Duration::from_secs(600) => crate::runner::give_up("a case does not end"),
            None => {}
        }
    }
}

/// Like run_virtual with real threads and real time
pub fn run_threads<T: Send + 'static>(
    workers: usize,
    limit: Duration,
    fut: impl Future<Output = Result<T, String>> + Send + 'static,
) -> Result<T, String> {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap();
    let r = rt.block_on(async move {
        match real_limit(limit, tokio::spawn(fut)).await? {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {e}")),
        }
    });
    rt.shutdown_timeout(Duration::from_secs(5));
    r
}

/// Runs everything that can run without time passing (then one virtual millisecond passes)
pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}

pub async fn sleep_ms(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await;
}

pub fn now_ms(start: tokio::time::Instant) -> u64 {
    start.elapsed().as_millis() as u64
}

pub fn type_num(t: EventType) -> u8 {
    u8::from(t)
}

pub fn to_frame(e: &Event) -> Frame {
    Frame {
        id: e.id(),
        ty: type_num(e.event_type()),
        ref_id: e.reference_id(),
        ns: e.namespace().clone(),
        name: e.name().to_string(),
        data: e.data_raw().to_vec(),
    }
}

pub fn diff(a: &Frame, b: &Frame) -> String {
    format!("{} / {}", a.short(), b.short())
}

/// The other end of a connection, played by the harness with its own codec
pub struct RawPeer<S = SimStream> {
    pub stream: S,
    buf: Vec<u8>,
    pub next_id: u64,
    /// keeps the address bound
    pub listener: Option<SimListener>,
}

impl RawPeer {
    pub fn connect(net: &Net) -> Result<Self, String> {
        net.connect().map(Self::new).map_err(|e| format!("harness: connect: {e}"))
    }
}

impl<S> RawPeer<S> {
    pub fn new(stream: S) -> Self {
        Self { stream, buf: vec![], next_id: 1 << 40, listener: None }
    }
}

impl<S: AsyncWrite + Unpin> RawPeer<S> {
    pub async fn send_bytes(&mut self, bytes: &[u8]) -> Result<(), String> {
        self.stream.write_all(bytes).await.map_err(|e| format!("the peer cannot write: {e}"))?;
        self.stream.flush().await.map_err(|e| format!("the peer cannot flush: {e}"))
    }

    pub async fn send(&mut self, frame: &Frame) -> Result<(), String> {
        self.send_bytes(&frame.encode()).await
    }
}

impl<S: AsyncRead + Unpin> RawPeer<S> {
    /// Bytes of an event that has not arrived completely
    pub fn partial(&self) -> usize {
        self.buf.len()
    }

    /// Like drain, but an incomplete event at the end is fine
    pub async fn drain_any(&mut self, ms: u64) -> Result<Vec<Frame>, String> {
        let mut out = vec![];
        loop {
            match tokio::time::timeout(Duration::from_millis(ms), self.recv()).await {
                Ok(r) => match r? {
                    Some(f) => out.push(f),
                    None => return Ok(out),
                },
                Err(_) => return Ok(out),
            }
        }
    }

    /// The next event; None at the end of the stream
    pub async fn recv(&mut self) -> Result<Option<Frame>, String> {
        loop {
            if !self.buf.is_empty() {
                match refcodec::decode(&self.buf) {
                    Verdict::Event(f, n) => {
                        self.buf.drain(..n);
                        return Ok(Some(f));
                    }
                    Verdict::Incomplete => {}
                    v => return Err(format!("the endpoint sent something that is not an event: {v:?}")),
                }
            }
            let mut chunk = [0u8; 8192];
            let n = self.stream.read(&mut chunk).await.map_err(|e| format!("the peer cannot read: {e}"))?;
            if n == 0 {
                if !self.buf.is_empty() {
                    return Err(format!("the stream ends within an event ({} bytes of it)", self.buf.len()));
                }
                return Ok(None);
            }
            self.buf.extend_from_slice(&chunk[..n]);
        }
    }

    pub async fn expect(&mut self) -> Result<Frame, String> {
        self.recv().await?.ok_or_else(|| "the endpoint closed the connection".to_string())
    }

    /// All events that arrive until nothing happens any more for `ms` virtual milliseconds
    pub async fn drain(&mut self, ms: u64) -> Result<Vec<Frame>, String> {
        let mut out = vec![];
        loop {
            match tokio::time::timeout(Duration::from_millis(ms), self.recv()).await {
                Ok(r) => match r? {
                    Some(f) => out.push(f),
                    None => return Ok(out),
                },
                Err(_) => {
                    if !self.buf.is_empty() {
                        return Err(format!("an event of the endpoint is stuck half-way ({} bytes arrived)", self.buf.len()));
                    }
                    return Ok(out);
                }
            }
        }
    }
}

/// Starts a server for the builder and waits until it listens
pub async fn start_server(net: &Net, builder: Builder) -> Result<tokio::task::JoinHandle<IPCResult<()>>, String> {
    let h = tokio::spawn(builder.address(net.clone()).build_server());
    // with real threads it may take a while
    for _ in 0..60_000 {
        settle().await;
        if net.is_bound() {
            return Ok(h);
        }
        if h.is_finished() {
            return Err(format!("the server does not listen: {:?}", h.await));
        }
    }
    Err("the server does not listen".into())
}

/// A client whose server is played by the harness
pub async fn client_and_raw(net: &Net, builder: Builder) -> Result<(Context, RawPeer), String> {
    let listener = net.listen();
    let ctx = builder.address(net.clone()).build_client().await.map_err(|e| format!("connecting failed: {e}"))?;
    let mut peer = RawPeer::new(listener.accept().await);
    peer.listener = Some(listener);
    Ok((ctx, peer))
}

/// A server and a raw client of it
pub async fn server_and_raw(net: &Net, builder: Builder) -> Result<RawPeer, String> {
    start_server(net, builder).await?;
    RawPeer::connect(net)
}

pub fn err_text<T>(r: Result<T, IPCError>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub tag: String,
    pub frame: Frame,
}

#[derive(Clone, Default)]
pub struct Recorder(pub Arc<Mutex<Vec<Call>>>);

impl Recorder {
    pub fn note(&self, tag: &str, e: &Event) {
        self.0.lock().unwrap().push(Call { tag: tag.to_string(), frame: to_frame(e) });
    }
    pub fn calls(&self) -> Vec<Call> {
        self.0.lock().unwrap().clone()
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
}

#[allow(dead_code)]
pub fn log_frames(w: &Wires, to_server: bool) -> Result<(Vec<Frame>, usize), String> {
    let p = if to_server { &w.client_to_server } else { &w.server_to_client };
    refcodec::decode_all(&p.log())
}

/// A payload whose encoding fails on demand
pub struct MaybePayload(pub Option<Vec<u8>>);

impl IntoPayload for MaybePayload {
    fn into_payload(self, _: &Context) -> IPCResult<bytes::Bytes> {
        match self.0 {
            Some(b) => Ok(bytes::Bytes::from(b)),
            None => Err(IPCError::Message("this payload cannot be encoded".into())),
        }
    }
}

pub fn raw(bytes: Vec<u8>) -> BytePayload {
    BytePayload::new(bytes)
}

/// The endpoint under test, with all other ends played by the harness
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Role {
    Server(u8),
    Client,
    Pool(u8),
}

impl Role {
    pub fn connections(&self) -> usize {
        match self {
            Role::Server(n) | Role::Pool(n) => (*n).max(1) as usize,
            Role::Client => 1,
        }
    }
}

pub fn role() -> proptest::strategy::BoxedStrategy<Role> {
    use proptest::prelude::*;
    prop_oneof![2 => (1u8..4).prop_map(Role::Server), 2 => Just(Role::Client), 1 => (1u8..4).prop_map(Role::Pool)].boxed()
}

pub struct Endpoint {
    pub peers: Vec<RawPeer>,
    /// the contexts of a client or of the guards of a pool
    pub ctxs: Vec<Context>,
    pub pool: Option<PooledContext>,
    pub guards: Vec<PoolGuard<Context>>,
    pub server: Option<tokio::task::JoinHandle<IPCResult<()>>>,
}

/// A context of every connection of a pool, in the order of the connections. Which of them a pool gives out first
/// is up to it, so each one shows its connection with an event that leaves no trace.
pub async fn guards_in_order(pool: &PooledContext, n: usize, net: &Net) -> Result<Vec<PoolGuard<Context>>, String> {
    let mut guards: Vec<Option<PoolGuard<Context>>> = (0..n).map(|_| None).collect();
    let pipes: Vec<_> = (0..n).map(|i| net.wires(i).client_to_server).collect();
    for _ in 0..n {
        let g = pool.acquire();
        pipes.iter().for_each(|p| p.quiet(true));
        let sent = g.emit("which", raw(vec![])).await;
        pipes.iter().for_each(|p| p.quiet(false));
        sent.map_err(|e| format!("a context of the pool cannot emit: {e:?}"))?;
        let conn = pipes.iter().position(|p| !p.take_quiet().is_empty()).ok_or("an emitted event is on no connection of the pool")?;
        if guards[conn].is_some() {
            return Err(format!("connection {conn} is acquired twice although another one has no user"));
        }
        guards[conn] = Some(g);
    }
    Ok(guards.into_iter().flatten().collect())
}

pub async fn endpoint(role: Role, net: &Net, builder: Builder) -> Result<Endpoint, String> {
    match role {
        Role::Server(_) => {
            let server = start_server(net, builder).await?;
            let peers = (0..role.connections()).map(|_| RawPeer::connect(net)).collect::<Result<_, _>>()?;
            Ok(Endpoint { peers, ctxs: vec![], pool: None, guards: vec![], server: Some(server) })
        }
        Role::Client => {
            let (ctx, peer) = client_and_raw(net, builder).await?;
            Ok(Endpoint { peers: vec![peer], ctxs: vec![ctx], pool: None, guards: vec![], server: None })
        }
        Role::Pool(_) => {
            let n = role.connections();
            let listener = net.listen();
            let pool = builder
                .address(net.clone())
                .build_pooled_client(n)
                .await
                .map_err(|e| format!("building the pool failed: {e}"))?;
            let opened = net.connections();
            if opened != n {
                return Err(format!("a pool of {n} opened {opened} connections"));
            }
            let mut peers = vec![];
            for _ in 0..n {
                peers.push(RawPeer::new(listener.accept().await));
            }
            peers[0].listener = Some(listener);
            let guards = guards_in_order(&pool, n, net).await?;
            let ctxs = guards.iter().map(|g| Context::clone(g)).collect();
            Ok(Endpoint { peers, ctxs, pool: Some(pool), guards, server: None })
        }
    }
}

pub struct RecKey;
impl bromine::trait_bound_typemap::TypeMapKey for RecKey {
    type Value = Recorder;
}

/// Payload of an error event
pub fn parse_error(data: &[u8]) -> Result<(u16, String), String> {
    let bad = || format!("the payload of an error event is malformed ({} bytes)", data.len());
    if data.len() < 6 {
        return Err(bad());
    }
    let n = u32::from_be_bytes(data[2..6].try_into().unwrap()) as usize;
    if data.len() != 6 + n {
        return Err(bad());
    }
    let m = String::from_utf8(data[6..].to_vec()).map_err(|_| bad())?;
    Ok((u16::from_be_bytes([data[0], data[1]]), m))
}

pub fn error_payload(code: u16, message: &str) -> Vec<u8> {
    let mut out = code.to_be_bytes().to_vec();
    out.extend((message.len() as u32).to_be_bytes());
    out.extend(message.as_bytes());
    out
}

pub type HFut<'a> = std::pin::Pin<Box<dyn Future<Output = IPCResult<Response>> + Send + 'a>>;

/// Helps the compiler to find the type of a handler
pub fn hf<F>(f: F) -> F
where
    F: for<'a> Fn(&'a Context, Event) -> HFut<'a> + Send + Sync + 'static,
{
    f
}
