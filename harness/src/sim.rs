//! In-memory transport whose splits, delays, back-pressure and faults are chosen by the generated case. It
//! implements the library's public transport traits, so that endpoints run on it unmodified.
use async_trait::async_trait;
use bromine::error::{Error as IPCError, Result as IPCResult};
use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::VecDeque;
use std::fmt::{Debug, Formatter};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// How one end of a connection behaves. All lists are used cyclically; an empty list means "no limit".
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct IoPlan {
    /// bytes handed out per read
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub rd: Vec<u16>,
    /// bytes taken per write
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub wr: Vec<u16>,
    /// times a read is delayed (Pending, woken at once)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub rd_pend: Vec<u8>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub wr_pend: Vec<u8>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub fl_pend: Vec<u8>,
    /// bytes in flight before writes block; 0 is unlimited
    #[serde(default)]
    pub cap: u32,
    /// written bytes travel only when flushed (or when this buffer is full); 0 is unbuffered
    #[serde(default)]
    pub buffered: u32,
    /// virtual milliseconds that pass before bytes that have arrived are handed out, are taken, are flushed; each is
    /// used once
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub rd_wait: Vec<u32>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub wr_wait: Vec<u32>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub fl_wait: Vec<u32>,
    /// operations that fail, and how
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Read,
    Write,
    Flush,
    Shutdown,
}

/// The n-th of these operations that would have done something fails, or all from then on
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub op: Op,
    pub at: u16,
    pub forever: bool,
    pub kind: u8,
}

impl Fault {
    /// None is a write that takes nothing
    fn error(&self) -> Option<io::Error> {
        use io::ErrorKind::*;
        let kinds = [ConnectionReset, ConnectionAborted, TimedOut, Other, OutOfMemory, BrokenPipe, UnexpectedEof];
        if self.op == Op::Write && self.kind as usize % (kinds.len() + 1) == kinds.len() {
            return None;
        }
        Some(io::Error::new(kinds[self.kind as usize % kinds.len()], "injected"))
    }
}

/// Counts operations and says which of them fail
#[derive(Default)]
struct Failing {
    counts: [u32; 4],
}

impl Failing {
    fn check(&mut self, op: Op, plan: &IoPlan) -> Option<Option<io::Error>> {
        if plan.faults.is_empty() {
            return None;
        }
        let n = self.counts[op as usize];
        self.counts[op as usize] += 1;
        let f = plan.faults.iter().find(|f| f.op == op && (n == f.at as u32 || f.forever && n > f.at as u32))?;
        Some(f.error())
    }
}

impl IoPlan {
    pub fn is_plain(&self) -> bool {
        *self == Self::default()
    }
}

thread_local! {
    static POLLS: Cell<u64> = const { Cell::new(0) };
    static LIVELOCK: Cell<bool> = const { Cell::new(false) };
}
/// Polls of transports without any byte moving before it counts as a livelock
const POLL_BUDGET: u64 = 20_000_000;

pub fn reset_polls() {
    POLLS.with(|p| p.set(0));
    LIVELOCK.with(|l| l.set(false));
}

pub fn livelocked() -> bool {
    LIVELOCK.with(|l| l.get())
}

fn count_poll() -> bool {
    POLLS.with(|p| {
        p.set(p.get() + 1);
        if p.get() > POLL_BUDGET {
            LIVELOCK.with(|l| l.set(true));
        }
    });
    !livelocked()
}

fn progress() {
    POLLS.with(|p| p.set(0));
}

fn broken(msg: &'static str) -> io::Error {
    io::Error::new(io::ErrorKind::BrokenPipe, msg)
}

#[derive(Default)]
struct PipeState {
    data: VecDeque<u8>,
    cap: usize,
    w_closed: bool,
    r_closed: bool,
    /// writes do not get through while set
    frozen: bool,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    /// everything that ever travelled
    log: Vec<u8>,
    nolog: bool,
    /// bytes that may travel in all
    allowed: Option<usize>,
    travelled: usize,
    read: u64,
    /// from now on reads, writes or flushes fail
    fail_reads: bool,
    fail_writes: bool,
    fail_flushes: bool,
    /// writes go through at once and leave no trace
    quiet: bool,
}

/// One direction of a connection
#[derive(Default)]
pub struct Pipe(Mutex<PipeState>);

impl Pipe {
    fn new(cap: u32) -> Arc<Self> {
        let p = Self::default();
        p.0.lock().unwrap().cap = if cap == 0 { usize::MAX } else { cap as usize };
        Arc::new(p)
    }

    /// All bytes that have travelled so far
    pub fn log(&self) -> Vec<u8> {
        self.0.lock().unwrap().log.clone()
    }

    pub fn log_len(&self) -> usize {
        self.0.lock().unwrap().log.len()
    }

    pub fn bytes_read(&self) -> u64 {
        self.0.lock().unwrap().read
    }

    pub fn write_closed(&self) -> bool {
        self.0.lock().unwrap().w_closed
    }

    pub fn read_closed(&self) -> bool {
        self.0.lock().unwrap().r_closed
    }

    pub fn freeze(&self, on: bool) {
        let mut s = self.0.lock().unwrap();
        s.frozen = on;
        if let Some(w) = s.wwaker.take() {
            w.wake()
        }
    }

    /// While set, whatever is written goes through at once, outside of the plans and of all counts
    pub fn quiet(&self, on: bool) {
        self.0.lock().unwrap().quiet = on;
    }

    /// Takes what was written quietly
    pub fn take_quiet(&self) -> Vec<u8> {
        self.0.lock().unwrap().data.drain(..).collect()
    }

    /// Lets all operations of that kind fail from now on
    pub fn fail(&self, op: Op) {
        let mut s = self.0.lock().unwrap();
        match op {
            Op::Read => s.fail_reads = true,
            Op::Write => s.fail_writes = true,
            Op::Flush | Op::Shutdown => s.fail_flushes = true,
        }
        for w in [s.wwaker.take(), s.rwaker.take()].into_iter().flatten() {
            w.wake()
        }
    }

    /// Lets only so many more bytes through, or all
    pub fn allow_more(&self, bytes: Option<usize>) {
        let mut s = self.0.lock().unwrap();
        s.allowed = match bytes {
            Some(n) => Some(s.allowed.unwrap_or(s.travelled).max(s.travelled) + n),
            None => None,
        };
        if let Some(w) = s.wwaker.take() {
            w.wake()
        }
    }

    /// Keeps no log, for measuring memory
    pub fn forget_log(&self) {
        let mut s = self.0.lock().unwrap();
        s.nolog = true;
        s.log = Vec::new();
    }

    pub fn set_cap(&self, cap: u32) {
        let mut s = self.0.lock().unwrap();
        s.cap = if cap == 0 { usize::MAX } else { cap as usize };
        if let Some(w) = s.wwaker.take() {
            w.wake()
        }
    }

    fn push(&self, s: &mut PipeState, buf: &[u8]) -> usize {
        if s.frozen {
            return 0;
        }
        let n = buf.len().min(s.cap.saturating_sub(s.data.len()));
        let n = n.min(s.allowed.map(|a| a.saturating_sub(s.travelled)).unwrap_or(usize::MAX));
        s.travelled += n;
        if n > 0 {
            progress();
        }
        s.data.extend(&buf[..n]);
        if !s.nolog {
            s.log.extend_from_slice(&buf[..n]);
        }
        if n > 0 {
            if let Some(w) = s.rwaker.take() {
                w.wake()
            }
        }
        n
    }
}

#[derive(Default)]
struct Cyclic {
    at: usize,
}

impl Cyclic {
    fn next<T: Copy>(&mut self, list: &[T]) -> Option<T> {
        if list.is_empty() {
            return None;
        }
        let v = list[self.at % list.len()];
        self.at += 1;
        Some(v)
    }
}

/// Injects the planned number of Pendings in front of each operation
#[derive(Default)]
struct Delay {
    cyc: Cyclic,
    left: Option<u8>,
}

impl Delay {
    fn ready(&mut self, list: &[u8], cx: &mut Context<'_>) -> bool {
        if self.left.is_none() {
            self.left = Some(self.cyc.next(list).unwrap_or(0));
        }
        match self.left {
            Some(0) | None => true,
            Some(n) => {
                self.left = Some(n - 1);
                cx.waker().wake_by_ref();
                false
            }
        }
    }

    fn done(&mut self) {
        self.left = None;
    }
}

/// Lets the planned time pass in front of each operation
#[derive(Default)]
struct Wait {
    used: usize,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    over: bool,
}

impl Wait {
    fn ready(&mut self, list: &[u32], cx: &mut Context<'_>) -> bool {
        if list.is_empty() || self.over {
            return true;
        }
        if self.sleep.is_none() {
            let ms = list.get(self.used).copied().unwrap_or(0);
            self.used += 1;
            if ms > 0 {
                self.sleep = Some(Box::pin(tokio::time::sleep(std::time::Duration::from_millis(ms as u64))));
            }
        }
        if let Some(s) = &mut self.sleep {
            if s.as_mut().poll(cx).is_pending() {
                return false;
            }
        }
        self.sleep = None;
        self.over = true;
        true
    }

    fn done(&mut self) {
        self.over = false;
    }
}

pub struct SimRead {
    pipe: Arc<Pipe>,
    plan: Arc<IoPlan>,
    chunk: Cyclic,
    delay: Delay,
    wait: Wait,
    failing: Failing,
}

pub struct SimWrite {
    pipe: Arc<Pipe>,
    plan: Arc<IoPlan>,
    chunk: Cyclic,
    delay: Delay,
    fl_delay: Delay,
    wait: Wait,
    fl_wait: Wait,
    staged: VecDeque<u8>,
    /// nothing was written since the last flush, so that another one has nothing to wait for
    clean: bool,
    failing: Failing,
}

impl SimRead {
    fn new(pipe: Arc<Pipe>, plan: Arc<IoPlan>) -> Self {
        Self { pipe, plan, chunk: Cyclic::default(), delay: Delay::default(), wait: Wait::default(), failing: Failing::default() }
    }
}

impl AsyncRead for SimRead {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let this = self.get_mut();
        if !count_poll() {
            return Poll::Ready(Err(broken("livelock")));
        }
        if !this.delay.ready(&this.plan.rd_pend, cx) {
            return Poll::Pending;
        }
        let mut s = this.pipe.0.lock().unwrap();
        if s.fail_reads {
            this.delay.done();
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "injected")));
        }
        if !s.data.is_empty() || s.w_closed {
            if let Some(e) = this.failing.check(Op::Read, &this.plan).flatten() {
                this.delay.done();
                return Poll::Ready(Err(e));
            }
        }
        if s.data.is_empty() {
            if s.w_closed {
                return Poll::Ready(Ok(()));
            }
            s.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if !this.wait.ready(&this.plan.rd_wait, cx) {
            return Poll::Pending;
        }
        let limit = this.chunk.next(&this.plan.rd).map(|c| c.max(1) as usize).unwrap_or(usize::MAX);
        let n = limit.min(buf.remaining()).min(s.data.len());
        let (a, b) = s.data.as_slices();
        let k = n.min(a.len());
        buf.put_slice(&a[..k]);
        buf.put_slice(&b[..n - k]);
        s.data.drain(..n);
        s.read += n as u64;
        progress();
        if let Some(w) = s.wwaker.take() {
            w.wake()
        }
        this.delay.done();
        this.wait.done();
        Poll::Ready(Ok(()))
    }
}

impl Drop for SimRead {
    fn drop(&mut self) {
        let mut s = self.pipe.0.lock().unwrap();
        s.r_closed = true;
        if let Some(w) = s.wwaker.take() {
            w.wake()
        }
    }
}

impl SimWrite {
    fn new(pipe: Arc<Pipe>, plan: Arc<IoPlan>) -> Self {
        Self {
            pipe,
            plan,
            chunk: Cyclic::default(),
            delay: Delay::default(),
            fl_delay: Delay::default(),
            wait: Wait::default(),
            fl_wait: Wait::default(),
            staged: VecDeque::new(),
            clean: false,
            failing: Failing::default(),
        }
    }

    /// Moves staged bytes on; true when none are left
    fn drain(&mut self, cx: &mut Context<'_>) -> io::Result<bool> {
        let mut s = self.pipe.0.lock().unwrap();
        if s.r_closed && !self.staged.is_empty() {
            return Err(broken("peer closed"));
        }
        while !self.staged.is_empty() {
            let n = self.pipe.push(&mut s, self.staged.as_slices().0);
            if n == 0 {
                s.wwaker = Some(cx.waker().clone());
                return Ok(false);
            }
            self.staged.drain(..n);
        }
        Ok(true)
    }
}

impl AsyncWrite for SimWrite {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let this = self.get_mut();
        if !count_poll() {
            return Poll::Ready(Err(broken("livelock")));
        }
        {
            let mut s = this.pipe.0.lock().unwrap();
            if s.quiet {
                s.data.extend(buf);
                return Poll::Ready(Ok(buf.len()));
            }
        }
        if !this.delay.ready(&this.plan.wr_pend, cx) || !this.wait.ready(&this.plan.wr_wait, cx) {
            return Poll::Pending;
        }
        if this.plan.buffered > 0 && this.staged.len() >= this.plan.buffered as usize && !this.drain(cx)? {
            return Poll::Pending;
        }
        let limit = this.chunk.next(&this.plan.wr).map(|c| c.max(1) as usize).unwrap_or(usize::MAX);
        let buf = &buf[..limit.min(buf.len())];
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if this.pipe.0.lock().unwrap().fail_writes {
            this.delay.done();
            return Poll::Ready(Err(broken("injected")));
        }
        if let Some(fault) = this.failing.check(Op::Write, &this.plan) {
            this.delay.done();
            return Poll::Ready(fault.map(|e| Err(e)).unwrap_or(Ok(0)));
        }
        this.clean = false;
        let n = if this.plan.buffered > 0 {
            let n = buf.len().min((this.plan.buffered as usize).saturating_sub(this.staged.len()).max(1));
            this.staged.extend(&buf[..n]);
            n
        } else {
            let mut s = this.pipe.0.lock().unwrap();
            if s.r_closed || s.w_closed {
                return Poll::Ready(Err(broken("peer closed")));
            }
            let n = this.pipe.push(&mut s, buf);
            if n == 0 {
                s.wwaker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            n
        };
        this.delay.done();
        this.wait.done();
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let this = self.get_mut();
        if !count_poll() {
            return Poll::Ready(Err(broken("livelock")));
        }
        if this.pipe.0.lock().unwrap().quiet {
            return Poll::Ready(Ok(()));
        }
        if !this.clean && !(this.fl_delay.ready(&this.plan.fl_pend, cx) && this.fl_wait.ready(&this.plan.fl_wait, cx)) {
            return Poll::Pending;
        }
        if this.pipe.0.lock().unwrap().fail_flushes {
            this.fl_delay.done();
            return Poll::Ready(Err(broken("injected")));
        }
        if let Some(Some(e)) = this.failing.check(Op::Flush, &this.plan) {
            this.fl_delay.done();
            return Poll::Ready(Err(e));
        }
        if !this.drain(cx)? {
            return Poll::Pending;
        }
        this.clean = true;
        this.fl_delay.done();
        this.fl_wait.done();
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        match self.as_mut().poll_flush(cx) {
            Poll::Ready(Ok(())) => {
                let this = self.get_mut();
                if let Some(Some(e)) = this.failing.check(Op::Shutdown, &this.plan) {
                    return Poll::Ready(Err(e));
                }
                let mut s = this.pipe.0.lock().unwrap();
                s.w_closed = true;
                if let Some(w) = s.rwaker.take() {
                    w.wake()
                }
                Poll::Ready(Ok(()))
            }
            other => other,
        }
    }
}

impl Drop for SimWrite {
    fn drop(&mut self) {
        let mut s = self.pipe.0.lock().unwrap();
        s.w_closed = true;
        if let Some(w) = s.rwaker.take() {
            w.wake()
        }
    }
}

pub struct SimStream {
    pub read: SimRead,
    pub write: SimWrite,
}

/// Both directions of a connection, for the harness
#[derive(Clone)]
pub struct Wires {
    pub client_to_server: Arc<Pipe>,
    pub server_to_client: Arc<Pipe>,
}

/// A connected pair: the first stream is the client's.
pub fn pair(client: &IoPlan, server: &IoPlan) -> (SimStream, SimStream, Wires) {
    let c2s = Pipe::new(client.cap);
    let s2c = Pipe::new(server.cap);
    let client = Arc::new(client.clone());
    let server = Arc::new(server.clone());
    (
        SimStream { read: SimRead::new(s2c.clone(), client.clone()), write: SimWrite::new(c2s.clone(), client) },
        SimStream { read: SimRead::new(c2s.clone(), server.clone()), write: SimWrite::new(s2c.clone(), server) },
        Wires { client_to_server: c2s, server_to_client: s2c },
    )
}

impl AsyncRead for SimStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.get_mut().read).poll_read(cx, buf)
    }
}

impl AsyncWrite for SimStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.get_mut().write).poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.get_mut().write).poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.get_mut().write).poll_shutdown(cx)
    }
}

impl AsyncProtocolStreamSplit for SimStream {
    type OwnedSplitReadHalf = SimRead;
    type OwnedSplitWriteHalf = SimWrite;

    fn protocol_into_split(self) -> (SimRead, SimWrite) {
        (self.read, self.write)
    }
}

/// Options that do nothing but are recorded
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct SimOptions(pub u32);

#[derive(Default)]
struct NetState {
    plans: Vec<(IoPlan, IoPlan)>,
    /// connections to accept, or the numbers of the errors with which that fails
    queue: VecDeque<Result<SimStream, i32>>,
    bound: bool,
    waker: Option<Waker>,
    wires: Vec<Wires>,
    binds: Vec<SimOptions>,
    connects: Vec<SimOptions>,
    refuse_bind: bool,
    /// connections that still succeed
    connects_left: Option<usize>,
}

/// An address: everything that connects to it reaches whoever listens on it.
#[derive(Clone)]
pub struct Net(Arc<Mutex<NetState>>);

impl Debug for Net {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "sim")
    }
}

impl Default for Net {
    fn default() -> Self {
        Self::new(vec![])
    }
}

impl Net {
    /// `plans` are used cyclically for the connections: (client end, server end)
    pub fn new(plans: Vec<(IoPlan, IoPlan)>) -> Self {
        Net(Arc::new(Mutex::new(NetState { plans, ..Default::default() })))
    }

    /// Lets the harness itself act as the listener
    pub fn listen(&self) -> SimListener {
        let mut s = self.0.lock().unwrap();
        s.bound = true;
        SimListener { net: self.clone() }
    }

    pub fn refuse_bind(&self) {
        self.0.lock().unwrap().refuse_bind = true;
    }

    /// The next accept fails with the given error of the operating system
    pub fn fail_accept(&self, errno: i32) {
        let mut s = self.0.lock().unwrap();
        s.queue.push_back(Err(errno));
        if let Some(w) = s.waker.take() {
            w.wake()
        }
    }

    /// Only so many more connections succeed
    pub fn refuse_after(&self, n: usize) {
        self.0.lock().unwrap().connects_left = Some(n);
    }

    pub fn is_bound(&self) -> bool {
        self.0.lock().unwrap().bound
    }

    pub fn wires(&self, conn: usize) -> Wires {
        self.0.lock().unwrap().wires[conn].clone()
    }

    pub fn connections(&self) -> usize {
        self.0.lock().unwrap().wires.len()
    }

    /// Forgets all connections so far
    pub fn forget(&self) {
        let mut s = self.0.lock().unwrap();
        s.wires = vec![];
        s.connects = vec![];
    }

    pub fn binds(&self) -> Vec<SimOptions> {
        self.0.lock().unwrap().binds.clone()
    }

    pub fn connects(&self) -> Vec<SimOptions> {
        self.0.lock().unwrap().connects.clone()
    }

    pub fn connect(&self) -> io::Result<SimStream> {
        self.connect_with(SimOptions::default())
    }

    fn connect_with(&self, options: SimOptions) -> io::Result<SimStream> {
        let mut s = self.0.lock().unwrap();
        s.connects.push(options);
        if !s.bound || s.connects_left == Some(0) {
            return Err(io::Error::new(io::ErrorKind::ConnectionRefused, "nobody listens"));
        }
        s.connects_left = s.connects_left.map(|n| n - 1);
        let (c, v) = if s.plans.is_empty() {
            Default::default()
        } else {
            s.plans[s.wires.len() % s.plans.len()].clone()
        };
        let (client, server, wires) = pair(&c, &v);
        s.wires.push(wires);
        s.queue.push_back(Ok(server));
        if let Some(w) = s.waker.take() {
            w.wake()
        }
        Ok(client)
    }
}

pub struct SimListener {
    net: Net,
}

impl SimListener {
    pub async fn accept(&self) -> SimStream {
        loop {
            if let Ok(c) = self.try_accept().await {
                return c;
            }
        }
    }

    async fn try_accept(&self) -> Result<SimStream, i32> {
        std::future::poll_fn(|cx| {
            let mut s = self.net.0.lock().unwrap();
            match s.queue.pop_front() {
                Some(c) => Poll::Ready(c),
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await
    }
}

impl Drop for SimListener {
    fn drop(&mut self) {
        let dropped: VecDeque<Result<SimStream, i32>> = {
            let mut s = self.net.0.lock().unwrap();
            s.bound = false;
            std::mem::take(&mut s.queue)
        };
        drop(dropped);
    }
}

#[async_trait]
impl AsyncStreamProtocolListener for SimListener {
    type AddressType = Net;
    type RemoteAddressType = u32;
    type Stream = SimStream;
    type ListenerOptions = SimOptions;

    async fn protocol_bind(address: Net, options: SimOptions) -> IPCResult<Self> {
        {
            let mut s = address.0.lock().unwrap();
            s.binds.push(options);
            if s.bound || s.refuse_bind {
                return Err(IPCError::IoError(io::Error::new(io::ErrorKind::AddrInUse, "in use")));
            }
        }
        Ok(address.listen())
    }

    async fn protocol_accept(&self) -> IPCResult<(SimStream, u32)> {
        match self.try_accept().await {
            Ok(c) => Ok((c, 0)),
            Err(errno) => Err(io::Error::from_raw_os_error(errno).into()),
        }
    }
}

#[async_trait]
impl AsyncProtocolStream for SimStream {
    type AddressType = Net;
    type StreamOptions = SimOptions;

    async fn protocol_connect(address: Net, options: SimOptions) -> IPCResult<Self> {
        Ok(address.connect_with(options)?)
    }
}
