//! C27 (logging changes nothing and reveals no secrets)
use super::encrypted::static_open;
use crate::ensure;
use crate::gen::*;
use crate::runner::{cases, Info, Outcome, Runner};
use crate::sim::{IoPlan, Net, SimListener};
use crate::util::*;
use bromine::prelude::*;
use bromine::protocol::encrypted::{EncryptedListener, EncryptionOptions, Keys};
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::{Debug, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use x25519_dalek::{PublicKey, StaticSecret};

thread_local! {
    /// what is logged on this thread, if that is of interest
    static TEXT: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Formats everything that is logged at any level
struct Everything;

struct Formatting<'a>(&'a mut dyn Write);

struct Nowhere;

impl Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

impl Visit for Formatting<'_> {
    fn record_debug(&mut self, field: &Field, value: &dyn Debug) {
        let _ = writeln!(self.0, "{} = {:?}", field.name(), value);
    }
    fn record_str(&mut self, field: &Field, value: &str) {
        let _ = writeln!(self.0, "{} = {}", field.name(), value);
    }
}

fn formatted(f: impl FnOnce(&mut Formatting)) {
    // what is formatted may log itself
    let mut text = TEXT.with(|t| t.try_borrow_mut().ok().and_then(|mut t| t.take()));
    match &mut text {
        Some(t) => f(&mut Formatting(t)),
        None => f(&mut Formatting(&mut Nowhere)),
    }
    if text.is_some() {
        TEXT.with(|t| *t.borrow_mut() = text);
    }
}

impl tracing::Subscriber for Everything {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("bromine")
    }
    fn new_span(&self, span: &Attributes<'_>) -> Id {
        static NEXT: AtomicU64 = AtomicU64::new(1);
        formatted(|f| {
            let _ = writeln!(f.0, "span {}", span.metadata().name());
            span.record(f)
        });
        Id::from_u64(NEXT.fetch_add(1, Ordering::Relaxed))
    }
    fn record(&self, _: &Id, values: &Record<'_>) {
        formatted(|f| values.record(f));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, event: &tracing::Event<'_>) {
        formatted(|f| event.record(f));
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Secrets {
    /// the secrets of the client and of the server
    keys: (u8, u8),
    /// whether the server accepts the client and the client the server
    accept: (bool, bool),
    acts: Vec<(u8, Blob)>,
    io: (IoPlan, IoPlan),
}

/// The ways in which a part of the bytes may be written
fn spellings(bytes: &[u8]) -> Vec<String> {
    let list = |f: &dyn Fn(&u8) -> String, sep: &str| bytes.iter().map(f).collect::<Vec<_>>().join(sep);
    let debug = format!("{:?}", bytes::Bytes::copy_from_slice(bytes));
    let mut all = vec![
        list(&|b| b.to_string(), ", "),
        list(&|b| b.to_string(), ","),
        list(&|b| b.to_string(), " "),
        list(&|b| b.to_string(), ",\n    "),
        list(&|b| format!("{b:02x}"), ""),
        list(&|b| format!("{b:02X}"), ""),
        list(&|b| format!("{b:02x}"), " "),
        list(&|b| format!("{b:02x}"), ":"),
        list(&|b| format!("{b:02x}"), ", "),
        list(&|b| format!("{b:x}"), ", "),
        list(&|b| format!("{b:02X}"), ", "),
        list(&|b| format!("{b:X}"), ", "),
        list(&|b| format!("{b:#x}"), ", "),
        list(&|b| format!("{b:#04x}"), ", "),
        bytes.escape_ascii().to_string(),
        debug[2..debug.len() - 1].to_string(),
    ];
    if let Ok(t) = std::str::from_utf8(bytes) {
        all.push(t.to_string());
    }
    let text = String::from_utf8_lossy(bytes);
    if text.chars().filter(|c| *c != '\u{FFFD}').count() >= 5 {
        all.push(text.to_string());
        all.push(format!("{text:?}").trim_matches('"').to_string());
    }
    all
}

fn quoted(log: &str, secret: &[u8]) -> Option<String> {
    let at = (0..=secret.len().saturating_sub(8)).step_by(4).take(64);
    at.flat_map(|i| spellings(&secret[i..i + 8])).find(|s| log.contains(s.as_str()))
}

fn key(n: u8) -> [u8; 32] {
    Blob { n: 32, s: n.clamp(1, 254) }.bytes().try_into().unwrap()
}

async fn act(ctx: &Context, kind: u8, data: &[u8]) {
    let data = data.to_vec();
    let wait = Duration::from_millis(400);
    match kind {
        0 => drop(ctx.emit("note", raw(data)).await),
        1 => drop(ctx.emit("echo", raw(data)).await_reply().with_timeout(wait).await),
        2 => {
            if let Ok(mut s) = ctx.emit("many", raw(data)).stream_replies().with_timeout(wait).await {
                while let Some(Ok(_)) = s.next().await {}
            }
        }
        3 => drop(ctx.emit_to("n0", "echo", raw(data)).await_reply().with_timeout(wait).await),
        4 => drop(ctx.emit("fail", raw(data)).await_reply().with_timeout(wait).await),
        5 => drop(ctx.emit("slow", raw(data)).await_reply().with_timeout(wait).await),
        6 => drop(ctx.emit("unknown", raw(data)).await),
        7 => drop(ctx.emit("note", TandemPayload::new(raw(data.clone()), raw(data))).await),
        8 => drop(ctx.emit("note", ctx.create_serde_payload(data)).await),
        // what the payload claims to be is wrong
        9 => drop(ctx.emit("decode", raw(data)).await_reply().with_timeout(wait).await),
        // a reply that nobody waits for
        _ => drop(ctx.emit("ask", raw(data)).await_reply().with_timeout(wait).await),
    }
}

fn c27_secrets(c: &Secrets) -> Outcome {
    TEXT.with(|t| *t.borrow_mut() = Some(String::new()));
    let r = run_virtual(async {
        let net = Net::new(vec![c.io.clone()]);
        let (client, server) = (StaticSecret::from(key(c.keys.0)), StaticSecret::from(key(c.keys.1)));
        let options = |own: &StaticSecret, other: &StaticSecret, accept| EncryptionOptions {
            inner_options: Default::default(),
            keys: Keys { secret: own.clone(), known_peers: if accept { vec![PublicKey::from(other)] } else { vec![] }, allow_unknown: false },
        };
        let handlers = || {
            let mut eh = EventHandler::new();
            eh.on("echo", |ctx, event| Box::pin(async move { Response::payload(ctx, raw(event.data_raw().to_vec())) }));
            IPCBuilder::<EncryptedListener<SimListener>>::new()
                .address(net.clone())
                .add_namespace(Namespace::new("n0", eh))
                .on("note", |_, _| Box::pin(async { Ok(Response::empty()) }))
                .on("fail", |_, _| Box::pin(async { Err(IPCError::Message("no".into())) }))
                .on("echo", |ctx, event| Box::pin(async move { ctx.response(raw(event.data_raw().to_vec())) }))
                .on("slow", |_, _| Box::pin(async { sleep_ms(500).await; Ok(Response::empty()) }))
                .on("decode", |_, event| Box::pin(async move { event.payload::<TandemPayload<BytePayload, BytePayload>>()?; Ok(Response::empty()) }))
                .on("ask", |ctx, event| Box::pin(async move {
                    let r = ctx.emit("echo", raw(event.data_raw().to_vec())).await_reply().with_timeout(Duration::from_millis(50)).await;
                    ctx.response(raw(r.map(|e| e.data_raw().to_vec()).unwrap_or_default()))
                }))
                .on("many", |ctx, event| Box::pin(async move {
                    for _ in 0..3 {
                        ctx.emit("part", raw(event.data_raw().to_vec())).await?;
                    }
                    Ok(Response::empty())
                }))
        };
        let running = tokio::spawn(handlers().server_options(options(&server, &client, c.accept.0)).build_server());
        settle().await;
        let connected = handlers().client_options(options(&client, &server, c.accept.1)).build_client().await;
        let ctx = connected.ok();
        if let Some(ctx) = &ctx {
            for (kind, b) in &c.acts {
                act(ctx, kind % 11, &b.bytes()).await;
            }
            sleep_ms(600).await;
            let _ = ctx.clone().stop().await;
        }
        sleep_ms(1000).await;
        running.abort();
        let log = TEXT.with(|t| t.borrow_mut().take()).unwrap_or_default();
        let shared = client.diffie_hellman(&PublicKey::from(&server)).to_bytes();
        let mut secrets = vec![
            ("the secret key of the client", key(c.keys.0).to_vec()),
            ("the secret key of the server", key(c.keys.1).to_vec()),
            ("the secret that the two keys result in", shared.to_vec()),
        ];
        if let Some(k) = net.wires(0).server_to_client.log().get(36..84).and_then(|p| static_open(&shared, p)) {
            secrets.push(("the session key", k));
        }
        let session = secrets.len() > 3;
        for (_, b) in &c.acts {
            // contents of equal bytes may look like other things
            if b.n >= 8 && b.s != 0 && b.s != 255 {
                secrets.push(("a payload", b.bytes()));
            }
        }
        for (what, secret) in &secrets {
            if let Some(s) = quoted(&log, secret) {
                let line = log.lines().find(|l| l.contains(&s)).unwrap_or("");
                return Err(format!("{what} is in the log: {:?}", line.chars().take(200).collect::<String>()));
            }
        }
        let n = secrets.len();
        Ok(Info::new(ctx.is_some() && n > 4)
            .label(ctx.is_none(), "no connection")
            .label(session, "the session key is known to the harness")
            .label(log.is_empty(), "nothing was logged"))
    });
    TEXT.with(|t| *t.borrow_mut() = None);
    r
}

pub fn c27(r: &mut Runner) {
    // on all threads
    let _ = tracing::subscriber::set_global_default(Everything);
    let strategy = || {
        let io = prop_oneof![2 => Just((IoPlan::default(), IoPlan::default())), 1 => (io_plan(), io_plan())];
        (any::<(u8, u8)>(), (0u8..12, 0u8..12), vec((0u8..11, blob(2000)), 0..12), io).prop_map(|(keys, (a, b), acts, io)| Secrets {
            keys,
            accept: (a > 0, b > 0),
            acts,
            io,
        })
    };
    r.part("secrets", cases(12_000, 200_000), strategy, c27_secrets);
    // everything else works as well when it is logged
    let others = [
        "C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20",
        "C23", "C24", "C25", "C26", "C28", "C30", "C31",
    ];
    let scale = r.scale;
    for p in others {
        r.prefix = format!("{p} ");
        r.scale = scale * 0.03;
        super::run(p, r);
    }
    r.prefix = String::new();
    r.scale = scale;
    r.rules.clear();
    r.rule("A case of secrets is non-trivial if a connection was established and something was sent, the others by the rules of the properties in their names.");
}
