//! Drives futures in unusual ways
use crate::util::sleep_ms;
use futures::future::BoxFuture;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// polled when it is woken
    Plain,
    /// polled so often without being woken, with another waker each time
    Spurious(u8),
    /// polled after that many milliseconds unless it is woken before
    Early(u8),
    /// polled that many milliseconds after it was woken
    Busy(u8),
    /// another task goes on at once
    Move,
    /// another task goes on when it is woken
    MoveWoken,
}

/// Only the last waker counts
struct Flag {
    current: Arc<AtomicU64>,
    mine: u64,
    woken: Arc<AtomicBool>,
    parent: Arc<Mutex<Option<Waker>>>,
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        if self.current.load(SeqCst) == self.mine {
            self.woken.store(true, SeqCst);
            if let Some(w) = self.parent.lock().unwrap().take() {
                w.wake();
            }
        }
    }
}

struct Driven<T> {
    fut: Pin<Box<dyn Future<Output = T> + Send>>,
    current: Arc<AtomicU64>,
    woken: Arc<AtomicBool>,
    parent: Arc<Mutex<Option<Waker>>>,
}

impl<T> Driven<T> {
    fn poll(&mut self) -> Option<T> {
        let mine = self.current.fetch_add(1, SeqCst) + 1;
        self.woken.store(false, SeqCst);
        let flag = Flag { current: self.current.clone(), mine, woken: self.woken.clone(), parent: self.parent.clone() };
        let waker = Waker::from(Arc::new(flag));
        match self.fut.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(t) => Some(t),
            Poll::Pending => None,
        }
    }

    async fn woken(&mut self) {
        std::future::poll_fn(|cx| {
            *self.parent.lock().unwrap() = Some(cx.waker().clone());
            if self.woken.load(SeqCst) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        })
        .await
    }
}

fn go_on<T: Send + 'static>(mut d: Driven<T>, steps: Arc<[Step]>, mut at: usize) -> BoxFuture<'static, T> {
    Box::pin(async move {
        loop {
            if let Some(t) = d.poll() {
                return t;
            }
            let step = steps.get(at).copied().unwrap_or(Step::Plain);
            at += 1;
            match step {
                Step::Plain => d.woken().await,
                Step::Spurious(n) => {
                    for _ in 0..n {
                        if let Some(t) = d.poll() {
                            return t;
                        }
                    }
                    d.woken().await
                }
                Step::Early(ms) => {
                    tokio::select! {
                        _ = d.woken() => {}
                        _ = sleep_ms(ms as u64) => {}
                    }
                }
                Step::Busy(ms) => {
                    d.woken().await;
                    sleep_ms(ms as u64).await
                }
                Step::Move | Step::MoveWoken => {
                    if step == Step::MoveWoken {
                        d.woken().await;
                    }
                    return tokio::spawn(go_on(d, steps, at)).await.expect("a moved future panicked");
                }
            }
        }
    })
}

/// Drives a future as the steps say, then as usual
pub async fn drive<F: Future + Send + 'static>(steps: &[Step], f: F) -> F::Output
where
    F::Output: Send + 'static,
{
    if steps.is_empty() {
        return f.await;
    }
    let d = Driven { fut: Box::pin(f), current: Arc::default(), woken: Arc::default(), parent: Arc::default() };
    go_on(d, steps.into(), 0).await
}

pub fn step() -> BoxedStrategy<Step> {
    prop_oneof![
        2 => Just(Step::Plain),
        3 => (1u8..5).prop_map(Step::Spurious),
        3 => prop_oneof![0u8..4, 0u8..100].prop_map(Step::Early),
        1 => prop_oneof![0u8..4, 0u8..100].prop_map(Step::Busy),
        1 => Just(Step::Move),
        2 => Just(Step::MoveWoken),
    ]
    .boxed()
}
