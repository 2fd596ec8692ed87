//! Verification stub of the parts of tokio this code base uses.  There are no
//! threads and no clock: spawned tasks and sleeps are recorded in tables and
//! the harness decides which task runs next and which sleep expires when.
//! Single threaded by construction.
#![allow(static_mut_refs)]

use std::future::Future;
use std::pin::Pin;

pub mod verif;

pub mod task {
    use super::*;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    #[derive(Debug)]
    pub struct JoinError;
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("join error")
        }
    }
    impl std::error::Error for JoinError {}

    struct Slot<T> {
        value: Option<T>,
        waker: Option<Waker>,
    }

    pub struct JoinHandle<T> {
        slot: Arc<Mutex<Slot<T>>>,
        id: usize,
    }
    impl<T> std::fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("JoinHandle")
        }
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            crate::verif::abort(self.id)
        }
        pub fn is_finished(&self) -> bool {
            self.slot.lock().unwrap().value.is_some()
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut s = self.slot.lock().unwrap();
            match s.value.take() {
                Some(v) => Poll::Ready(Ok(v)),
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }

    pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let slot = Arc::new(Mutex::new(Slot {
            value: None,
            waker: None,
        }));
        let slot2 = Arc::clone(&slot);
        let id = crate::verif::add_task(Box::pin(async move {
            let v = future.await;
            let mut s = slot2.lock().unwrap();
            s.value = Some(v);
            if let Some(w) = s.waker.take() {
                w.wake();
            }
        }));
        JoinHandle { slot, id }
    }

    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        spawn(async move { f() })
    }

    pub async fn yield_now() {
        struct Y(bool);
        impl Future for Y {
            type Output = ();
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
                if self.0 {
                    Poll::Ready(())
                } else {
                    self.0 = true;
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
            }
        }
        Y(false).await
    }
}

pub use task::spawn;

pub mod time {
    use super::*;
    pub use std::time::{Duration, Instant};
    use std::task::{Context, Poll};

    /// A recorded delay; expires when the harness says so.
    #[derive(Debug)]
    pub struct Sleep {
        id: usize,
        _pin: std::marker::PhantomPinned,
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if crate::verif::poll_sleep(self.id, cx.waker()) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        }
    }
    impl Drop for Sleep {
        fn drop(&mut self) {
            crate::verif::drop_sleep(self.id)
        }
    }
    pub fn sleep(d: Duration) -> Sleep {
        Sleep {
            id: crate::verif::add_sleep(d),
            _pin: std::marker::PhantomPinned,
        }
    }
    pub fn sleep_until(t: Instant) -> Sleep {
        sleep(t.saturating_duration_since(Instant::now()))
    }

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed;
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        let mut f = Box::pin(f);
        let mut s = Box::pin(sleep(d));
        std::future::poll_fn(move |cx| {
            if let Poll::Ready(v) = f.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            match s.as_mut().poll(cx) {
                Poll::Ready(()) => Poll::Ready(Err(error::Elapsed)),
                Poll::Pending => Poll::Pending,
            }
        })
        .await
    }
}
