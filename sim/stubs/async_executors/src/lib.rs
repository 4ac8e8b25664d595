//! Stand-in for async_executors: the timer trait and its implementation for the local pool.
use futures::future::BoxFuture;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};
use std::time::Duration;
pub trait Timer {
    fn sleep(&self, dur: Duration) -> BoxFuture<'static, ()>;
}
pub trait TimerExt: Timer {}
impl<T: Timer + ?Sized> TimerExt for T {}
impl Timer for futures::executor::LocalSpawner {
    fn sleep(&self, dur: Duration) -> BoxFuture<'static, ()> {
        let st = Arc::new(Mutex::new((false, None::<Waker>)));
        let s2 = st.clone();
        std::thread::spawn(move || {
            std::thread::sleep(dur);
            let mut g = s2.lock().unwrap();
            g.0 = true;
            if let Some(w) = g.1.take() {
                w.wake()
            }
        });
        Box::pin(futures::future::poll_fn(move |cx| {
            let mut g = st.lock().unwrap();
            if g.0 {
                Poll::Ready(())
            } else {
                g.1 = Some(cx.waker().clone());
                Poll::Pending
            }
        }))
    }
}
