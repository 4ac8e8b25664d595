PROP="C01"
NEEDS="an asynchronous waiter with no blocking waiter in the same process when the value is announced"
BREAKS="announcements skip the wake-up when the waiter count is zero, but asynchronous waiters are not counted"
F="crates/ipcbus/src/udp_procbus.rs"
EDITS=[
(F,"        self.0.proc.notify(usize::MAX);\n","        if self.0.waiters.load(Ordering::SeqCst) > 0 {\n            self.0.proc.notify(usize::MAX);\n        }\n"),
(F,"    proc: Event,\n","    proc: Event,\n    waiters: AtomicU64,\n"),
(F,"            proc: Default::default(),\n","            proc: Default::default(),\n            waiters: Default::default(),\n"),
(F,"""        match deadline {
            Some(d) => {
                if listener.as_mut().wait_deadline(d).is_none() {
                    tracing::trace!("Timeout");
                    return None;
                }
            }
            None => listener.as_mut().wait(),
        };
""","""        self.0.waiters.fetch_add(1, Ordering::SeqCst);
        let woken = match deadline {
            Some(d) => listener.as_mut().wait_deadline(d).is_some(),
            None => {
                listener.as_mut().wait();
                true
            }
        };
        self.0.waiters.fetch_sub(1, Ordering::SeqCst);
        if !woken {
            tracing::trace!("Timeout");
            return None;
        }
"""),
]
DEPS=["ipcbus"]
DEMO=r'''
use std::future::Future;
use std::sync::{Arc, atomic::*};
use std::task::*;
struct W(AtomicBool);
impl Wake for W { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }
fn main() {
    let d = std::env::temp_dir().join("space");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("id"), 77u64.to_be_bytes()).unwrap();
    let bus = Arc::new(ipcbus::ProcBus::new(&d).unwrap());
    let w = Arc::new(W(AtomicBool::new(false)));
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(bus.next_async());
    assert!(f.as_mut().poll(&mut cx).is_pending());
    bus.emit(5);
    assert!(w.0.load(Ordering::SeqCst), "the asynchronous waiter was not woken");
    match f.as_mut().poll(&mut cx) { Poll::Ready(v) => assert!(v >= 5), Poll::Pending => panic!("still pending") }
}
'''
