PROP="C01"
NEEDS="a waiter that runs between the wake-up and the update of the value"
BREAKS="waiters are woken before the new value is visible: they return the old value and the new one wakes nobody"
F="crates/ipcbus/src/udp_procbus.rs"
EDITS=[(F,"        let mut old = self.0.val.load(Ordering::Relaxed);\n","        let mut old = self.0.val.load(Ordering::Relaxed);\n        if old <= val {\n            // wake the threads of this process first, they need not wait for the socket\n            self.0.proc.notify(usize::MAX);\n        }\n"),
(F,"        tracing::trace!(val,ptr=%format!(\"{:p} \",&self.0.val),\"emit proc\");\n        self.0.proc.notify(usize::MAX);\n","        tracing::trace!(val,ptr=%format!(\"{:p} \",&self.0.val),\"emit proc\");\n")]
DEPS=["ipcbus"]
RELEASE=True
TIMEOUT=280
DEMO=r'''
use std::sync::{Arc, atomic::*};
use std::time::*;
fn main() {
    let d = std::env::temp_dir().join("space");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("id"), 83u64.to_be_bytes()).unwrap();
    let bus = Arc::new(ipcbus::ProcBus::new(&d).unwrap());
    let bad = Arc::new(AtomicBool::new(false));
    let end = Instant::now() + Duration::from_secs(40);
    // values only grow by announcements of the main thread, one at a time, none of them while the waiter
    // looks at the value: a wait never returns the value it already knew
    let (ack, emitting) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicBool::new(false)));
    let t = { let (b, bad, ack, emitting) = (bus.clone(), bad.clone(), ack.clone(), emitting.clone()); std::thread::spawn(move || {
        while Instant::now() < end && !bad.load(Ordering::SeqCst) {
            ack.store(0, Ordering::SeqCst);
            while emitting.load(Ordering::SeqCst) {}
            let known = b.val();
            ack.store(known + 1, Ordering::SeqCst);
            if let Some(v) = b.next_deadline(Some(Instant::now() + Duration::from_millis(5))) {
                if v <= known { bad.store(true, Ordering::SeqCst); }
            }
        }
    }) };
    let mut v = 0;
    let mut x = 1u64;
    while Instant::now() < end && !bad.load(Ordering::SeqCst) {
        emitting.store(true, Ordering::SeqCst);
        // announce only when the waiter has seen the previous value
        if ack.load(Ordering::SeqCst) == v + 1 {
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            let t = Instant::now();
            while t.elapsed() < Duration::from_nanos(x % 3000) {}
            v += 1;
            bus.emit(v);
        }
        emitting.store(false, Ordering::SeqCst);
        std::hint::spin_loop();
    }
    t.join().unwrap();
    assert!(!bad.load(Ordering::SeqCst), "a waiter was woken before the value was there");
}
'''
