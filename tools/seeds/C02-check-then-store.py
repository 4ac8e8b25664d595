PROP="C02"
NEEDS="two announcements racing between the comparison and the store"
BREAKS="the smaller of two concurrent values can overwrite the larger"
F="crates/ipcbus/src/udp_procbus.rs"
EDITS=[(F,"""                Ok(_) => break,
                Err(x) => old = x,
            }""","""                Ok(_) => break,
                Err(x) if x > val => return x,
                // somebody announced an older value meanwhile
                Err(_) => {
                    self.0.val.store(val, Ordering::SeqCst);
                    break;
                }
            }""")]
DEPS=["ipcbus"]
RELEASE=True
DEMO=r'''
use std::sync::{Arc, atomic::*};
use std::time::*;
fn main() {
    let d = std::env::temp_dir().join("space");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("id"), 79u64.to_be_bytes()).unwrap();
    let bus = Arc::new(ipcbus::ProcBus::new(&d).unwrap());
    let next = Arc::new(AtomicU64::new(1));
    let bad = Arc::new(AtomicBool::new(false));
    let end = Instant::now() + Duration::from_secs(40);
    let ts: Vec<_> = (0..8).map(|_| { let (b, n, bad) = (bus.clone(), next.clone(), bad.clone()); std::thread::spawn(move || {
        while Instant::now() < end && !bad.load(Ordering::Relaxed) {
            for _ in 0..100 {
                let v = n.fetch_add(1, Ordering::SeqCst);
                b.emit(v);
                if b.val() < v { bad.store(true, Ordering::Relaxed); }
            }
        }
    }) }).collect();
    for t in ts { t.join().unwrap() }
    assert!(!bad.load(Ordering::SeqCst), "the bus value went backwards");
}
'''
