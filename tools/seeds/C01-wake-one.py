PROP="C01"
NEEDS="two threads of one process waiting when a value is announced"
BREAKS="only one of the waiting threads is woken per announcement"
F="crates/ipcbus/src/udp_procbus.rs"
EDITS=[(F,"        self.0.proc.notify(usize::MAX);\n","        self.0.proc.notify(1);\n")]
DEPS=["ipcbus"]
DEMO=r'''
use std::sync::Arc;
use std::time::*;
fn main() {
    let d = std::env::temp_dir().join("space");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("id"), 78u64.to_be_bytes()).unwrap();
    let bus = Arc::new(ipcbus::ProcBus::new(&d).unwrap());
    let ts: Vec<_> = (0..3).map(|_| { let b = bus.clone(); std::thread::spawn(move || b.next_deadline(Some(Instant::now() + Duration::from_secs(6)))) }).collect();
    std::thread::sleep(Duration::from_secs(2));
    bus.emit(9);
    for t in ts { assert_eq!(t.join().unwrap(), Some(9), "a waiting thread was not woken"); }
}
'''
