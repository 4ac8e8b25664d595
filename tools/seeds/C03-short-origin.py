PROP="C03"
NEEDS="two processes of the space whose process ids agree in the low 16 bits"
BREAKS="announcements of the other process are mistaken for own ones and dropped"
F="crates/ipcbus/src/udp_procbus.rs"
EDITS=[(F,"                if origin == this.0.pid.to_ne_bytes() {\n","                if origin[..2] == this.0.pid.to_ne_bytes()[..2] {\n")]
DEPS=["ipcbus",'socket2 = { version = "0.5", features = ["all"] }']
DEMO=r'''
use socket2::*;
fn sender(port: u16) -> (Socket, SockAddr) {
    let s = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP)).unwrap();
    s.set_multicast_ttl_v4(0).unwrap();
    s.set_multicast_if_v4(&std::net::Ipv4Addr::LOCALHOST).unwrap();
    (s, std::net::SocketAddr::from(([239, 255, 50, 10], port)).into())
}
use std::time::*;
fn main() {
    let d = std::env::temp_dir().join("space");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("id"), 80u64.to_be_bytes()).unwrap();
    let bus = ipcbus::ProcBus::new(&d).unwrap();
    bus.init();
    let port = ipcbus::get_port(80).unwrap();
    let pid = std::process::id() ^ 0x10000;
    let msg = [&80u64.to_ne_bytes()[..], &pid.to_ne_bytes(), &1234u64.to_ne_bytes()].concat();
    let (tx, addr) = sender(port);
    let end = Instant::now() + Duration::from_secs(10);
    while Instant::now() < end {
        tx.send_to(&msg, &addr).unwrap();
        std::thread::sleep(Duration::from_millis(50));
        if bus.val() == 1234 { return }
    }
    panic!("the announcement of another process was dropped");
}
'''
