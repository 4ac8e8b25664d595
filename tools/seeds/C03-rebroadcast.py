PROP="C03"
NEEDS="two processes of one space"
BREAKS="a received value is announced again by the receiver: two processes keep announcing it to each other for ever"
F="crates/ipcbus/src/udp_procbus.rs"
EDITS=[(F,"                this._emit::<true>(val);\n","                this.emit(val);\n")]
DEPS=["ipcbus",'socket2 = { version = "0.5", features = ["all"] }']
DEMO=r'''
use socket2::*;
fn sender(port: u16) -> (Socket, SockAddr) {
    let s = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP)).unwrap();
    s.set_multicast_ttl_v4(0).unwrap();
    s.set_multicast_if_v4(&std::net::Ipv4Addr::LOCALHOST).unwrap();
    (s, std::net::SocketAddr::from(([239, 255, 50, 10], port)).into())
}
fn receiver(port: u16) -> Socket {
    let s = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP)).unwrap();
    s.set_reuse_address(true).unwrap();
    s.set_reuse_port(true).unwrap();
    s.bind(&std::net::SocketAddr::from(([239, 255, 50, 10], port)).into()).unwrap();
    s.join_multicast_v4(&std::net::Ipv4Addr::from([239, 255, 50, 10]), &std::net::Ipv4Addr::LOCALHOST).unwrap();
    s
}
use std::time::*;
fn main() {
    let d = std::env::temp_dir().join("space");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("id"), 81u64.to_be_bytes()).unwrap();
    let bus = ipcbus::ProcBus::new(&d).unwrap();
    bus.init();
    let port = ipcbus::get_port(81).unwrap();
    let (tx, addr) = sender(port);
    let rx = receiver(port);
    let msg = [&81u64.to_ne_bytes()[..], &(std::process::id() + 1).to_ne_bytes(), &55u64.to_ne_bytes()].concat();
    tx.send_to(&msg, &addr).unwrap();
    rx.set_read_timeout(Some(Duration::from_secs(2))).unwrap();
    let mut own = 0;
    let mut buf = [std::mem::MaybeUninit::<u8>::uninit(); 64];
    while let Ok((n, _)) = rx.recv_from(&mut buf) {
        let b: Vec<u8> = buf[..n].iter().map(|x| unsafe { x.assume_init() }).collect();
        if b[8..12] == std::process::id().to_ne_bytes() { own += 1; }
        if own > 3 { break }
    }
    assert_eq!(bus.val(), 55);
    assert_eq!(own, 0, "a received announcement was announced again");
}
'''
