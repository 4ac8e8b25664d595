PROP="C04"
NEEDS="a datagram longer than an announcement whose first bytes look like one"
BREAKS="the receive buffer has the size of an announcement, so longer foreign datagrams are cut to a valid one and taken over"
F="crates/ipcbus/src/udp_multicast.rs"
EDITS=[(F,"    let mut buf = [MaybeUninit::<u8>::uninit(); u16::max_value() as usize + 4];\n    let align = buf.as_ptr().align_offset(4);\n    let buf = &mut buf[align..];\n",
"    // a notification is a bus id, a process id and a stamp\n    let mut buf = [MaybeUninit::<u8>::uninit(); 8 + 4 + 8];\n    let buf = &mut buf[..];\n")]
DEPS=["ipcbus",'socket2 = { version = "0.5", features = ["all"] }']
DEMO=r'''
use socket2::*;
fn sender(port: u16) -> (Socket, SockAddr) {
    let s = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP)).unwrap();
    s.set_multicast_ttl_v4(0).unwrap();
    s.set_multicast_if_v4(&std::net::Ipv4Addr::LOCALHOST).unwrap();
    (s, std::net::SocketAddr::from(([239, 255, 50, 10], port)).into())
}
use std::time::*;
fn main() {
    let d = std::env::temp_dir().join("space");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("id"), 82u64.to_be_bytes()).unwrap();
    let bus = ipcbus::ProcBus::new(&d).unwrap();
    bus.init();
    let port = ipcbus::get_port(82).unwrap();
    let (tx, addr) = sender(port);
    let ok = [&82u64.to_ne_bytes()[..], &1u32.to_ne_bytes(), &55u64.to_ne_bytes()].concat();
    let long = [&82u64.to_ne_bytes()[..], &1u32.to_ne_bytes(), &999_999u64.to_ne_bytes(), b"something else entirely"].concat();
    let end = Instant::now() + Duration::from_secs(10);
    while bus.val() < 55 && Instant::now() < end {
        tx.send_to(&long, &addr).unwrap();
        tx.send_to(&ok, &addr).unwrap();
        std::thread::sleep(Duration::from_millis(50));
    }
    assert_eq!(bus.val(), 55, "a malformed datagram changed the value or a well-formed one was lost");
}
'''
