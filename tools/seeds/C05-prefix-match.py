PROP="C05"
NEEDS="two spaces whose ids agree in four bytes"
BREAKS="entries are matched on half of the space id, so such spaces share a port"
F="crates/ipcbus/src/udp_procbus.rs"
EDITS=[(F,"        if u64::from_ne_bytes(b[0..8].try_into().unwrap()) == bus_id {\n","        if u32::from_ne_bytes(b[4..8].try_into().unwrap()) == (bus_id >> 32) as u32 {\n")]
DEPS=["ipcbus"]
DEMO=r'''
fn main() {
    let a = ipcbus::get_port(0x1234_5678_0000_0001).unwrap();
    let b = ipcbus::get_port(0x1234_5678_0000_0002).unwrap();
    let c = ipcbus::get_port(0x1234_5679_0000_0001).unwrap();
    assert!(a != b && b != c && a != c, "{a} {b} {c}");
    assert_eq!(a, ipcbus::get_port(0x1234_5678_0000_0001).unwrap());
}
'''
