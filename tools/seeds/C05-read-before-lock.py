PROP="C05"
NEEDS="two processes looking up ports for new spaces at the same time"
BREAKS="the map is read before the lock is taken, so concurrent lookups hand out one port twice or lose an entry"
F="crates/ipcbus/src/udp_procbus.rs"
EDITS=[
(F,"    lockfile.lock_with_pid().unwrap();\n    let path = std::env::temp_dir().join(\"procbus.map\");\n","    let path = std::env::temp_dir().join(\"procbus.map\");\n"),
(F,"    let mut new_port = 10501;\n","    lockfile.lock_with_pid().unwrap();\n    let mut new_port = 10501;\n"),
]
DEPS=["ipcbus"]
TIMEOUT=200
DEMO=r'''
use std::process::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 {
        let id: u64 = a[1].parse().unwrap();
        // start together
        while !std::path::Path::new("go").exists() { std::thread::yield_now() }
        println!("{}", ipcbus::get_port(id).unwrap());
        return;
    }
    let me = std::env::current_exe().unwrap();
    for round in 0..60u64 {
        let d = std::env::temp_dir().join(format!("r{round}"));
        std::fs::create_dir_all(&d).unwrap();
        let cs: Vec<Child> = (0..8u64).map(|i| Command::new(&me).arg((i / 2 + 1).to_string()).env("TMPDIR", &d).current_dir(&d).stdout(Stdio::piped()).spawn().unwrap()).collect();
        std::thread::sleep(std::time::Duration::from_millis(30));
        std::fs::write(d.join("go"), "").unwrap();
        let ports: Vec<String> = cs.into_iter().map(|c| String::from_utf8(c.wait_with_output().unwrap().stdout).unwrap()).collect();
        for i in 0..8 { for j in 0..8 {
            assert_eq!(i / 2 == j / 2, ports[i] == ports[j], "round {round}: {ports:?}");
        } }
    }
}
'''
