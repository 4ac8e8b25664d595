mod bus;
mod portmap;
use lksim_engine::*;

fn main() {
    let s = Suite {
        scenarios: vec![Box::new(bus::Bus), Box::new(portmap::PortMap)],
        props: bus::props(),
        components: "real: ipcbus (ProcBus, UDP multicast transport, port map), event-listener, parking, std sync; stub: UDP/IP loopback network, file system, clock, scheduler, process ids",
    };
    s.main()
}
