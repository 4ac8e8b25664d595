//! Processes that open spaces at the same time must agree on the port of each space.
use lksim_engine::*;
use lksim_kernel as k;
use std::collections::BTreeMap;

pub struct PortMap;
#[derive(Default)]
struct Hist {
    /// (proc, id, port or error, start step, end step)
    got: Vec<(usize, u64, Result<u16, String>, u64, u64)>,
}
/// ids that agree in their low or high bytes
fn id_of(n: i64) -> u64 {
    if n >= 100 {
        // any other spaces
        let mut z = (n as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        return z ^ (z >> 31);
    }
    [0xabcd_0000_0000_0001, 0xabcd_0000_0000_0002, 0xabce_0000_0000_0001, 0xabcd_0001_0000_0001, 0x0100_0000_0000_cdab][n as usize % 5]
}
impl Scenario for PortMap {
    fn name(&self) -> &'static str {
        "portmap"
    }
    fn crash_prop(&self) -> &'static str {
        "C05"
    }
    fn gen(&self, r: &mut Rng, _prop: &str) -> Plan {
        let mut p = Plan::new("portmap");
        p.gen_sched(r);
        p.set("k.max_steps", 60_000);
        let n = r.range(1, 5);
        if r.chance(2, 3) {
            p.set("k.max_kills", r.range(1, 3));
            p.set("kill_den", r.pick(&[4, 10, 30]));
        }
        match r.below(4) {
            0 => {
                p.set("k.fs_short_pm", r.pick(&[100, 500]));
            }
            1 => {
                p.set("k.fs_short_pm", r.pick(&[0, 300]));
                p.set("k.fs_enospc_pm", r.pick(&[0, 60]));
                p.set("k.fs_eio_pm", r.pick(&[0, 40]));
            }
            _ => {}
        }
        p.set("prefill", if r.chance(1, 3) { r.range(1, 400) } else { 0 });
        if r.chance(1, 12) {
            let s = r.range(100, 1 << 40);
            for i in 0..r.range(100, 300) {
                p.op(0, "port", &[s + i]);
            }
        }
        for a in 0..n {
            for _ in 0..r.range(1, 4) {
                p.op(a as u32, "port", &[r.range(0, 4)]);
                if r.chance(1, 4) {
                    p.op(a as u32, "sleep", &[r.pick(&[1, 50])]);
                }
            }
        }
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        std::env::set_var("TMPDIR", "/sim/tmp");
        k::fs::h_mkdirs("/sim/tmp");
        let h: Shared<Hist> = Shared::new(Hist::default());
        let mut pre = vec![];
        for i in 0..plan.get("prefill") {
            pre.extend((0x5000_0000u64 + i as u64).to_ne_bytes());
            pre.extend((10502u16 + i as u16).to_ne_bytes());
        }
        if !pre.is_empty() {
            k::fs::h_write("/sim/tmp/procbus.map", &pre);
        }
        let spawn = |a: u32, ops: Vec<Op>, den: u64, inc: u32| {
            let p = k::new_proc(&format!("p{a}"), 2000 + a + inc * 100);
            k::sim().procs[p].kill_den = den;
            let h = h.clone();
            let t = k::spawn_in(p, "m", move || {
                for o in ops {
                    match o.code.as_str() {
                        "port" => {
                            let id = id_of(o.args[0]);
                            let s0 = k::sim().step;
                            let r = std::panic::catch_unwind(|| ipcbus::get_port(id));
                            let r = match r {
                                Ok(Ok(p)) => Ok(p),
                                Ok(Err(e)) => Err(e.to_string()),
                                Err(_) => Err("panic".into()),
                            };
                            k::evh(|| format!("get_port({id:x}) -> {r:?}"));
                            h.get().got.push((p, id, r, s0, k::sim().step));
                        }
                        _ => std::thread::sleep(std::time::Duration::from_micros(o.args[0] as u64)),
                    }
                }
            });
            (p, t)
        };
        let mut ps = vec![];
        for a in plan.actors() {
            ps.push((a, spawn(a, plan.ops_of(a), plan.get("kill_den") as u64, 0)));
        }
        let ts: Vec<usize> = ps.iter().map(|x| x.1 .1).collect();
        let w = k::ctl_join(&ts, Some(k::now_ns() + 20_000_000_000));
        if w == k::Wake::StepLimit {
            out.probe("step_limit");
            return;
        }
        let io_faults = k::counter("fs_eio") + k::counter("fs_enospc") + k::counter("fs_eintr") > 0;
        out.check(w == k::Wake::Woken, "C05", "stuck", || format!("a process never got its port: {w:?}"));
        // faults stop; everybody restarts and asks for every space again
        k::sim().faults_off = true;
        let mut fin = vec![];
        for (a, (p, _)) in &ps {
            if !k::sim().procs[*p].alive {
                out.probe("killed_in_get_port");
            }
            let ops = (0..5).map(|i| Op { actor: *a, code: "port".into(), args: vec![i] }).collect();
            fin.push(spawn(*a, ops, 0, 1).1);
        }
        let w = k::ctl_join(&fin, Some(k::now_ns() + 20_000_000_000));
        if w == k::Wake::StepLimit {
            return;
        }
        out.check(w == k::Wake::Woken, "C05", "stuck-after-faults", || format!("a process never got its port after the faults stopped: {w:?}"));
        let mut port: BTreeMap<u64, (u16, usize)> = BTreeMap::new();
        let mut owner: BTreeMap<u16, u64> = BTreeMap::new();
        for i in 0..plan.get("prefill") {
            owner.insert(10502 + i as u16, 0x5000_0000 + i as u64);
            port.insert(0x5000_0000 + i as u64, (10502 + i as u16, 0));
        }
        for (p, id, r, s0, _) in &h.get().got {
            match r {
                Ok(n) => {
                    if let Some((m, q)) = port.get(id) {
                        out.check(m == n, "C05", "disagree", || format!("space {id:x}: process {q} uses port {m}, process {p} uses port {n} (step {s0})"));
                    } else {
                        port.insert(*id, (*n, *p));
                    }
                    let o = *owner.entry(*n).or_insert(*id);
                    out.check(o == *id, "C05", "shared-port", || format!("port {n} is used for space {o:x} and for space {id:x}"));
                    out.check(*n > 1024, "C05", "bad-port", || format!("port {n}"));
                }
                Err(e) => {
                    let after = k::sim().procs[*p].incarnation > 0;
                    out.check(!after && io_faults, "C05", "failed", || format!("process {p} failed to get a port without an I/O fault of its own: {e}; {:?}", k::sim().panics));
                    out.probe("get_port_failed_io");
                }
            }
        }
        out.probe_n("ports_agreed", port.len() as u64);
    }
}
