//! Several simulated processes on one host exchange notifications over the IPC bus.
use ipcbus::ProcBus;
use lksim_engine::*;
use lksim_kernel as k;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub fn props() -> Vec<PropSpec> {
    const NOTE: &str = "seeded sampling of schedules and fault sequences over the real bus code; sequentially consistent atomics; simulated UDP loopback multicast";
    const RULE: &str = "one run = one generated plan (processes, spaces, threads, operations, fault rates) executed under one seeded schedule; non-trivial = more than 20 scheduling points and 3 context switches with an event hash not seen before";
    let p = |id, scenarios, q, t| PropSpec { id, scenarios, quick_runs: q, thorough_runs: t, level_note: NOTE, rule: RULE };
    vec![
        p("C01", &[("bus", 1)], 60_000, 1_200_000),
        p("C02", &[("bus", 1)], 60_000, 1_200_000),
        p("C03", &[("bus", 1)], 60_000, 1_200_000),
        p("C04", &[("bus", 1)], 60_000, 1_200_000),
        p("C05", &[("portmap", 1)], 60_000, 1_200_000),
    ]
}

#[derive(Default)]
struct PState {
    bus: Option<Arc<ProcBus>>,
    port: u16,
    opened_at: u64,
}
#[derive(Clone, Debug)]
struct Emit {
    proc_: usize,
    val: u64,
    before: u64,
    inv: u64,
    /// step, result, time
    ret: Option<(u64, u64, u64)>,
    /// waits that were certainly registered when this emit began
    settled: Vec<usize>,
}
#[derive(Clone, Debug)]
struct Wait {
    proc_: usize,
    tid: usize,
    inv: u64,
    inv_step: u64,
    inv_ns: u64,
    deadline: Option<u64>,
    lo: u64,
    points: u64,
    /// step, value, time
    ret: Option<(u64, Option<u64>, u64)>,
    is_async: bool,
    /// the value its caller had seen
    seen: Option<u64>,
    /// the latest deadline it slept until
    fired: u64,
    /// how often it read the clock at or after its deadline
    past_due: u32,
    /// the deadline put off by the times the thread could run but did not
    due: u64,
}
#[derive(Default)]
struct Hist {
    procs: BTreeMap<usize, PState>,
    emits: Vec<Emit>,
    waits: Vec<Wait>,
    max_seen: BTreeMap<usize, u64>,
    viols: Vec<(String, String, String)>,
    vm: Vm,
    /// values of well-formed datagrams that must not count
    foreign: Vec<u64>,
}
/// how the numbers of a plan become values: near the edges of the integer types, or with equal low bits
#[derive(Default, Clone, Copy)]
struct Vm {
    base: u64,
    mul: u64,
}
pub struct Bus;

/// values carry the space they belong to, so a value that crosses spaces is recognisable
fn mkval(vm: Vm, space: u64, n: u64) -> u64 {
    vm.base + n * 8 * vm.mul + space + 1
}
fn vm_of(i: i64) -> Vm {
    let v = |base, mul| Vm { base, mul };
    match i {
        0 => v(0, 1),
        1 => v((1 << 31) - 80, 1),
        2 => v((1 << 32) - 80, 1),
        3 => v((1 << 63) - 80, 1),
        4 => v(u64::MAX - 8 * 2_000_000, 1),
        5 => v(1_700_000_000_000_000, 1),
        6 => v(0, 1 << 20),
        7 => v(0, 1 << 29),
        8 => v(1 << 40, 1 << 29),
        _ => v(0, 1 << 37),
    }
}
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    struct W(std::thread::Thread);
    impl std::task::Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.unpark()
        }
    }
    let mut f = Box::pin(f);
    let w = std::task::Waker::from(Arc::new(W(std::thread::current())));
    let mut cx = std::task::Context::from_waker(&w);
    loop {
        match f.as_mut().poll(&mut cx) {
            std::task::Poll::Ready(v) => return v,
            std::task::Poll::Pending => std::thread::park(),
        }
    }
}

fn val_of(h: &Shared<Hist>, p: usize) -> Option<u64> {
    h.get().procs.get(&p).and_then(|s| s.bus.clone()).map(|b| k::quiet(|| b.val()))
}
fn observe(h: &Shared<Hist>, p: usize, lower: u64, v: u64, how: &str) {
    if v < lower {
        h.get().viols.push(("C02".into(), "value-went-back".into(), format!("{how} in process {p} returned {v} after {lower} had been returned or emitted in that process")));
    }
    let m = h.get().max_seen.entry(p).or_insert(0);
    *m = (*m).max(v);
}

fn run_thread(h: Shared<Hist>, p: usize, space: u64, ops: Vec<Op>) {
    let bus = h.get().procs[&p].bus.clone().unwrap();
    for o in ops {
        let lower = h.get().max_seen.get(&p).copied().unwrap_or(0);
        match o.code.as_str() {
            "emit" => {
                let v = mkval(h.get().vm, space, o.args[0] as u64);
                let before = k::quiet(|| bus.val());
                let i = h.get().emits.len();
                let settled = h
                    .get()
                    .waits
                    .iter()
                    .enumerate()
                    .filter(|(_, w)| {
                        let t = &k::sim().threads[w.tid];
                        w.proc_ == p && w.ret.is_none() && (t.points > w.points + 400 || matches!(t.state, k::TState::Blocked(k::What::Futex(_), Some(_))))
                    })
                    .map(|(i, _)| i)
                    .collect();
                h.get().emits.push(Emit { proc_: p, val: v, before, inv: k::sim().step, ret: None, settled });
                k::evh(|| format!("emit {v}"));
                let r = bus.emit(v);
                h.get().emits[i].ret = Some((k::sim().step, r, k::now_ns()));
                k::evh(|| format!("emit {v} -> {r}"));
                if r < v {
                    h.get().viols.push(("C02".into(), "emit-result".into(), format!("emit({v}) in process {p} returned {r}")));
                }
                observe(&h, p, lower, r, "emit");
                let m = h.get().max_seen.entry(p).or_insert(0);
                *m = (*m).max(v);
            }
            "val" => {
                let v = bus.val();
                observe(&h, p, lower, v, "val");
            }
            "wait" | "await" | "waitafter" | "awaitafter" => {
                let is_async = o.code.starts_with('a');
                let inv = k::sim().step;
                let seen = o.code.ends_with("after").then(|| bus.val());
                if let (Some(_), Some(&us)) = (seen, o.args.get(1)) {
                    if us > 0 {
                        std::thread::sleep(Duration::from_micros(us as u64));
                    }
                }
                let dl = if o.args[0] < 0 || is_async { None } else { Some(o.args[0] as u64 * 1000) };
                let inst = dl.map(|d| Instant::now() + Duration::from_nanos(d));
                // an Instant is the simulated monotonic clock; recover it without a scheduling point
                let i = h.get().waits.len();
                let dns = dl.map(|d| k::now_ns() + d);
                h.get().waits.push(Wait { proc_: p, tid: k::cur(), inv: if seen.is_some() { inv } else { k::sim().step }, inv_step: k::sim().step, inv_ns: k::now_ns(), deadline: dns, lo: lower, points: k::sim().threads[k::cur()].points, ret: None, is_async, seen, fired: 0, due: 0, past_due: 0 });
                let t = &mut k::sim().threads[k::cur()];
                (t.due, t.past_due) = (dns.unwrap_or(u64::MAX), 0);
                let t0 = k::sim().threads[k::cur()].fired;
                k::evh(|| format!("wait {dl:?} seen {seen:?}"));
                let r = match (is_async, seen) {
                    (true, None) => Some(block_on(bus.next_async())),
                    (true, Some(s)) => Some(block_on(bus.next_async_after(s))),
                    (_, None) => bus.next_deadline(inst),
                    (_, Some(s)) => bus.next_deadline_after(s, inst),
                };
                let f = k::sim().threads[k::cur()].fired;
                h.get().waits[i].due = k::sim().threads[k::cur()].due;
                h.get().waits[i].past_due = std::mem::replace(&mut k::sim().threads[k::cur()].past_due, 0);
                k::sim().threads[k::cur()].due = u64::MAX;
                h.get().waits[i].fired = if f != t0 { f } else { 0 };
                h.get().waits[i].ret = Some((k::sim().step, r, k::now_ns()));
                k::evh(|| format!("wait -> {r:?}"));
                if let Some(v) = r {
                    observe(&h, p, lower, v, "wait");
                }
            }
            "sleep" => std::thread::sleep(Duration::from_micros(o.args[0] as u64)),
            "yield" => std::thread::yield_now(),
            "init" => bus.init(),
            _ => {}
        }
    }
}
fn space_id(s: u64, shift: i64) -> u64 {
    0x1111_2222_3333_0000u64 + (s << shift)
}
fn space_dir(s: u64) -> String {
    format!("/sim/space{s}")
}
/// the plan takes a few thousand steps; hundreds of thousands mean that it never comes to rest
fn no_rest(out: &mut Out) {
    let s = k::sim();
    let sent = s.net.sent.len();
    if sent > 2000 {
        out.viol("C03", "notification-storm", format!("the processes sent {sent} datagrams and did not come to rest"));
    } else {
        out.viol("C01", "livelock", format!("the processes did not come to rest within {} steps; {sent} datagrams were sent", s.step));
    }
}
fn open_proc(h: &Shared<Hist>, name: &str, p: usize, space: u64, init: bool) -> usize {
    let h = h.clone();
    k::spawn_in(p, name, move || {
        let b = ProcBus::new(Path::new(&space_dir(space))).expect("open bus");
        if init {
            b.init();
        }
        let st = h.get().procs.entry(p).or_default();
        st.bus = Some(Arc::new(b));
        st.opened_at = k::sim().step;
    })
}

impl Scenario for Bus {
    fn name(&self) -> &'static str {
        "bus"
    }
    fn crash_prop(&self) -> &'static str {
        "C04"
    }
    fn gen(&self, r: &mut Rng, prop: &str) -> Plan {
        let mut p = Plan::new("bus");
        p.gen_sched(r);
        p.set("k.max_steps", 400_000);
        let nproc = match prop {
            "C03" | "C04" => r.range(2, 4),
            _ => r.range(1, 3),
        };
        p.set("procs", nproc);
        p.set("spaces", if r.chance(1, 3) { 2 } else { 1 });
        for i in 0..nproc {
            let sp = if i < 2 { 0 } else { r.range(0, p.get("spaces") - 1) };
            p.set(&format!("space{i}"), if i == 1 && p.get("spaces") == 2 && r.chance(1, 3) { 1 } else { sp });
        }
        if prop == "C03" || prop == "C04" || r.chance(1, 3) {
            if r.chance(1, 2) {
                p.set("k.net_drop_pm", r.pick(&[30, 200]));
            }
            if r.chance(1, 2) {
                p.set("k.net_dup_pm", r.pick(&[50, 300]));
            }
            if r.chance(1, 2) {
                p.set("k.net_delay_pm", r.pick(&[100, 500]));
                p.set("k.net_delay_max_us", r.pick(&[100, 5000]));
            }
            if r.chance(1, 4) {
                p.set("k.net_senderr_pm", 100);
            }
            if r.chance(1, 5) {
                p.set("k.net_rcvbuf", r.pick(&[1, 3]));
            }
        }
        if prop == "C04" && r.chance(1, 2) {
            p.set("k.net_recv_eintr_pm", 60);
        }
        p.set("inject", if prop == "C04" || r.chance(1, 5) { r.range(1, 6) } else { 0 });
        p.set("partition", (prop == "C03" && r.chance(1, 4)) as i64);
        p.set("vals", if r.chance(1, 2) { 0 } else { r.range(1, 9) });
        if prop == "C03" && r.chance(1, 25) {
            p.set("rounds", 140);
        }
        p.set("pidstep", r.pick(&[1, 1, 256, 65536, 1 << 20]));
        p.set("idshift", r.pick(&[0, 0, 16, 32, 56]));
        if (prop == "C03" || prop == "C04") && r.chance(1, 4) {
            p.set("restart", 1);
            p.set("k.max_kills", 2);
        }
        let big = r.chance(1, 3);
        let mut n = 1;
        let crowd = prop == "C01" && r.chance(1, 10);
        for pr in 0..nproc {
            let nt = if crowd && pr == 0 { r.range(9, 24) } else { r.range(1, if prop == "C01" { 4 } else { 3 }) };
            for t in 0..nt {
                let role = if crowd && t > 0 { 1 } else { r.below(3) };
                for _ in 0..r.range(1, if big { 8 } else { 4 }) {
                    let a = (pr * 50 + t) as u32;
                    let x = r.below(10);
                    let kind = match role {
                        0 if x < 7 => 0,
                        1 if x < 7 => 1,
                        _ => r.below(6),
                    };
                    match kind {
                        0 => {
                            // mostly increasing, sometimes far smaller or repeated
                            n += r.range(0, 3);
                            let v = if r.chance(1, 4) { r.range(1, n) } else { n };
                            p.op(a, "emit", &[v]);
                        }
                        1 => {
                            let d = if r.chance(1, 3) { -1 } else { r.pick(&[1, 20, 300, 2000]) };
                            if r.chance(1, 4) {
                                p.op(a, if r.chance(1, 3) { "awaitafter" } else { "waitafter" }, &[d, r.pick(&[0, 0, 5, 100])])
                            } else {
                                p.op(a, "wait", &[d])
                            }
                        }
                        2 => p.op(a, "val", &[]),
                        3 => p.op(a, "sleep", &[r.pick(&[1, 10, 60, 1000])]),
                        4 => p.op(a, if r.chance(1, 2) { "await" } else { "init" }, &[-1]),
                        _ => p.op(a, "emit", &[r.range(1, n + 2)]),
                    }
                }
            }
        }
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        std::env::set_var("TMPDIR", "/sim/tmp");
        k::fs::h_mkdirs("/sim/tmp");
        for s in 0..4u64 {
            k::fs::h_mkdirs(&space_dir(s));
            k::fs::h_write(&format!("{}/id", space_dir(s)), &space_id(s, plan.get("idshift")).to_be_bytes());
        }
        let vm = vm_of(plan.get("vals"));
        let h: Shared<Hist> = Shared::new(Hist { vm, ..Default::default() });
        let nproc = plan.get("procs") as usize;
        let pid_of = |slot: usize, life: u32| 2000 + life * 37 + slot as u32 * plan.get("pidstep").max(1) as u32;
        let mut cur: BTreeMap<usize, usize> = BTreeMap::new(); // slot -> proc
        let mut space_of: BTreeMap<usize, u64> = BTreeMap::new();
        let mut opens = vec![];
        for slot in 0..nproc {
            let p = k::new_proc(&format!("p{slot}"), pid_of(slot, 0));
            let sp = plan.get(&format!("space{slot}")) as u64;
            cur.insert(slot, p);
            space_of.insert(p, sp);
            opens.push(open_proc(&h, "open", p, sp, true));
        }
        let w = k::ctl_join(&opens, Some(k::now_ns() + 10_000_000_000));
        if w == k::Wake::StepLimit {
            return;
        }
        for (&slot, &p) in &cur {
            if h.get().procs.get(&p).map(|s| s.bus.is_none()).unwrap_or(true) {
                out.viol("C04", "open-failed", format!("process {slot} could not open the bus: {w:?} {:?}", k::sim().panics));
                return;
            }
        }
        let port_of = |space: u64| -> u16 {
            let m = k::fs::h_read("/sim/tmp/procbus.map").unwrap_or_default();
            let id = space_id(space, plan.get("idshift"));
            m.chunks_exact(10).find(|c| c[..8] == id.to_ne_bytes()).map(|c| u16::from_ne_bytes([c[8], c[9]])).unwrap_or(0)
        };
        let mut tids: Vec<(usize, usize)> = vec![];
        for a in plan.actors() {
            let slot = a as usize / 50;
            let Some(&p) = cur.get(&slot) else { continue };
            let (h2, sp, ops) = (h.clone(), space_of[&p], plan.ops_of(a));
            tids.push((p, k::spawn_in(p, &format!("w{}", a % 50), move || run_thread(h2, p, sp, ops))));
        }
        // faults: foreign and malformed traffic, partitions, a killed and restarted process
        let mut forged: Vec<(u64, u64)> = vec![];
        let inj = plan.get("inject");
        for i in 0..inj {
            let sp = k::sim().ch.choose(k::choice::Kind::User, |r| r.below(2)) % plan.get("spaces").max(1) as u64;
            let port = port_of(sp);
            let id = space_id(sp, plan.get("idshift")).to_ne_bytes();
            let what = k::sim().ch.choose(k::choice::Kind::User, |r| r.below(17));
            let at = 1 + k::sim().ch.choose(k::choice::Kind::User, |r| r.below(400));
            let big = mkval(vm, sp, 1_000_000 + i as u64);
            let mut src = k::net::LO;
            let mut known = None;
            let bytes: Vec<u8> = match what {
                0 => vec![],
                1 => vec![1; 7],
                2 => id.to_vec(),
                3 => [&id[..], &[9, 9]].concat(),
                4 => [&id[..], &9999u32.to_ne_bytes(), &[1, 2, 3]].concat(),
                // right space, somebody else's valid value: must be taken over
                5 => {
                    known = Some((sp, mkval(vm, sp, 500 + i as u64)));
                    [&id[..], &9999u32.to_ne_bytes(), &mkval(vm, sp, 500 + i as u64).to_ne_bytes()].concat()
                }
                // another space's datagram on this port
                6 => [&(0x7777u64 + sp).to_ne_bytes()[..], &9999u32.to_ne_bytes(), &big.to_ne_bytes()].concat(),
                // from another host
                7 => {
                    src = k::net::ETH;
                    [&id[..], &9999u32.to_ne_bytes(), &big.to_ne_bytes()].concat()
                }
                8 => vec![0xff; 300],
                // well-formed announcements with something before or after them
                9 => [&id[..], &9999u32.to_ne_bytes(), &big.to_ne_bytes(), &[1]].concat(),
                10 => [&id[..], &9999u32.to_ne_bytes(), &big.to_ne_bytes(), &id[..], &9999u32.to_ne_bytes(), &big.to_ne_bytes()].concat(),
                11 => [&[0][..], &id[..], &9999u32.to_ne_bytes(), &big.to_ne_bytes()].concat(),
                // the id of another space that differs in one bit, one half, its byte order or by one
                _ => {
                    let x = u64::from_ne_bytes(id);
                    let b = k::sim().ch.choose(k::choice::Kind::User, |r| r.below(64));
                    let y = match what {
                        12 => x ^ (1 << b),
                        13 => x ^ 0xffff_ffff,
                        14 => x ^ (0xffff_ffff << 32),
                        15 => x.swap_bytes(),
                        _ => x.wrapping_add(1),
                    };
                    [&y.to_ne_bytes()[..], &(9999 + b as u32).to_ne_bytes(), &big.to_ne_bytes()].concat()
                }
            };
            if bytes.len() == 20 && known.is_none() {
                h.get().foreign.push(big);
            }
            if let Some(x) = known {
                forged.push(x);
            }
            k::count(["inj_empty", "inj_7_bytes", "inj_id_only", "inj_no_value", "inj_short_value", "inj_valid_peer", "inj_foreign_space", "inj_foreign_host", "inj_garbage", "inj_trailing_byte", "inj_two_in_one", "inj_leading_byte", "inj_id_bit", "inj_id_low", "inj_id_high", "inj_id_swapped", "inj_id_next"][what as usize % 17]);
            k::schedule(at * 1000, move || k::net::transmit(None, (src, 4444), k::net::LO, (0xEFFF_320A, port), &bytes, false));
        }
        if plan.get("partition") == 1 && nproc > 1 {
            let (a, b) = (cur[&0], cur[&1]);
            k::sim().net.partition.push((a, b));
            k::schedule(150_000, || {
                k::sim().net.partition.clear();
                k::count("partition_healed")
            });
        }
        if plan.get("restart") == 1 && nproc > 1 {
            for p in cur.values() {
                k::sim().procs[*p].kill_den = 60;
            }
        }
        let all: Vec<usize> = tids.iter().map(|t| t.1).collect();
        let mut w = k::ctl_join(&all, Some(k::now_ns() + 60_000_000));
        if plan.get("restart") == 1 {
            for slot in 0..nproc {
                let p = cur[&slot];
                k::sim().procs[p].kill_den = 0;
                if !k::sim().procs[p].alive {
                    out.probe("process_restarted");
                    // half the time the new process gets the old pid back
                    let reuse = k::sim().ch.choose(k::choice::Kind::User, |r| r.below(2)) == 1;
                    let np = k::new_proc(&format!("p{slot}"), if reuse { pid_of(slot, 0) } else { pid_of(slot, 1) });
                    space_of.insert(np, space_of[&p]);
                    let t = open_proc(&h, "reopen", np, space_of[&p], true);
                    if k::ctl_join(&[t], Some(k::now_ns() + 10_000_000_000)) == k::Wake::StepLimit {
                        out.probe("step_limit");
                        return;
                    }
                    cur.insert(slot, np);
                    if h.get().procs.get(&np).map(|s| s.bus.is_none()).unwrap_or(true) {
                        out.viol("C04", "open-failed", format!("restarted process {slot} could not open the bus: {:?}", k::sim().panics));
                        return;
                    }
                }
            }
        }
        // faults stop
        k::sim().faults_off = true;
        k::sim().net.partition.clear();
        if w == k::Wake::Timeout || w == k::Wake::Woken {
            w = k::ctl_quiesce(30_000_000_000);
        }
        if w == k::Wake::StepLimit {
            no_rest(out);
            return;
        }
        self.judge(&h, &space_of, out, &forged, plan.get("idshift"), false);
        // once the network is reliable again a new value reaches every process of the space
        let slots: Vec<usize> = cur.keys().copied().collect();
        let rounds: Vec<usize> = (0..plan.get("rounds") as usize).map(|i| slots[i % 2.min(slots.len())]).collect();
        for (n, slot) in slots.iter().chain(&rounds).enumerate() {
            let p = cur[slot];
            let sp = space_of[&p];
            let v = mkval(vm, sp, 100_000 + n as u64);
            let h2 = h.clone();
            let t = k::spawn_in(p, "final", move || run_thread(h2, p, sp, vec![Op { actor: 0, code: "emit".into(), args: vec![100_000 + n as i64] }]));
            k::ctl_join(&[t], Some(k::now_ns() + 1_000_000_000));
            if k::ctl_quiesce(5_000_000_000) == k::Wake::StepLimit {
                no_rest(out);
                return;
            }
            for s2 in &slots {
                let q = cur[s2];
                let got = val_of(&h, q).unwrap_or(0);
                if space_of[&q] == sp {
                    out.check(got == v, if q == p { "C02" } else { "C03" }, "not-converged", || {
                        format!("process {s2} has value {got} after process {slot} of the same space emitted {v} on a fault-free network; panics {:?}", k::sim().panics)
                    });
                    if q != p && got != v && inj + plan.get("k.net_recv_eintr_pm") > 0 {
                        out.viol("C04", "bus-dead", format!("process {s2} has value {got} after process {slot} emitted {v}; foreign datagrams or an interrupted receive stopped it; panics {:?}", k::sim().panics));
                    }
                }
            }
        }
        self.judge(&h, &space_of, out, &forged, plan.get("idshift"), true);
        // everything handed to the network stays on this host
        let s = k::sim();
        for sk in s.net.socks.values() {
            if sk.bound.is_none() && s.net.sent.iter().any(|x| x.0 == sk.proc_) {
                out.check(sk.mcast_if == k::net::LO && sk.mcast_ttl == 0, "C03", "leaves-host", || format!("multicast interface {:x} ttl {}", sk.mcast_if, sk.mcast_ttl));
            }
        }
    }
    fn components(&self) -> &'static str {
        "ipcbus"
    }
}
impl Bus {
    fn judge(&self, h: &Shared<Hist>, space_of: &BTreeMap<usize, u64>, out: &mut Out, forged: &[(u64, u64)], idshift: i64, last: bool) {
        let h = h.get();
        let s = k::sim();
        if last {
            for v in h.viols.drain(..) {
                out.viol(&v.0, &v.1, v.2);
            }
        }
        for (&p, st) in &h.procs {
            let Some(b) = &st.bus else { continue };
            if !s.procs[p].alive {
                continue;
            }
            let sp = space_of[&p];
            let id = space_id(sp, idshift).to_ne_bytes();
            let pid = s.procs[p].pid.to_ne_bytes();
            let val = k::quiet(|| b.val());
            // values this process has learned: own emits and delivered datagrams
            let mut model = 0;
            for e in h.emits.iter().filter(|e| e.proc_ == p && e.ret.is_some()) {
                model = model.max(e.val);
            }
            let mut upper = h.emits.iter().filter(|e| e.proc_ == p).map(|e| e.val).max().unwrap_or(0);
            let rec: Vec<(u64, u64)> = s
                .net
                .received
                .iter()
                .filter(|(q, b, _)| *q == p && b.len() == 20 && b[..8] == id && b[8..12] != pid)
                .map(|(_, b, st)| (u64::from_ne_bytes(b[12..20].try_into().unwrap()), *st))
                .collect();
            // values of foreign hosts and spaces must not count
            let rec: Vec<(u64, u64)> = rec.into_iter().filter(|(v, _)| !h.foreign.contains(v)).collect();
            for (v, _) in &rec {
                model = model.max(*v);
                upper = upper.max(*v);
            }
            if val < model {
                let what = rec.iter().any(|r| r.0 == model);
                out.viol(if what { "C03" } else { "C02" }, "value-behind", format!("process {p} has value {val} at rest but {model} was {}", if what { "delivered to it" } else { "emitted in it" }));
                if what && s.counters.keys().any(|k| k.starts_with("inj_") || *k == "net_recv_eintr") {
                    out.viol("C04", "value-behind", format!("process {p} has value {val} at rest but {model} was delivered to it, after foreign datagrams or interrupted receives; panics {:?}", s.panics));
                }
            }
            if val > upper {
                let ours = |x: u64| (x.wrapping_sub(h.vm.base)) % 8 == sp + 1;
                let c = if h.foreign.contains(&val) || !ours(val) || !h.emits.iter().any(|e| e.val == val) && !forged.iter().any(|f| f.1 == val) { "C04" } else { "C02" };
                out.viol(c, "value-from-nowhere", format!("process {p} of space {sp} has value {val}; the largest emitted or delivered for its space is {upper}"));
            }
            // lost wake-ups: threads that are parked although a larger value was announced after they parked
            for (wi, w) in h.waits.iter().enumerate().filter(|(_, w)| w.proc_ == p) {
                match w.ret {
                    None => {
                        let t = &s.threads[w.tid];
                        if !matches!(t.state, k::TState::Blocked(k::What::Futex(_), _)) {
                            continue;
                        }
                        if w.deadline.map(|d| d + 1_000_000_000 < s.now).unwrap_or(false) {
                            out.viol("C01", "deadline-missed", format!("a wait with deadline {:?} is still blocked at {}", w.deadline, s.now));
                        }
                        out.probe("waiter_parked_at_rest");
                        if let Some(s) = w.seen.filter(|s| val > *s) {
                            out.viol("C01", "newer-missed", format!("thread T{} of process {p} waits for something newer than {s} and is parked at rest though the value is {val}", w.tid));
                        }
                        if let Some(e) = h.emits.iter().find(|e| e.proc_ == p && e.inv > t.blocked_since && e.val > e.before && e.ret.is_some()) {
                            if s.net.send_errs.iter().any(|x| x.0 == p && x.1 >= e.inv && Some(x.1) <= e.ret.map(|r| r.0)) {
                                out.viol("C04", "lost-wakeup", format!("thread T{} of process {p} was not woken by emit({}) whose datagram could not be sent", w.tid, e.val));
                            }
                            out.viol("C01", "lost-wakeup", format!("thread T{} of process {p} waits since step {} and was not woken by emit({}) of step {} (value before {})", w.tid, t.blocked_since, e.val, e.inv, e.before));
                        }
                        let mut best = 0;
                        for e in h.emits.iter().filter(|e| e.proc_ == p && e.inv <= t.blocked_since) {
                            best = best.max(e.val);
                        }
                        for (v, st) in &rec {
                            if *st > t.blocked_since && *v > best && !h.emits.iter().any(|e| e.proc_ == p && e.val >= *v) && !rec.iter().any(|(v2, s2)| v2 >= v && s2 < st) {
                                out.viol("C03", "lost-remote-wakeup", format!("thread T{} of process {p} waits since step {} and was not woken by the datagram with value {v} received at step {st}", w.tid, t.blocked_since));
                            }
                            best = best.max(*v);
                        }
                    }
                    Some((step, r, at)) => {
                        if !last {
                            continue;
                        }
                        if let (None, Some(d)) = (r, w.deadline) {
                            out.probe("wait_timed_out");
                            out.check(w.fired <= w.due + 2_000 && w.past_due <= 8, "C01", "late-timeout", || format!("a wait with deadline {d}ns slept until {}ns and read the clock {} times past its deadline", w.fired, w.past_due));
                            if let (Some(s), Some(e)) = (w.seen, h.emits.iter().find(|e| e.proc_ == p && Some(e.val) > w.seen && matches!(e.ret, Some((st, ..)) if st < w.inv_step))) {
                                out.viol("C01", "newer-missed", format!("a wait for something newer than {s} timed out although emit({}) had returned before it", e.val));
                            }
                            out.check(at >= d - 1, "C01", "early-timeout", || format!("a wait reported a timeout at {at}ns, before its deadline {d}ns"));
                            if let Some(e) = h.emits.iter().find(|e| e.settled.contains(&wi) && e.val > e.before && matches!(e.ret, Some((_, rv, rn)) if rv == e.val && rn < d)) {
                                out.viol("C01", "missed-before-timeout", format!("a wait in process {p} that began at step {} timed out at its deadline {d}ns although emit({}) started at step {} and had returned at {}ns", w.inv, e.val, e.inv, e.ret.unwrap().2));
                            }
                        }
                        if let (None, None) = (r, w.deadline) {
                            out.viol("C01", "timeout-without-deadline", "a wait without a deadline reported a timeout");
                        }
                        if let Some(v) = r {
                            out.probe(if w.is_async { "await_woken" } else { "wait_woken" });
                            // somebody announced something while this thread waited
                            let any = h.emits.iter().any(|e| e.proc_ == p && e.inv <= step && e.ret.map(|x| x.0 >= w.inv).unwrap_or(true)) || s.net.received.iter().any(|(q, _, st)| *q == p && *st <= step);
                            out.check(any, "C01", "woken-by-nothing", || format!("a wait of process {p} between steps {} and {step} returned {v} though nothing was announced", w.inv));
                            // whatever woke it had already raised the value
                            let own = h.emits.iter().filter(|e| e.proc_ == p && e.val >= e.before && e.inv <= step && e.ret.map(|x| x.0 >= w.inv).unwrap_or(true)).map(|e| e.val);
                            let least = own.chain(rec.iter().filter(|r| r.1 <= step).map(|r| r.0)).min();
                            if let Some(m) = least {
                                out.check(v >= m, "C01", "woken-too-early", || format!("a wait of process {p} ended at step {step} with value {v}, but every announcement that could have woken it carries {m} or more"));
                            }
                            out.check(v >= w.lo, "C02", "stale-value", || format!("a wait returned {v}, older than {} known when it began", w.lo));
                        }
                        let _ = w.inv_ns;
                    }
                }
            }
        }
        for pn in &s.panics {
            if pn.0 != 0 {
                out.viol("C04", "panic", format!("a bus thread panicked: {} {}", pn.2, pn.3));
            }
        }
    }
}
