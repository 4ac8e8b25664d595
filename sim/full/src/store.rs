//! Processes that save to and read from one instance while they are killed, starved of space and
//! served by clocks that stand still or jump.
use crate::pool::*;
use linkspace_core::env::query_mode::{Mode, Order, Table};
use linkspace_core::prelude::lmdb::get::ReadTxn;
use linkspace_core::prelude::lmdb::BTreeEnv;
use linkspace_core::prelude::*;

use lksim_engine::*;
use lksim_kernel as k;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub const DIR: &str = "/sim/inst";
pub type H32 = [u8; 32];

/// one reading of a snapshot: the log in order
pub type Log = Vec<(u64, H32)>;

#[derive(Clone)]
pub struct Save {
    pub proc_: usize,
    pub tid: usize,
    pub idxs: Vec<usize>,
    pub mode: i64,
    pub inv: u64,
    pub rt0: i128,
    pub now0: u64,
    pub faults0: u64,
    pub ret: Option<Ret>,
}
#[derive(Clone)]
pub struct Ret {
    pub seq: u64,
    pub res: Result<(u64, u64), String>,
    pub states: Vec<SaveState>,
    pub val: u64,
    pub faults: u64,
    pub us: u64,
}
pub struct Snap {
    pub c0: usize,
    pub c1: usize,
    pub log: Log,
    pub what: &'static str,
}
#[derive(Default)]
pub struct Hist {
    pub envs: BTreeMap<usize, BTreeEnv>,
    pub saves: Vec<Save>,
    pub snaps: Vec<Snap>,
    pub openers: Vec<(usize, usize)>,
    pub open_err: Vec<(usize, String)>,
    pub viols: Vec<(&'static str, String, String)>,
    pub finished: BTreeSet<usize>,
}
impl Hist {
    pub fn viol(&mut self, p: &'static str, c: &str, m: String) {
        if self.viols.len() < 30 {
            self.viols.push((p, c.into(), m));
        }
    }
}

fn injected() -> u64 {
    ["db_map_full", "db_commit_eio", "db_commit_enospc", "db_out_of_space"].iter().map(|c| k::counter(c)).sum()
}
pub fn hx(h: &H32) -> String {
    match pool().by_hash.get(h) {
        Some(i) => format!("#{i}"),
        None => h[..4].iter().map(|b| format!("{b:02x}")).collect(),
    }
}
pub fn show(l: &[(u64, H32)]) -> String {
    let base = k::RT_BASE as u64 / 1000;
    l.iter().map(|(s, h)| format!("{}@{}", hx(h), *s as i64 - base as i64)).collect::<Vec<_>>().join(" ")
}
fn known_bytes(h: &H32) -> Option<Vec<u8>> {
    if let Some(i) = pool().by_hash.get(h) {
        return Some(pool().pkts[*i].thin_netpkt().as_netpkt_bytes().to_vec());
    }
    let (_, m) = boot_hashes(false, false);
    m.get(h).map(|p| p.thin_netpkt().as_netpkt_bytes().to_vec())
}
/// read one snapshot through every access path and compare them
pub fn views(t: &ReadTxn, full: bool) -> (Log, Vec<(&'static str, String, String)>) {
    let mut bad: Vec<(&'static str, String, String)> = vec![];
    let mut log: Log = vec![];
    for p in t.local_pkt_log(Stamp::ZERO) {
        let h = p.pkt.hash_ref().0;
        log.push((p.recv.get(), h));
        if full {
            match known_bytes(&h) {
                None => bad.push(("C10", "unknown-packet".into(), format!("the log holds a packet {} that nobody saved", hx(&h)))),
                Some(b) => {
                    if b != p.pkt.as_netpkt_bytes() {
                        bad.push(("C10", "bytes-differ".into(), format!("packet {} reads back with other bytes", hx(&h))));
                    }
                }
            }
        }
    }
    for w in log.windows(2) {
        if w[0].0 >= w[1].0 {
            bad.push(("C12", "log-order".into(), format!("the log iterates {} before {}", w[0].0, w[1].0)));
        }
    }
    let head = t.log_head().get();
    if head != log.last().map(|l| l.0).unwrap_or(0) {
        bad.push(("C13", "log-head".into(), format!("log head is {head} but the log ends with {:?}", log.last().map(|l| l.0))));
    }
    if !full {
        return (log, bad);
    }
    let preds = PktPredicates::DEFAULT;
    let sorted: BTreeMap<H32, u64> = log.iter().map(|(s, h)| (*h, *s)).collect();
    if sorted.len() != log.len() {
        bad.push(("C11", "stored-twice".into(), format!("a packet is in the log twice: {}", show(&log))));
    }
    let mut n = 0;
    let by_hash: Vec<(H32, u64)> = t.query(Mode::HASH_ASC, &preds, &mut n).unwrap().map(|p| (p.pkt.hash_ref().0, p.recv.get())).collect();
    if by_hash != sorted.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>() {
        bad.push(("C13", "hash-view".into(), format!("by hash: {} / by log: {}", show(&by_hash.iter().map(|(a, b)| (*b, *a)).collect::<Vec<_>>()), show(&log))));
    }
    for (s, h) in &log {
        match t.read(&B64(*h)) {
            Ok(Some(p)) if p.pkt.hash_ref().0 == *h && p.recv.get() == *s => {}
            o => bad.push(("C13", "read-by-hash".into(), format!("{} is in the log at {s} but read by hash gives {:?}", hx(h), o.map(|o| o.map(|p| (p.recv, hx(&p.pkt.hash_ref().0))))))),
        }
        if t.read_ptr(&B64(*h)).ok().flatten() != Some(Stamp::new(*s)) {
            bad.push(("C13", "read-ptr".into(), format!("{} is in the log at {s} but its pointer differs", hx(h))));
        }
    }
    for ord in [Order::Asc, Order::Desc] {
        let mut got: Vec<(TreePos, u64)> = vec![];
        for e in t.query_tree_entries(&preds, ord) {
            let (g, d, depth, sp, key) = e.btree_key.fields();
            got.push((TreePos { group: g.0, domain: d.0, depth, space: sp.space_bytes().to_vec(), key: key.0, create: e.create().get(), hash: e.hash().0 }, e.local_log_ptr().get()));
        }
        got.sort();
        let mut want: Vec<(TreePos, u64)> = vec![];
        for p in t.local_pkt_log(Stamp::ZERO) {
            if let Some(x) = tree_pos(&p.pkt) {
                want.push((x, p.recv.get()));
            }
        }
        want.sort();
        if got != want {
            let miss: Vec<String> = want.iter().filter(|w| !got.contains(w)).map(|w| hx(&w.0.hash)).collect();
            let more: Vec<String> = got.iter().filter(|w| !want.contains(w)).map(|w| hx(&w.0.hash)).collect();
            bad.push(("C13", "tree-view".into(), format!("tree {ord:?}: {} entries for {} points; missing {miss:?} extra {more:?}", got.len(), want.len())));
        }
    }
    let mut n = 0;
    let tree: BTreeSet<H32> = t.query(Mode { table: Table::Tree, order: Order::Desc }, &preds, &mut n).unwrap().map(|p| p.pkt.hash_ref().0).collect();
    for p in t.local_pkt_log(Stamp::ZERO) {
        let is = p.pkt.as_point().linkpoint_header().is_some();
        if is != tree.contains(&p.pkt.hash_ref().0) {
            bad.push(("C13", "tree-query".into(), format!("{} in the tree query: {}", hx(&p.pkt.hash_ref().0), !is)));
        }
    }
    (log, bad)
}

pub fn do_save(h: &Shared<Hist>, env: &BTreeEnv, p: usize, mode: i64, idxs: Vec<usize>) -> Option<(u64, u64)> {
    let pl = pool();
    let idxs: Vec<usize> = idxs.into_iter().map(|i| i % N).collect();
    let idxs = if mode == 2 || mode == 3 { idxs[..1].to_vec() } else { idxs };
    let i = h.get().saves.len();
    h.get().saves.push(Save { proc_: p, tid: k::cur(), idxs: idxs.clone(), mode, inv: lmdb_sys::seq(), rt0: k::rt_ns(), now0: k::now_ns(), faults0: injected(), ret: None });
    k::evh(|| format!("save mode {mode} {idxs:?}"));
    let ptrs: Vec<&NetPktPtr> = idxs.iter().map(|i| pl.pkts[*i].thin_netpkt()).collect();
    let mut states = vec![];
    let one = |r: std::io::Result<SaveState>, st: &mut Vec<SaveState>| {
        r.map(|s| {
            st.push(s);
            0..0
        })
    };
    let r = match mode {
        1 => {
            let mut b: Vec<(&NetPktPtr, SaveState)> = ptrs.iter().map(|p| (*p, SaveState::Pending)).collect();
            let r = env.save_ptr(&mut b);
            states = b.iter().map(|x| x.1).collect();
            r
        }
        2 => one(env.save_ptr_one(ptrs[0]), &mut states),
        3 => one(env.save_dyn_one(&ptrs[0]), &mut states),
        4 => env.save_dyn_iter(ptrs.iter().map(|p| p as &dyn NetPkt)),
        5 => env.save_ptr_iter(ptrs.iter().copied()),
        _ => {
            let mut b: Vec<(&dyn NetPkt, SaveState)> = ptrs.iter().map(|p| (p as &dyn NetPkt, SaveState::Pending)).collect();
            let r = env.save_dyn(&mut b);
            states = b.iter().map(|x| x.1).collect();
            r
        }
    };
    let val = k::quiet(|| env.0.log_head.val());
    let res = r.as_ref().map(|r| (r.start, r.end)).map_err(|e| format!("{e:?}"));
    k::evh(|| format!("save -> {:?} {states:?}", res));
    h.get().saves[i].ret = Some(Ret { seq: lmdb_sys::seq(), res: res.clone(), states, val, faults: injected(), us: (k::rt_ns() / 1000) as u64 });
    res.ok()
}
/// argument of an operation; missing ones (after minimising) are zero
pub fn arg(o: &Op, i: usize) -> i64 {
    o.args.get(i).copied().unwrap_or(0)
}
pub fn idxs(o: &Op) -> Vec<usize> {
    let v: Vec<usize> = o.args.iter().skip(1).map(|x| *x as usize).collect();
    if v.is_empty() {
        vec![0]
    } else {
        v
    }
}
pub fn run_ops(h: Shared<Hist>, p: usize, ops: Vec<Op>) {
    let env = h.get().envs[&p].clone();
    for o in ops {
        match o.code.as_str() {
            "save" => {
                do_save(&h, &env, p, arg(&o, 0), idxs(&o));
            }
            "read" => {
                let c0 = lmdb_sys::commits(DIR);
                let Ok(mut t) = env.new_read_txn() else {
                    k::count("read_txn_failed");
                    continue;
                };
                let c1 = lmdb_sys::commits(DIR);
                let (log, bad) = views(&t, true);
                for b in bad {
                    h.get().viol(b.0, &b.1, format!("in process {p}: {}", b.2));
                }
                h.get().snaps.push(Snap { c0, c1, log: log.clone(), what: "read" });
                if arg(&o, 0) > 0 {
                    std::thread::sleep(Duration::from_micros(arg(&o, 0) as u64));
                }
                let (again, bad) = views(&t, arg(&o, 1) > 0);
                for b in bad {
                    h.get().viol(b.0, &b.1, format!("in process {p}: {}", b.2));
                }
                if again != log {
                    h.get().viol("C17", "snapshot-changed", format!("one transaction of process {p} first read {} and later {}", show(&log), show(&again)));
                }
                if arg(&o, 1) > 1 {
                    let told = k::quiet(|| env.0.log_head.val());
                    let c0 = lmdb_sys::commits(DIR);
                    t.refresh();
                    let c1 = lmdb_sys::commits(DIR);
                    let (log2, bad) = views(&t, true);
                    for b in bad {
                        h.get().viol(b.0, &b.1, format!("in process {p} after refresh: {}", b.2));
                    }
                    let head = log2.last().map(|l| l.0).unwrap_or(0);
                    if head < told {
                        h.get().viol("C17", "refresh-behind-notification", format!("process {p} was notified of {told} but after a refresh its log ends at {head}"));
                    }
                    h.get().snaps.push(Snap { c0, c1, log: log2, what: "refresh" });
                }
            }
            "get" => {
                let i = arg(&o, 0) as usize % N;
                let hash = pool().pkts[i].hash();
                let before = h.get().saves.iter().any(|s| matches!(&s.ret, Some(r) if r.res.is_ok()) && s.idxs.contains(&i));
                let any = |h: &Hist| h.saves.iter().any(|s| s.idxs.contains(&i));
                if let Ok(t) = env.new_read_txn() {
                    match t.read(&hash) {
                        Ok(Some(f)) => {
                            if !any(h.get()) {
                                h.get().viol("C10", "found-unsaved", format!("process {p} found packet #{i} that nobody saved"));
                            }
                            if f.pkt.as_netpkt_bytes() != pool().pkts[i].thin_netpkt().as_netpkt_bytes() {
                                h.get().viol("C10", "bytes-differ", format!("process {p} read packet #{i} with other bytes"));
                            }
                        }
                        Ok(None) => {
                            if before {
                                h.get().viol("C10", "lost", format!("process {p} did not find packet #{i} whose save had returned"));
                            }
                        }
                        Err(e) => h.get().viol("C10", "read-error", format!("reading packet #{i} failed: {e:?}")),
                    }
                };
            }
            "wait" => {
                let r = env.next_deadline(Some(Instant::now() + Duration::from_micros(arg(&o, 0) as u64)));
                if let Some(v) = r {
                    // whoever is told of a position can read it
                    let c0 = lmdb_sys::commits(DIR);
                    if let Ok(t) = env.new_read_txn() {
                        let c1 = lmdb_sys::commits(DIR);
                        let (log, _) = views(&t, false);
                        let head = log.last().map(|l| l.0).unwrap_or(0);
                        if head < v {
                            h.get().viol("C11", "notified-too-early", format!("process {p} was notified of position {v} but the log ends at {head}"));
                        }
                        h.get().snaps.push(Snap { c0, c1, log, what: "after notification" });
                    }
                }
            }
            "sleep" => std::thread::sleep(Duration::from_micros(arg(&o, 0) as u64)),
            _ => {}
        }
    }
    h.get().finished.insert(k::cur());
}

pub fn open_in(h: &Shared<Hist>, p: usize) -> usize {
    let h = h.clone();
    k::spawn_in(p, "open", move || {
        h.get().openers.push((k::cur(), p));
        match BTreeEnv::open(PathBuf::from(DIR), true) {
            Ok(e) => {
                h.get().envs.insert(p, e);
            }
            Err(e) => h.get().open_err.push((p, format!("{e:?}"))),
        }
    })
}
pub fn prep_env(plan: &Plan) {
    std::env::set_var("TMPDIR", "/sim/tmp");
    std::env::set_var("LK_LMDB_MAPSIZE", "1000000000");
    k::fs::h_mkdirs("/sim/tmp");
    for (n, v) in [("empty", "LK_FORCE_EMPTY"), ("nolns", "LK_NO_LNS")] {
        if plan.get(n) == 1 {
            std::env::set_var(v, "1");
        } else {
            std::env::remove_var(v);
        }
    }
    if plan.get("mapsize") == 0 {
        std::env::remove_var("LK_LMDB_MAPSIZE");
    }
}
pub fn gen_clock(p: &mut Plan, r: &mut Rng) {
    if r.chance(1, 2) {
        // a clock that hardly moves between two saves
        p.set("k.step_ns", 0);
        p.set("k.tick_ns", r.pick(&[1, 1, 20, 400]));
    }
    if r.chance(1, 3) {
        p.set("k.jump_den", r.pick(&[4, 20]));
        p.set("k.jump_kinds", 3);
    }
}
pub fn gen_db_faults(p: &mut Plan, r: &mut Rng, much: bool) {
    if much || r.chance(1, 4) {
        match r.below(5) {
            0 => p.set("k.db0", r.pick(&[10, 60])),
            1 => p.set("k.db1", r.pick(&[100, 400])),
            2 => p.set("k.db2", r.pick(&[100, 400])),
            3 => p.set("k.db5", r.pick(&[3000, 8000, 70_000])),
            _ => {
                p.set("k.db0", 20);
                p.set("k.db1", 100)
            }
        };
    }
    if r.chance(1, 6) {
        p.set("k.db3", 150);
    }
}

pub struct Store;
impl Scenario for Store {
    fn name(&self) -> &'static str {
        "store"
    }
    fn crash_prop(&self) -> &'static str {
        "C15"
    }
    fn gen(&self, r: &mut Rng, prop: &str) -> Plan {
        let mut p = Plan::new("store");
        p.gen_sched(r);
        p.set("k.max_steps", 600_000);
        gen_clock(&mut p, r);
        gen_db_faults(&mut p, r, prop == "C15");
        p.set("procs", r.pick(&[1, 2, 2, 3, 4]));
        p.set("empty", r.chance(1, 2) as i64);
        p.set("nolns", r.chance(1, 2) as i64);
        p.set("mapsize", r.chance(1, 4) as i64);
        if r.chance(if prop == "C10" { 3 } else { 1 }, 4) {
            p.set("k.max_kills", r.pick(&[1, 2, 3]));
            p.set("killden", r.pick(&[10, 40, 150]));
        }
        let span = r.pick(&[4, 12, N as i64]);
        let base = r.range(0, N as i64 - 1);
        for pr in 0..p.get("procs") {
            for t in 0..r.range(1, 3) {
                let a = (pr * 10 + t) as u32;
                let role = r.below(3);
                for _ in 0..r.range(1, 6) {
                    let save = match role {
                        0 => r.chance(8, 10),
                        1 => r.chance(2, 10),
                        _ => r.chance(1, 2),
                    };
                    if save {
                        let mut args = vec![r.range(0, 5)];
                        for _ in 0..r.pick(&[1, 1, 2, 3, 5, 9]) {
                            args.push((base + r.range(0, span - 1)) % N as i64);
                        }
                        p.op(a, "save", &args);
                    } else {
                        match r.below(if prop == "C17" { 3 } else { 7 }) {
                            0 | 1 | 2 => p.op(a, "read", &[r.pick(&[0, 50, 500]), r.range(0, 2)]),
                            3 | 4 => p.op(a, "get", &[(base + r.range(0, span - 1)) % N as i64]),
                            5 => p.op(a, "wait", &[r.pick(&[10, 300])]),
                            _ => p.op(a, "sleep", &[r.pick(&[1, 30, 500])]),
                        }
                    }
                }
            }
        }
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        prep_env(plan);
        let h: Shared<Hist> = Shared::new(Hist::default());
        let nproc = plan.get("procs") as usize;
        let mut cur: BTreeMap<usize, usize> = BTreeMap::new();
        let mut opening: BTreeMap<usize, usize> = BTreeMap::new();
        let mut life = vec![0u32; nproc];
        let mut running: Vec<usize> = vec![];
        for slot in 0..nproc {
            let p = k::new_proc(&format!("p{slot}"), 3000 + slot as u32);
            cur.insert(slot, p);
            opening.insert(slot, open_in(&h, p));
            k::sim().procs[p].kill_den = plan.get("killden") as u64 * 4;
        }
        let deadline = k::now_ns() + 60_000_000_000;
        let end = loop {
            let mut again = false;
            for slot in 0..nproc {
                let p = cur[&slot];
                if !k::sim().procs[p].alive {
                    out.probe("process_restarted");
                    life[slot] += 1;
                    let np = k::new_proc(&format!("p{slot}"), 3000 + slot as u32 + 40 * life[slot]);
                    k::sim().procs[np].kill_den = plan.get("killden") as u64;
                    cur.insert(slot, np);
                    opening.insert(slot, open_in(&h, np));
                    again = true;
                    continue;
                }
                if let Some(t) = opening.get(&slot).copied() {
                    if k::thread_over(t) {
                        opening.remove(&slot);
                        if h.get().envs.contains_key(&p) {
                            k::sim().procs[p].kill_den = plan.get("killden") as u64;
                            for a in plan.actors() {
                                if a as usize / 10 == slot {
                                    let (h2, ops) = (h.clone(), plan.ops_of(a));
                                    running.push(k::spawn_in(p, &format!("w{}", a % 10), move || run_ops(h2, p, ops)));
                                }
                            }
                            again = true;
                        } else {
                            // a fault of the disk may end an open; it must not if there was none
                            let e = h.get().open_err.iter().find(|e| e.0 == p).map(|e| e.1.clone()).unwrap_or_else(|| format!("{:?}", k::sim().panics));
                            let faulty = (0..6).any(|i| k::sim().cfg.db[i] > 0);
                            out.check(faulty, "C14", "open-failed", || format!("process {slot} could not open the instance: {e}"));
                            out.probe("open_failed");
                        }
                    }
                }
            }
            if again {
                continue;
            }
            if opening.is_empty() && running.iter().all(|t| k::thread_over(*t)) {
                break k::Wake::Woken;
            }
            match k::ctl_wait(Some(deadline)) {
                k::Wake::Woken => {}
                w => break w,
            }
        };
        for p in cur.values() {
            k::sim().procs[*p].kill_den = 0;
        }
        if end == k::Wake::StepLimit {
            out.viol("C15", "no-rest", format!("the processes did not finish within {} steps", k::sim().step));
            return;
        }
        if end != k::Wake::Woken {
            let b: Vec<String> = running.iter().chain(opening.values()).filter(|t| !k::thread_over(**t)).map(|t| format!("T{t} {} {:?}", k::sim().threads[*t].name, k::sim().threads[*t].state)).collect();
            let m = format!("threads never finish ({end:?}): {}", b.join(", "));
            out.viol("C15", "blocked", m.clone());
            out.viol("C10", "blocked", m);
            return;
        }
        // the condition is gone: everything works again
        k::sim().faults_off = true;
        k::sim().cfg.db[5] = 0;
        finale(&h, out, plan, true);
    }
}

/// after all faults: a new process opens the instance, saves, and re-reads every committed state
pub fn finale(h: &Shared<Hist>, out: &mut Out, plan: &Plan, judge_saves: bool) {
    let h2 = h.clone();
    let p = k::new_proc("check", 3999);
    let t = open_in(h, p);
    let w = k::ctl_join(&[t], Some(k::now_ns() + 20_000_000_000));
    if !h.get().envs.contains_key(&p) {
        out.viol("C14", "open-failed-after-faults", format!("no process can open the instance any more ({w:?}): {:?} {:?}", h.get().open_err.last(), k::sim().panics));
        panics(out);
        return;
    }
    let logs: Shared<Vec<Log>> = Shared::new(vec![]);
    let l2 = logs.clone();
    let extra = (0..N).find(|i| !h.get().saves.iter().any(|s| s.idxs.contains(i)));
    let t = k::spawn_in(p, "check", move || {
        let env = h2.get().envs[&p].clone();
        // saving works
        if let Some(i) = extra {
            let r = do_save(&h2, &env, p, 0, vec![i]);
            let e = h2.get().saves.last().unwrap().ret.clone().unwrap();
            if r.is_none() {
                h2.get().viol("C15", "save-after-faults", format!("a save on a healthy disk failed: {:?}", e.res));
                h2.get().viol("C12", "save-after-faults", format!("a save on a healthy disk failed: {:?}", e.res));
            }
        }
        k::quiet(|| {
            for i in 0..lmdb_sys::commits(DIR) {
                lmdb_sys::pin(DIR, Some(i));
                // the first commits create the tables
                if lmdb_sys::history(DIR)[i].tables() < 3 {
                    l2.get().push(vec![]);
                    continue;
                }
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| env.new_read_txn().map(|t| views(&t, true)))) {
                    Ok(Ok((l, bad))) => {
                        for b in bad {
                            h2.get().viol(b.0, &b.1, format!("after commit {i}: {}", b.2));
                        }
                        l2.get().push(l);
                    }
                    _ => l2.get().push(vec![]),
                }
            }
            lmdb_sys::pin(DIR, None);
            if let Err(e) = env.linkspace_info() {
                h2.get().viol("C13", "self-check", format!("{e:#}"));
            }
        });
    });
    let w = k::ctl_join(&[t], Some(k::now_ns() + 20_000_000_000));
    if w != k::Wake::Woken {
        out.viol("C15", "blocked-after-faults", format!("a save or read on a healthy disk does not return: {w:?}"));
        return;
    }
    let logs = logs.get();
    let commits = lmdb_sys::history(DIR);
    let hh = h.get();
    out.probe_n("commits", commits.len() as u64);
    let boot = boot_hashes(plan.get("nolns") == 1, plan.get("empty") == 1).0;
    let all_boot = boot_hashes(false, false).0;
    let mut attributed: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut owners: BTreeMap<usize, Option<usize>> = BTreeMap::new();
    for (i, c) in commits.iter().enumerate() {
        let prev: &[(u64, H32)] = if i == 0 { &[] } else { &logs[i - 1] };
        let now = &logs[i];
        if !now.starts_with(prev) {
            let lost: Vec<_> = prev.iter().filter(|x| !now.contains(x)).copied().collect();
            if !lost.is_empty() {
                out.viol("C10", "lost", format!("commit {i} removed or renumbered {}", show(&lost)));
            }
            let newer: Vec<_> = now.iter().filter(|x| !prev.contains(x)).copied().collect();
            if !newer.is_empty() {
                out.viol("C12", "stamp-not-newer", format!("commit {i} added {} to a log ending at {}", show(&newer), show(&prev[prev.len().saturating_sub(1)..])));
            }
        }
        let delta: Vec<(u64, H32)> = now.iter().filter(|x| !prev.contains(x)).copied().collect();
        if delta.is_empty() {
            continue;
        }
        let owner = hh.saves.iter().position(|s| s.tid == c.tid && s.inv < c.seq && s.ret.as_ref().map(|r| r.seq > c.seq).unwrap_or(true));
        owners.insert(i, owner);
        match owner {
            Some(si) => {
                attributed.entry(si).or_default().push(i);
                let s = &hh.saves[si];
                let have: BTreeSet<H32> = prev.iter().map(|x| x.1).collect();
                let mut want: Vec<H32> = vec![];
                for x in &s.idxs {
                    let hsh = pool().pkts[*x].hash_ref().0;
                    if !have.contains(&hsh) && !want.contains(&hsh) {
                        want.push(hsh);
                    }
                }
                let got: Vec<H32> = delta.iter().map(|d| d.1).collect();
                let (a, b): (BTreeSet<_>, BTreeSet<_>) = (got.iter().collect(), want.iter().collect());
                if a != b {
                    out.viol("C10", "partial-batch", format!("commit {i} of a save of {:?} made {} visible instead of {}", s.idxs, got.iter().map(hx).collect::<Vec<_>>().join(" "), want.iter().map(hx).collect::<Vec<_>>().join(" ")));
                    if matches!(&s.ret, Some(r) if r.res.is_err()) {
                        out.viol("C15", "partial-batch", format!("a failed save of {:?} left {} behind", s.idxs, got.iter().map(hx).collect::<Vec<_>>().join(" ")));
                    }
                } else if got != want {
                    out.viol("C12", "batch-order", format!("a batch of {:?} was logged as {}", s.idxs, got.iter().map(hx).collect::<Vec<_>>().join(" ")));
                }
                // stamps are the clock unless the log is ahead of it
                let plain = k::counter("clock_jump_back") + k::counter("clock_jump_forward") == 0;
                let last = prev.last().map(|x| x.0).unwrap_or(0);
                if plain && delta[0].0 != last + 1 && delta[0].0 < (s.rt0 / 1000) as u64 {
                    out.viol("C12", "stamp-in-the-past", format!("a save that began at {} got the position {}", s.rt0 / 1000, delta[0].0));
                }
                out.probe("batch_committed");
                if delta.len() > 1 {
                    out.probe("multi_packet_batch");
                }
                if delta[0].0 == last + 1 {
                    out.probe("clock_behind_log");
                }
            }
            None => {
                let opener = hh.openers.iter().any(|o| o.0 == c.tid);
                if !opener || !delta.iter().all(|d| all_boot.contains(&d.1)) {
                    out.viol("C10", "commit-from-nowhere", format!("commit {i} by T{} made {} visible though that thread was not saving them", c.tid, show(&delta)));
                }
            }
        }
    }
    let visible_at = |seq: u64| -> &[(u64, H32)] {
        match commits.iter().rposition(|c| c.seq < seq) {
            Some(i) => &logs[i],
            None => &[],
        }
    };
    for (si, s) in hh.saves.iter().enumerate().filter(|_| judge_saves) {
        let cs = attributed.get(&si).cloned().unwrap_or_default();
        if cs.len() > 1 {
            out.viol("C10", "split-batch", format!("the save of {:?} became visible in {} steps", s.idxs, cs.len()));
        }
        let Some(r) = &s.ret else {
            out.probe(if cs.is_empty() { "killed_before_commit" } else { "killed_after_commit" });
            continue;
        };
        let hashes: Vec<H32> = s.idxs.iter().map(|i| pool().pkts[*i].hash_ref().0).collect();
        match &r.res {
            Err(e) => {
                out.probe("save_failed");
                if !cs.is_empty() {
                    out.viol("C15", "failed-but-visible", format!("the save of {:?} reported {e} but its packets are in the database", s.idxs));
                    out.viol("C10", "failed-but-visible", format!("the save of {:?} reported {e} but its packets are in the database", s.idxs));
                }
                if r.faults == s.faults0 {
                    for p in ["C10", "C12", "C15"] {
                        out.viol(p, "save-failed", format!("the save of {:?} failed although nothing was wrong: {e}; log {}", s.idxs, show(visible_at(r.seq))));
                    }
                }
            }
            Ok((a, b)) => {
                let vis = visible_at(r.seq);
                let have: BTreeMap<H32, u64> = vis.iter().map(|x| (x.1, x.0)).collect();
                for (x, hsh) in s.idxs.iter().zip(&hashes) {
                    if !have.contains_key(hsh) {
                        out.viol("C10", "returned-but-missing", format!("the save of {:?} returned success but #{x} is not in the database", s.idxs));
                    }
                }
                let delta: Vec<(u64, H32)> = match cs.first() {
                    Some(0) => logs[0].clone(),
                    Some(i) => logs[*i].iter().filter(|x| !logs[*i - 1].contains(x)).copied().collect(),
                    None => vec![],
                };
                let seqok = delta.windows(2).all(|w| w[0].0 < w[1].0);
                out.check(seqok, "C12", "batch-stamps", || format!("positions within one batch: {}", show(&delta)));
                if s.mode != 2 && s.mode != 3 {
                    let want = if delta.is_empty() { 0 } else { delta.len() as u64 };
                    if b.wrapping_sub(*a) != want || (want > 0 && (delta[0].0 != *a || delta.last().unwrap().0 + 1 != *b)) {
                        out.viol("C11", "range-returned", format!("the save of {:?} reported positions {a}..{b} but {} became visible", s.idxs, show(&delta)));
                    }
                }
                if !r.states.is_empty() {
                    let mut left: BTreeSet<H32> = delta.iter().map(|x| x.1).collect();
                    for ((x, hsh), st) in s.idxs.iter().zip(&hashes).zip(&r.states) {
                        let want = if left.remove(hsh) { SaveState::Written } else { SaveState::Exists };
                        if *st != want {
                            out.viol("C11", "save-state", format!("a save of {:?} reported #{x} as {st} instead of {want}", s.idxs));
                        }
                    }
                }
                let sent: Vec<(u64, u64)> = {
                    let n = &k::sim().net;
                    n.sent.iter().zip(&n.sent_by).filter(|(a, b)| a.0 == s.proc_ && b.0 == s.tid && b.1 > s.inv && b.1 < r.seq && a.2.len() >= 20).map(|(a, b)| (u64::from_ne_bytes(a.2[a.2.len() - 8..].try_into().unwrap()), b.1)).collect()
                };
                if delta.is_empty() {
                    out.probe("nothing_new");
                    out.check(sent.is_empty(), "C11", "notified-for-nothing", || format!("a save of {:?} that wrote nothing announced {sent:?}", s.idxs));
                } else {
                    let last = delta.last().unwrap().0;
                    out.check(r.val >= last, "C11", "not-notified", || format!("a save wrote up to {last} but the process's notification value was {} when it returned", r.val));
                    if k::sim().cfg.net_senderr_pm == 0 {
                        let ok = sent.iter().any(|x| x.0 == last) || (sent.is_empty() && r.val > last);
                        out.check(ok, "C11", "wrong-notification", || format!("a save wrote up to {last} but announced {sent:?}"));
                    }
                }
            }
        }
        if matches!(r.res, Err(_)) {
            let n = &k::sim().net;
            let sent = n.sent.iter().zip(&n.sent_by).filter(|(a, b)| a.0 == s.proc_ && b.0 == s.tid && b.1 > s.inv && b.1 < r.seq).count();
            out.check(sent == 0, "C15", "notified-failure", || format!("a failed save of {:?} sent {sent} notifications", s.idxs));
        }
    }
    // every announced value is the newest position of a commit that had already happened
    {
        let n = &k::sim().net;
        for (a, b) in n.sent.iter().zip(&n.sent_by) {
            if a.2.len() < 20 || plan.get("shared") == 1 {
                continue;
            }
            let v = u64::from_ne_bytes(a.2[a.2.len() - 8..].try_into().unwrap());
            let ok = commits.iter().enumerate().any(|(i, c)| c.seq < b.1 && logs[i].last().map(|x| x.0) == Some(v));
            out.check(ok, "C11", "announced-unknown-position", || format!("process {} announced {v}, which is not the end of the log after any commit so far", a.0));
        }
    }
    for s in &hh.snaps {
        let lo = s.c0;
        let hi = s.c1;
        let empty: Log = vec![];
        let ok = (lo..=hi).any(|i| if i == 0 { &empty } else { &logs[i - 1] } == &s.log);
        out.check(ok, "C17", "not-a-snapshot", || {
            format!("a {} that began after commit {lo} and before commit {} shows {} which is none of the states in between; the nearest is {}", s.what, hi + 1, show(&s.log), show(if hi == 0 { &empty } else { &logs[hi - 1] }))
        });
        if !ok && hi > 0 && s.log.len() < logs[lo.max(1) - 1].len() {
            out.viol("C10", "lost", format!("a {} does not show everything committed before it began", s.what));
        }
        out.probe("snapshot_read");
    }
    // an opened instance has its public packets
    let last: BTreeSet<H32> = logs.last().map(|l| l.iter().map(|x| x.1).collect()).unwrap_or_default();
    for b in &boot {
        out.check(last.contains(b), "C14", "bootstrap-missing", || format!("the instance was opened but does not contain the bootstrap packet {}", hx(b)));
    }
    for v in hh.viols.drain(..) {
        out.viol(v.0, &v.1, v.2);
    }
    panics(out);
}
pub fn panics(out: &mut Out) {
    for p in k::sim().panics.iter() {
        if p.0 != 0 {
            let opening = k::sim().threads[p.1].name.contains("open");
            for pr in if opening { &["C14"][..] } else { &["C15", "C10"] } {
                out.viol(pr, "panic", format!("a thread panicked: {} {}", p.2, p.3));
            }
        }
    }
}
