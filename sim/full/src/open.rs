//! Processes and threads that open one new or existing instance at the same time, are killed while
//! doing so, meet short writes and full disks, close it and open it again.
use crate::pool::*;
use crate::store::*;
use linkspace_common::static_env::get_env;
use linkspace_core::prelude::lmdb::BTreeEnv;
use linkspace_core::prelude::*;
use lksim_engine::*;
use lksim_kernel as k;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;

#[derive(Default)]
struct St {
    /// identity file at the return of an open
    ids: Vec<(usize, Option<Vec<u8>>)>,
    got: Vec<(i64, BTreeEnv)>,
    opened: u64,
}

fn faults() -> u64 {
    ["db_map_full", "db_commit_eio", "db_commit_enospc", "db_out_of_space", "db_readers_full", "db_open_error", "fs_eintr", "fs_eio", "fs_enospc", "fs_short_io"].iter().map(|c| k::counter(c)).sum()
}
fn opened(h: &Shared<Hist>, st: &Shared<St>, p: usize) {
    let id = k::fs::h_read(&format!("{DIR}/id"));
    if let Some(Some(first)) = st.get().ids.iter().map(|x| x.1.clone()).find(|x| x.is_some()) {
        if id.as_ref() != Some(&first) {
            h.get().viol("C14", "identity", format!("process {p} opened an instance with identity {id:?}, others use {first:?}"));
        }
    }
    st.get().ids.push((p, id));
    st.get().opened += 1;
}
fn read_all(h: &Shared<Hist>, env: &BTreeEnv, p: usize) {
    let c0 = lmdb_sys::commits(DIR);
    let Ok(t) = env.new_read_txn() else { return };
    let c1 = lmdb_sys::commits(DIR);
    let (log, bad) = views(&t, true);
    for b in bad {
        h.get().viol("C14", &b.1, format!("in process {p} after an open: {}", b.2));
    }
    let saved: Vec<usize> = h.get().saves.iter().filter(|s| matches!(&s.ret, Some(r) if r.res.is_ok() && r.seq < lmdb_sys::seq())).flat_map(|s| s.idxs.clone()).collect();
    if lmdb_sys::commits(DIR) == c0 {
        for i in saved {
            let hh = pool().pkts[i].hash().0;
            if !log.iter().any(|l| l.1 == hh) {
                h.get().viol("C14", "saved-but-gone", format!("process {p} opened the instance but packet #{i}, whose save had returned, is not in it"));
            }
        }
    }
    h.get().snaps.push(Snap { c0, c1, log, what: "read" });
}

fn life(h: Shared<Hist>, st: Shared<St>, p: usize, ops: Vec<Op>) {
    h.get().openers.push((k::cur(), p));
    let mut env: Option<BTreeEnv> = None;
    for o in ops {
        match o.code.as_str() {
            "open" => {
                if env.is_some() {
                    continue;
                }
                for _ in 0..3 {
                    let f0 = faults();
                    match BTreeEnv::open(PathBuf::from(DIR), true) {
                        Ok(e) => {
                            opened(&h, &st, p);
                            env = Some(e);
                            break;
                        }
                        Err(e) => {
                            k::count("open_failed");
                            if faults() == f0 {
                                h.get().viol("C14", "open-failed", format!("process {p} could not open the instance though nothing was wrong: {e:?}"));
                            }
                        }
                    }
                }
                if let Some(e) = &env {
                    read_all(&h, e, p);
                }
            }
            "close" => env = None,
            "save" => {
                if let Some(e) = &env {
                    do_save(&h, e, p, arg(&o, 0), idxs(&o));
                }
            }
            "read" => {
                if let Some(e) = &env {
                    read_all(&h, e, p);
                }
            }
            _ => std::thread::sleep(Duration::from_micros(arg(&o, 0) as u64)),
        }
    }
}
const DIRS: [&str; 5] = ["/sim/inst", "/sim/inst/.", "/sim/x/../inst", "/sim/inst2", "/sim//inst2"];
fn shared_life(h: Shared<Hist>, st: Shared<St>, p: usize, ops: Vec<Op>) {
    h.get().openers.push((k::cur(), p));
    let mut env: Option<(i64, BTreeEnv)> = None;
    for o in ops {
        match o.code.as_str() {
            "open" => {
                let d = arg(&o, 0) % DIRS.len() as i64;
                let f0 = faults();
                match get_env(Path::new(DIRS[d as usize]), true) {
                    Ok(e) => {
                        let d = if d < 3 { 0 } else { 3 };
                        if d == 0 {
                            opened(&h, &st, p);
                        }
                        for (d2, e2) in &st.get().got {
                            if Arc::ptr_eq(&e.0, &e2.0) != (d == *d2) {
                                h.get().viol("C14", "env-shared", format!("two opens of {} and {} in one process share one environment: {}", DIRS[d as usize], DIRS[*d2 as usize], d != *d2));
                            }
                        }
                        st.get().got.push((d, e.clone()));
                        if d == 0 {
                            read_all(&h, &e, p);
                        }
                        env = Some((d, e));
                    }
                    Err(e) => {
                        k::count("open_failed");
                        if faults() == f0 {
                            h.get().viol("C14", "open-failed", format!("a thread could not open the instance though nothing was wrong: {e:?}"));
                        }
                    }
                }
            }
            "save" => match &env {
                Some((0, e)) => {
                    do_save(&h, e, p, arg(&o, 0), idxs(&o));
                }
                Some((_, e)) => {
                    let i = arg(&o, 1) as usize % N;
                    let f0 = faults();
                    let r = e.save_dyn_one(&pool().pkts[i].thin_netpkt());
                    if r.is_err() && faults() == f0 {
                        h.get().viol("C14", "save-failed", format!("saving in a second instance failed: {r:?}"));
                    }
                    if r.is_ok() {
                        let ok = e.new_read_txn().ok().map(|t| t.read(&pool().pkts[i].hash()).unwrap().is_some());
                        if ok == Some(false) {
                            h.get().viol("C14", "saved-but-gone", format!("packet #{i} was saved in a second instance but is not in it"));
                        }
                    }
                }
                None => {}
            },
            "read" => {
                if let Some((0, e)) = &env {
                    read_all(&h, e, p)
                }
            }
            _ => std::thread::sleep(Duration::from_micros(arg(&o, 0) as u64)),
        }
    }
}

pub struct OpenScn;
impl Scenario for OpenScn {
    fn name(&self) -> &'static str {
        "open"
    }
    fn crash_prop(&self) -> &'static str {
        "C14"
    }
    fn gen(&self, r: &mut Rng, _prop: &str) -> Plan {
        let mut p = Plan::new("open");
        p.gen_sched(r);
        p.set("k.max_steps", 400_000);
        gen_clock(&mut p, r);
        p.set("shared", r.chance(1, 3) as i64);
        p.set("empty", r.chance(1, 4) as i64);
        p.set("nolns", r.chance(1, 4) as i64);
        p.set("mapsize", r.chance(1, 4) as i64);
        if r.chance(1, 3) {
            match r.below(5) {
                0 => p.set("k.fs_short_pm", r.pick(&[100, 500])),
                1 => p.set("k.fs_enospc_pm", r.pick(&[30, 200])),
                2 => p.set("k.fs_eio_pm", r.pick(&[30, 200])),
                3 => p.set("k.fs_eintr_pm", 100),
                _ => {
                    gen_db_faults(&mut p, r, true);
                    p.set("k.db4", r.pick(&[0, 100]))
                }
            };
        }
        if r.chance(1, 2) {
            p.set("k.max_kills", r.pick(&[1, 2, 4]));
            p.set("killden", r.pick(&[5, 20, 60, 150]));
        }
        let slots = if p.get("shared") == 1 { r.range(2, 4) } else { r.range(1, 4) };
        for a in 0..slots as u32 {
            for _ in 0..r.range(1, 3) {
                if r.chance(1, 4) {
                    p.op(a, "sleep", &[r.pick(&[1, 20, 300])]);
                }
                p.op(a, "open", &[r.pick(&[0, 0, 0, 1, 2, 3, 3, 4])]);
                for _ in 0..r.range(0, 2) {
                    let mut args = vec![r.range(0, 5)];
                    for _ in 0..r.range(1, 3) {
                        args.push(r.range(0, N as i64 - 1));
                    }
                    p.op(a, "save", &args);
                }
                if r.chance(1, 2) {
                    p.op(a, "read", &[]);
                }
                if r.chance(1, 2) {
                    p.op(a, "close", &[]);
                }
            }
        }
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        prep_env(plan);
        k::fs::h_mkdirs("/sim/x");
        let h: Shared<Hist> = Shared::new(Hist::default());
        let st: Shared<St> = Shared::new(St::default());
        let kd = plan.get("killden") as u64;
        let shared = plan.get("shared") == 1;
        let mut tids: Vec<usize> = vec![];
        let mut dead: BTreeMap<u32, u32> = BTreeMap::new();
        let mut proc_of: BTreeMap<u32, usize> = BTreeMap::new();
        if shared {
            let p = k::new_proc("p", 3000);
            for a in plan.actors() {
                let (h2, s2, ops) = (h.clone(), st.clone(), plan.ops_of(a));
                tids.push(k::spawn_in(p, &format!("open{a}"), move || shared_life(h2, s2, p, ops)));
            }
            k::sim().procs[p].kill_den = kd * 2;
        } else {
            for a in plan.actors() {
                proc_of.insert(a, usize::MAX);
            }
        }
        let deadline = k::now_ns() + 120_000_000_000;
        let end = loop {
            let mut again = false;
            for (a, p) in proc_of.iter_mut() {
                if *p == usize::MAX || !k::sim().procs[*p].alive {
                    let d = dead.entry(*a).or_default();
                    if *d > 0 {
                        out.probe("process_restarted");
                    }
                    *d += 1;
                    let np = k::new_proc(&format!("p{a}"), 3000 + *a + 40 * *d);
                    k::sim().procs[np].kill_den = kd;
                    let (h2, s2, ops) = (h.clone(), st.clone(), plan.ops_of(*a));
                    tids.push(k::spawn_in(np, &format!("open{a}"), move || life(h2, s2, np, ops)));
                    *p = np;
                    again = true;
                }
            }
            if again {
                continue;
            }
            if tids.iter().all(|t| k::thread_over(*t)) && proc_of.values().all(|p| k::sim().procs[*p].alive) {
                break k::Wake::Woken;
            }
            match k::ctl_wait(Some(deadline)) {
                k::Wake::Woken => {}
                w => break w,
            }
        };
        for p in 0..k::sim().procs.len() {
            k::sim().procs[p].kill_den = 0;
        }
        if end != k::Wake::Woken {
            let b: Vec<String> = tids.iter().filter(|t| !k::thread_over(**t)).map(|t| format!("T{t} {} {:?}", k::sim().threads[*t].name, k::sim().threads[*t].state)).collect();
            out.viol("C14", "never-opens", format!("an open never finishes ({end:?}): {}", b.join(", ")));
            return;
        }
        out.probe_n("instance_opened", st.get().opened);
        for p in k::sim().panics.iter().filter(|p| p.0 != 0) {
            out.probe("panicked_under_fault");
            out.check(faults() > 0, "C14", "panic", || format!("an open panicked though nothing was wrong: {} {}", p.2, p.3));
        }
        k::sim().panics.clear();
        k::sim().faults_off = true;
        k::sim().cfg.db[5] = 0;
        let n = out.viols.len();
        finale(&h, out, plan, false);
        // what an opening process loses or damages is the business of opening
        for v in out.viols[n..].iter_mut() {
            if v.prop == "C10" || v.prop == "C13" {
                v.prop = "C14".into();
            }
        }
        let id = k::fs::h_read(&format!("{DIR}/id"));
        if let Some(Some(first)) = st.get().ids.iter().map(|x| x.1.clone()).find(|x| x.is_some()) {
            out.check(id.as_ref() == Some(&first), "C14", "identity", || format!("the identity of the instance changed from {first:?} to {id:?}"));
        }
    }
}
