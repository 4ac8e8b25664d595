//! Run engine: plans, forked runs, batches over seeds, minimisation, replay files, evidence.
use lksim_kernel as k;
pub use lksim_kernel::{Rng, Shared};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub actor: u32,
    pub code: String,
    pub args: Vec<i64>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub scenario: String,
    /// scenario parameters and kernel parameters (prefix `k.`)
    pub cfg: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
}
impl Plan {
    pub fn new(s: &str) -> Plan {
        Plan { scenario: s.into(), ..Default::default() }
    }
    pub fn set(&mut self, k: &str, v: i64) -> &mut Self {
        self.cfg.insert(k.into(), v);
        self
    }
    pub fn get(&self, k: &str) -> i64 {
        self.cfg.get(k).copied().unwrap_or(0)
    }
    pub fn op(&mut self, actor: u32, code: &str, args: &[i64]) {
        self.ops.push(Op { actor, code: code.into(), args: args.to_vec() });
    }
    pub fn ops_of(&self, actor: u32) -> Vec<Op> {
        self.ops.iter().filter(|o| o.actor == actor).cloned().collect()
    }
    pub fn actors(&self) -> BTreeSet<u32> {
        self.ops.iter().map(|o| o.actor).collect()
    }
    pub fn kernel_cfg(&self) -> k::Cfg {
        let mut c = k::Cfg::default();
        macro_rules! f { ($($n:ident),*) => { $( if let Some(v) = self.cfg.get(concat!("k.", stringify!($n))) { c.$n = *v as u64; } )* } }
        f!(
            switch_den, pct, step_ns, tick_ns, jump_den, jump_kinds, stall_den, stall_max_us, timer_den, spur_pm, net_drop_pm,
            net_dup_pm, net_delay_pm, net_delay_max_us, net_senderr_pm, net_recv_eintr_pm, net_base_us, net_rcvbuf, fs_short_pm,
            fs_eintr_pm, fs_eio_pm, fs_enospc_pm, rand_fail_pm, rand_short_pm, max_kills, max_steps
        );
        for i in 0..8 {
            if let Some(v) = self.cfg.get(&format!("k.db{i}")) {
                c.db[i] = *v as u64;
            }
        }
        c
    }
    /// scheduler part of the swarm configuration, shared by all scenarios
    pub fn gen_sched(&mut self, r: &mut Rng) {
        match r.below(6) {
            0 => self.set("k.switch_den", 3),
            1 => self.set("k.switch_den", 8),
            2 => self.set("k.switch_den", 25),
            3 => self.set("k.switch_den", 80),
            4 => self.set("k.pct", 40),
            _ => self.set("k.pct", 250),
        };
        if r.chance(1, 3) {
            self.set("k.stall_den", r.pick(&[300, 1500]));
            self.set("k.stall_max_us", r.pick(&[50, 2000, 100_000]));
        }
        if r.chance(1, 3) {
            self.set("k.timer_den", r.pick(&[200, 1000]));
        }
        if r.chance(1, 4) {
            self.set("k.spur_pm", r.pick(&[20, 200]));
        }
        self.set("k.step_ns", r.pick(&[0, 20, 20, 300]));
        self.set("k.tick_ns", r.pick(&[0, 1, 100, 1500]));
        if self.get("k.step_ns") == 0 && self.get("k.tick_ns") == 0 {
            self.set("k.tick_ns", 1);
        }
    }
    fn text(&self, o: &mut String) {
        let _ = writeln!(o, "scenario {}", self.scenario);
        for (k, v) in &self.cfg {
            let _ = writeln!(o, "cfg {k} {v}");
        }
        for p in &self.ops {
            let a: Vec<String> = p.args.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(o, "op {} {} {}", p.actor, p.code, a.join(" "));
        }
    }
}

#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub struct Viol {
    pub prop: String,
    pub class: String,
    pub msg: String,
}
#[derive(Default, Clone, Debug)]
pub struct Out {
    pub viols: Vec<Viol>,
    pub probes: BTreeMap<String, u64>,
    pub notes: Vec<String>,
}
impl Out {
    pub fn viol(&mut self, prop: &str, class: &str, msg: impl Into<String>) {
        if self.viols.len() < 20 {
            let msg: String = msg.into();
            self.viols.push(Viol { prop: prop.into(), class: class.into(), msg: msg.replace('\n', " / ") });
        }
    }
    pub fn check(&mut self, ok: bool, prop: &str, class: &str, msg: impl FnOnce() -> String) {
        if !ok {
            self.viol(prop, class, msg())
        }
    }
    pub fn probe(&mut self, p: &str) {
        *self.probes.entry(p.into()).or_insert(0) += 1;
    }
    pub fn probe_n(&mut self, p: &str, n: u64) {
        *self.probes.entry(p.into()).or_insert(0) += n;
    }
}

pub trait Scenario {
    fn name(&self) -> &'static str;
    /// build the plan of one run; `prop` focuses the mix
    fn gen(&self, r: &mut Rng, prop: &str) -> Plan;
    /// runs on the controller thread of a fresh simulation
    fn run(&self, plan: &Plan, out: &mut Out);
    /// which property a crash (signal), an abort or a real CPU hang of the run counts against
    fn crash_prop(&self) -> &'static str;
    fn components(&self) -> &'static str {
        ""
    }
}
pub struct PropSpec {
    pub id: &'static str,
    /// scenarios with weight
    pub scenarios: &'static [(&'static str, u32)],
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub level_note: &'static str,
    pub rule: &'static str,
}

#[derive(Clone, Debug, Default)]
pub struct RunRes {
    pub out: Out,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub threads: u64,
    pub kills: u64,
    pub counters: BTreeMap<String, u64>,
    pub choices: Vec<(u8, u64, u64)>,
    pub trace: Vec<String>,
    pub panics: Vec<String>,
    pub died: Option<String>,
}
pub enum Src<'a> {
    Seed(u64),
    Replay(&'a [(u8, u64, u64)]),
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ")
}
fn child(sc: &dyn Scenario, plan: &Plan, src: Src, trace: bool, fd: i32) -> ! {
    unsafe {
        // CPU-time bound: a run that never reaches a scheduling point again
        let l = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    let (ch, seed) = match src {
        Src::Seed(s) => (k::Choices::generate(s), s),
        Src::Replay(l) => (k::Choices::replay(l), 0),
    };
    // the stream behind getrandom is a function of the plan, not of the choices
    let mut t = String::new();
    plan.text(&mut t);
    let _ = seed;
    let h = t.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    std::panic::set_hook(Box::new(|i| {
        if k::in_sim() {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            let s = k::sim();
            let t = k::cur();
            s.panics.push((s.threads[t].proc_, t, loc.clone(), msg.clone()));
            k::ev(|| format!("PANIC {loc} {msg}"));
        }
        if std::env::var_os("LKSIM_DEBUG").is_some() {
            eprintln!("{i}");
        }
    }));
    k::start(plan.kernel_cfg(), ch, h, trace);
    let mut out = Out::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sc.run(plan, &mut out)));
    let s = k::sim();
    k::leave();
    let mut o = String::new();
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let at = s.panics.last().map(|p| p.2.clone()).unwrap_or_default();
        let _ = writeln!(o, "E\tharness panic {} {}", at, esc(&m));
    }
    for v in &out.viols {
        let _ = writeln!(o, "V\t{}\t{}\t{}", v.prop, v.class, esc(&v.msg));
    }
    for (p, n) in &out.probes {
        let _ = writeln!(o, "P\t{p}\t{n}");
    }
    for n in &out.notes {
        let _ = writeln!(o, "N\t{}", esc(n));
    }
    for (p, n) in &s.counters {
        let _ = writeln!(o, "C\t{p}\t{n}");
    }
    for (p, t, l, m) in &s.panics {
        let _ = writeln!(o, "X\tproc {} T{} {} {}", p, t, l, esc(m));
    }
    let _ = writeln!(o, "S\t{}\t{}\t{}\t{}\t{}\t{}", s.hash, s.step, s.switches, s.now - 1_000_000_000, s.threads.len(), s.kills);
    for t in &s.threads {
        let _ = writeln!(o, "N\tthread {} proc {} {:?} points {}", t.name, t.proc_, t.state, t.points);
    }
    let viol = !out.viols.is_empty();
    if viol || trace {
        for (a, b, c) in &s.ch.log {
            let _ = writeln!(o, "H\t{a}\t{b}\t{c}");
        }
    }
    if trace {
        for l in &s.trace {
            let _ = writeln!(o, "T\t{}", esc(l));
        }
    }
    let _ = writeln!(o, "Z");
    let mut b = o.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
    k::raw::exit_now(0)
}

/// one run in a forked process
pub fn run_one(sc: &dyn Scenario, plan: &Plan, src: Src, trace: bool) -> RunRes {
    let mut p = [0i32; 2];
    unsafe {
        assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            child(sc, plan, src, trace, p[1]);
        }
        libc::close(p[1]);
        let mut f = std::fs::File::from_raw_fd(p[0]);
        let mut s = Vec::new();
        let _ = f.read_to_end(&mut s);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        parse_res(sc, &String::from_utf8_lossy(&s), st)
    }
}
fn parse_res(sc: &dyn Scenario, s: &str, st: i32) -> RunRes {
    let mut r = RunRes::default();
    let mut done = false;
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        match f[0] {
            "V" if f.len() >= 4 => r.out.viols.push(Viol { prop: f[1].into(), class: f[2].into(), msg: f[3].into() }),
            "P" => {
                r.out.probes.insert(f[1].into(), n(2));
            }
            "N" => r.out.notes.push(f[1].into()),
            "C" => {
                r.counters.insert(f[1].into(), n(2));
            }
            "X" => r.panics.push(f[1].into()),
            "S" => {
                r.hash = n(1);
                r.steps = n(2);
                r.switches = n(3);
                r.sim_ns = n(4);
                r.threads = n(5);
                r.kills = n(6);
            }
            "H" => r.choices.push((n(1) as u8, n(2), n(3))),
            "T" => r.trace.push(f[1..].join("\t")),
            "E" => r.died = Some(f[1].to_string()),
            "Z" => done = true,
            _ => {}
        }
    }
    if !done {
        let why = if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGKILL => "cpu-hang".to_string(),
                libc::SIGABRT => "abort".to_string(),
                libc::SIGSEGV | libc::SIGBUS => "memory-fault".to_string(),
                s => format!("signal-{s}"),
            }
        } else {
            format!("exit-{}", libc::WEXITSTATUS(st))
        };
        if why.starts_with("exit-") {
            r.died = Some(why);
        } else {
            r.out.viols.push(Viol { prop: sc.crash_prop().into(), class: why.clone(), msg: format!("the run ended with {why}") });
        }
    }
    r
}

// ---------------------------------------------------------------------------- known findings
pub struct Known {
    pub prop: String,
    pub class: String,
    pub contains: String,
    pub text: String,
}
pub fn load_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            // finding: property=<id> class=<class> contains=<text>; <what fails>
            if let Some(r) = l.strip_prefix("finding: ") {
                let (head, text) = r.split_once(';').unwrap_or((r, ""));
                let get = |k: &str| {
                    head.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").replace('~', " ")
                };
                v.push(Known { prop: get("property="), class: get("class="), contains: get("contains="), text: text.trim().into() });
            }
        }
    }
    v
}
fn is_known(kn: &[Known], v: &Viol) -> bool {
    kn.iter().any(|k| k.prop == v.prop && k.class == v.class && (k.contains.is_empty() || v.msg.contains(&k.contains)))
}

// ---------------------------------------------------------------------------- batch
#[derive(Default)]
struct Agg {
    runs: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    kills: u64,
    nontrivial: u64,
    counters: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    per_scenario: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    fails: Vec<(u64, Viol)>,
    other: BTreeMap<String, u64>,
    errors: Vec<String>,
    known_hits: u64,
    det_pairs: u64,
    det_bad: Vec<u64>,
    max_threads: u64,
}

pub struct Suite {
    pub scenarios: Vec<Box<dyn Scenario>>,
    pub props: Vec<PropSpec>,
    pub components: &'static str,
}

fn mixseed(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b);
    r.next()
}
fn hstr(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

impl Suite {
    fn sc(&self, n: &str) -> &dyn Scenario {
        self.scenarios.iter().find(|s| s.name() == n).unwrap_or_else(|| panic!("no scenario {n}")).as_ref()
    }
    fn prop(&self, id: &str) -> &PropSpec {
        self.props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        })
    }
    /// run `i` of a batch: the scenario, plan and choice seed
    fn case(&self, p: &PropSpec, vseed: u64, i: u64, only: Option<&str>) -> (Plan, u64) {
        let seed = mixseed(vseed ^ hstr(p.id), i);
        let mut r = Rng::new(seed);
        let tot: u32 = p.scenarios.iter().map(|s| s.1).sum();
        let mut x = r.below(tot as u64) as u32;
        let mut name = p.scenarios[0].0;
        for (n, w) in p.scenarios {
            if x < *w {
                name = n;
                break;
            }
            x -= w;
        }
        if let Some(o) = only {
            name = p.scenarios.iter().find(|s| s.0 == o).map(|s| s.0).unwrap_or(name);
        }
        let plan = self.sc(name).gen(&mut r, p.id);
        (plan, r.next())
    }
    fn batch(&self, p: &PropSpec, vseed: u64, from: u64, runs: u64, workers: u64, budget_s: f64, kn: &[Known], only: Option<&str>) -> Agg {
        let t0 = std::time::Instant::now();
        let mut fds = vec![];
        for w in 0..workers {
            let mut pp = [0i32; 2];
            unsafe {
                assert!(libc::pipe2(pp.as_mut_ptr(), 0) == 0);
                let pid = libc::fork();
                if pid == 0 {
                    libc::close(pp[0]);
                    for (_, f) in &fds {
                        libc::close(*f);
                    }
                    pin(w);
                    let a = self.worker(p, vseed, from, runs, w, workers, t0, budget_s, kn, only);
                    let s = ser(&a);
                    let mut f = std::fs::File::from_raw_fd(pp[1]);
                    let _ = f.write_all(s.as_bytes());
                    drop(f);
                    k::raw::exit_now(0);
                }
                libc::close(pp[1]);
                fds.push((pid, pp[0]));
            }
        }
        let mut agg = Agg::default();
        for (pid, fd) in fds {
            let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
            let mut s = Vec::new();
            let _ = f.read_to_end(&mut s);
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            if !de(&String::from_utf8_lossy(&s), &mut agg) {
                agg.errors.push(format!("worker died, status {st}"));
            }
        }
        agg.fails.sort();
        agg
    }
    #[allow(clippy::too_many_arguments)]
    fn worker(&self, p: &PropSpec, vseed: u64, from: u64, runs: u64, w: u64, n: u64, t0: std::time::Instant, budget: f64, kn: &[Known], only: Option<&str>) -> Agg {
        let mut a = Agg::default();
        let mut i = from + w;
        while i < from + runs && t0.elapsed().as_secs_f64() < budget {
            let (plan, cs) = self.case(p, vseed, i, only);
            let sc = self.sc(&plan.scenario);
            let r = run_one(sc, &plan, Src::Seed(cs), false);
            a.runs += 1;
            a.steps += r.steps;
            a.switches += r.switches;
            a.sim_ns += r.sim_ns;
            a.kills += r.kills;
            a.max_threads = a.max_threads.max(r.threads);
            if r.switches > 3 && r.steps > 20 && a.hashes.insert(r.hash) {
                a.nontrivial += 1;
            }
            *a.per_scenario.entry(plan.scenario.clone()).or_insert(0) += 1;
            for (c, n) in &r.counters {
                *a.counters.entry(c.clone()).or_insert(0) += n;
            }
            for (c, n) in &r.out.probes {
                *a.probes.entry(c.clone()).or_insert(0) += n;
            }
            if let Some(d) = &r.died {
                if a.errors.len() < 5 {
                    a.errors.push(format!("run {i}: {d}"));
                }
            }
            for v in &r.out.viols {
                if v.prop == p.id {
                    if is_known(kn, v) {
                        a.known_hits += 1;
                    } else {
                        a.fails.push((i, v.clone()));
                    }
                } else {
                    if std::env::var_os("LKSIM_SHOW_OTHER").is_some() { eprintln!("OTHER run {} {}/{} {}", i, v.prop, v.class, v.msg); }
                    *a.other.entry(format!("{}/{}", v.prop, v.class)).or_insert(0) += 1;
                }
            }
            // determinism probe: some runs are executed twice
            if i % 97 == 0 {
                let r2 = run_one(sc, &plan, Src::Seed(cs), i % 194 == 0);
                a.det_pairs += 1;
                if r2.hash != r.hash || r2.steps != r.steps {
                    a.det_bad.push(i);
                }
            }
            if a.fails.len() >= 3 {
                break;
            }
            i += n;
        }
        a
    }

    // ------------------------------------------------------------------ minimise
    fn find(&self, prop: &str, class: &str, r: &RunRes) -> Option<Viol> {
        r.out.viols.iter().find(|v| v.prop == prop && v.class == class).cloned()
    }
    fn try_par(&self, cands: &[(Plan, Option<Vec<(u8, u64, u64)>>, u64)], prop: &str, class: &str) -> Option<usize> {
        // evaluates candidates in parallel processes; the first (lowest index) success wins
        let width = ncpu() as usize;
        let mut base = 0;
        while base < cands.len() {
            let end = (base + width).min(cands.len());
            let mut hs = vec![];
            for c in &cands[base..end] {
                unsafe {
                    let pid = libc::fork();
                    if pid == 0 {
                        let sc = self.sc(&c.0.scenario);
                        let r = match &c.1 {
                            Some(l) => run_one(sc, &c.0, Src::Replay(l), false),
                            None => run_one(sc, &c.0, Src::Seed(c.2), false),
                        };
                        k::raw::exit_now(if self.find(prop, class, &r).is_some() { 7 } else { 0 });
                    }
                    hs.push(pid);
                }
            }
            let mut win = None;
            for (j, pid) in hs.into_iter().enumerate() {
                let mut st = 0;
                unsafe { libc::waitpid(pid, &mut st, 0) };
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 7 && win.is_none() {
                    win = Some(base + j);
                }
            }
            if win.is_some() {
                return win;
            }
            base = end;
        }
        None
    }
    fn minimise(&self, plan0: &Plan, cs0: u64, v: &Viol, budget: f64) -> Option<(Plan, Vec<(u8, u64, u64)>, RunRes)> {
        let t0 = std::time::Instant::now();
        let (mut plan, mut cs) = (plan0.clone(), cs0);
        let sub = 16u64;
        // phase 1: fewer operations, fewer fault kinds, re-searching schedules for each candidate
        let mut chunk = (plan.ops.len() / 2).max(1);
        loop {
            let mut progress = false;
            let mut at = 0;
            while at < plan.ops.len() && t0.elapsed().as_secs_f64() < budget * 0.5 {
                let mut c = plan.clone();
                let e = (at + chunk).min(c.ops.len());
                c.ops.drain(at..e);
                let cands: Vec<_> = (0..sub).map(|s| (c.clone(), None, if s == 0 { cs } else { mixseed(cs, s) })).collect();
                if let Some(i) = self.try_par(&cands, &v.prop, &v.class) {
                    plan = c;
                    cs = cands[i].2;
                    progress = true;
                } else {
                    at = e;
                }
            }
            if chunk == 1 && !progress || t0.elapsed().as_secs_f64() > budget * 0.5 {
                break;
            }
            if !progress || chunk > 1 {
                chunk = (chunk / 2).max(1);
            }
        }
        let keys: Vec<String> = plan.cfg.keys().filter(|k| {
            k.starts_with("k.") && (k.ends_with("_pm") || k.ends_with("stall_den") || k.ends_with("timer_den") || k.ends_with("jump_den") || k.starts_with("k.db") || k.ends_with("max_kills"))
        }).cloned().collect();
        for key in keys {
            if plan.get(&key) == 0 || t0.elapsed().as_secs_f64() > budget * 0.6 {
                continue;
            }
            let mut c = plan.clone();
            c.cfg.insert(key, 0);
            let cands: Vec<_> = (0..sub).map(|s| (c.clone(), None, if s == 0 { cs } else { mixseed(cs, 100 + s) })).collect();
            if let Some(i) = self.try_par(&cands, &v.prop, &v.class) {
                plan = c;
                cs = cands[i].2;
            }
        }
        // phase 2: the choice log
        let sc = self.sc(&plan.scenario);
        let r = run_one(sc, &plan, Src::Seed(cs), true);
        self.find(&v.prop, &v.class, &r)?;
        let mut log = r.choices.clone();
        let rr = run_one(sc, &plan, Src::Replay(&log), true);
        if self.find(&v.prop, &v.class, &rr).is_none() {
            // cannot happen for a deterministic run that survives; crashes carry no log
            return Some((plan, vec![(255, cs, 0)], r));
        }
        let mut n = 2usize;
        while !log.is_empty() && t0.elapsed().as_secs_f64() < budget {
            let sz = log.len().div_ceil(n);
            let mut cands = vec![];
            let mut i = 0;
            while i < log.len() {
                let mut l = log.clone();
                l.drain(i..(i + sz).min(l.len()));
                cands.push((plan.clone(), Some(l), 0));
                i += sz;
            }
            if let Some(w) = self.try_par(&cands, &v.prop, &v.class) {
                log = cands.swap_remove(w).1.unwrap();
                n = n.saturating_sub(1).max(2);
            } else if sz == 1 {
                break;
            } else {
                n = (n * 2).min(log.len());
            }
        }
        let r = run_one(sc, &plan, Src::Replay(&log), true);
        self.find(&v.prop, &v.class, &r)?;
        Some((plan, log, r))
    }
    fn write_replay(&self, path: &str, v: &Viol, plan: &Plan, log: &[(u8, u64, u64)], r: &RunRes, seed: &str) {
        let mut o = String::from("lksim-replay 1\n");
        let _ = writeln!(o, "property {}\nclass {}\nmessage {}\nseed {}\nhash {}", v.prop, v.class, v.msg, seed, r.hash);
        plan.text(&mut o);
        for (a, b, c) in log {
            let name = if *a == 255 { "seeded" } else { k::choice::KIND_NAMES[*a as usize & 15] };
            let _ = writeln!(o, "choice {a} {b} {c} # {name}");
        }
        for n in &r.panics {
            let _ = writeln!(o, "# panic: {n}");
        }
        let tail = 400;
        let skip = r.trace.len().saturating_sub(tail);
        let _ = writeln!(o, "# trace ({} events, last {} shown)", r.trace.len(), r.trace.len() - skip);
        for t in &r.trace[skip..] {
            let _ = writeln!(o, "# {t}");
        }
        if let Some(d) = std::path::Path::new(path).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(path, o).expect("write replay");
    }
    fn replay(&self, path: &str) -> i32 {
        let s = std::fs::read_to_string(path).expect("replay file");
        let mut plan = Plan::default();
        let mut log = vec![];
        let (mut prop, mut class, mut hash) = (String::new(), String::new(), 0u64);
        for l in s.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            match f.first().copied() {
                Some("property") => prop = f[1].into(),
                Some("class") => class = f[1].into(),
                Some("hash") => hash = f[1].parse().unwrap(),
                Some("scenario") => plan.scenario = f[1].into(),
                Some("cfg") => {
                    plan.cfg.insert(f[1].into(), f[2].parse().unwrap());
                }
                Some("op") => plan.ops.push(Op { actor: f[1].parse().unwrap(), code: f[2].into(), args: f[3..].iter().map(|x| x.parse().unwrap()).collect() }),
                Some("choice") => log.push((f[1].parse::<u8>().unwrap(), f[2].parse::<u64>().unwrap(), f[3].parse::<u64>().unwrap())),
                _ => {}
            }
        }
        let sc = self.sc(&plan.scenario);
        let src = if log.len() == 1 && log[0].0 == 255 { Src::Seed(log[0].1) } else { Src::Replay(&log) };
        let r = run_one(sc, &plan, src, true);
        if std::env::var_os("LKSIM_TRACE").is_some() {
            for t in &r.trace {
                println!("{t}");
            }
        }
        match self.find(&prop, &class, &r) {
            Some(v) => {
                println!("reproduced: {} {} {}", v.prop, v.class, v.msg);
                println!("event hash {} ({})", r.hash, if r.hash == hash { "identical" } else { "DIFFERENT" });
                println!("VIOLATION property={prop} replay={path}");
                if r.hash == hash {
                    1
                } else {
                    4
                }
            }
            None => {
                println!("not reproduced; violations seen: {:?} {:?}", r.out.viols, r.died);
                0
            }
        }
    }

    // ------------------------------------------------------------------ main
    pub fn main(&self) -> ! {
        no_aslr();
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
        let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let code = match args.get(1).map(|s| s.as_str()) {
            Some("check") => self.check(&args[2], vseed, &get),
            Some("replay") => self.replay(&args[2]),
            Some("one") => {
                // one <prop> <index> : run a single case and print everything
                let p = self.prop(&args[2]);
                let i: u64 = args[3].parse().unwrap();
                let (plan, cs) = self.case(p, vseed, i, get("--scenario").as_deref());
                let mut t = String::new();
                plan.text(&mut t);
                print!("{t}");
                let r = run_one(self.sc(&plan.scenario), &plan, Src::Seed(cs), true);
                for l in &r.trace {
                    println!("{l}");
                }
                println!("{:#?}", r.out);
                println!("panics {:?}\ncounters {:?}\ndied {:?} hash {} steps {} switches {} sim_ms {} choices {}", r.panics, r.counters, r.died, r.hash, r.steps, r.switches, r.sim_ns / 1_000_000, r.choices.len());
                0
            }
            Some("determinism") => self.determinism(vseed, &get),
            _ => {
                eprintln!("usage: check <prop> [--tier quick|thorough] [--evidence F] [--replays D] [--known F] | replay <file> | one <prop> <i>");
                3
            }
        };
        let _ = std::io::stdout().flush();
        std::process::exit(code)
    }
    fn determinism(&self, vseed: u64, get: &dyn Fn(&str) -> Option<String>) -> i32 {
        let n: u64 = get("--runs").and_then(|s| s.parse().ok()).unwrap_or(200);
        let mut bad = 0;
        for p in &self.props {
            if get("--prop").map(|x| x != p.id).unwrap_or(false) {
                continue;
            }
            let mut pids = vec![];
            for w in 0..ncpu() {
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    if w % 2 == 0 {
                        pin(w)
                    }
                    let mut b = 0;
                    let mut i = w;
                    while i < n {
                        let (plan, cs) = self.case(p, vseed, i, None);
                        let sc = self.sc(&plan.scenario);
                        let a = run_one(sc, &plan, Src::Seed(cs), true);
                        let c = run_one(sc, &plan, Src::Seed(cs), true);
                        let d = run_one(sc, &plan, Src::Replay(&a.choices), true);
                        if a.died.is_none() && (a.hash != c.hash || a.steps != c.steps || a.trace != c.trace || a.hash != d.hash || a.trace != d.trace) {
                            eprintln!("NONDETERMINISM prop {} run {i} scenario {}: {} {} {}", p.id, plan.scenario, a.hash, c.hash, d.hash);
                            for (x, y) in a.trace.iter().zip(c.trace.iter()) {
                                if x != y {
                                    eprintln!("  {x}\n  {y}");
                                    break;
                                }
                            }
                            for (x, y) in a.trace.iter().zip(d.trace.iter()) {
                                if x != y {
                                    eprintln!("  R {x}\n  R {y}");
                                    break;
                                }
                            }
                            b += 1;
                        }
                        i += ncpu();
                    }
                    k::raw::exit_now((b > 0) as i32);
                }
                pids.push(pid);
            }
            for pid in pids {
                let mut st = 0;
                unsafe { libc::waitpid(pid, &mut st, 0) };
                if st != 0 {
                    bad += 1;
                }
            }
        }
        println!("determinism: {} runs per property, each executed twice from its seed and once from its choice log: {}", n, if bad == 0 { "all identical" } else { "MISMATCH" });
        (bad > 0) as i32
    }
    fn check(&self, id: &str, vseed: u64, get: &dyn Fn(&str) -> Option<String>) -> i32 {
        let t0 = std::time::Instant::now();
        let p = self.prop(id);
        let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
        let thorough = tier == "thorough";
        let runs = get("--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough_runs } else { p.quick_runs });
        let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 45.0 });
        let kn = get("--known").map(|f| load_known(&f)).unwrap_or_default();
        let only = get("--scenario");
        println!("lksim check property={id} tier={tier} VERIF_SEED={vseed} runs={runs}");
        let a = self.batch(p, vseed, 0, runs, ncpu(), budget, &kn, only.as_deref());
        let search_s = t0.elapsed().as_secs_f64();
        let mut code = 0;
        let mut nviol = 0;
        for k in kn.iter().filter(|k| k.prop == id) {
            println!("KNOWN-FINDING: property={id} {}", k.text);
        }
        if !a.det_bad.is_empty() {
            println!("note: {} of {} repeated runs differed: {:?}", a.det_bad.len(), a.det_pairs, a.det_bad);
        }
        if let Some((i, v)) = a.fails.first() {
            nviol = a.fails.len();
            let (plan, cs) = self.case(p, vseed, *i, only.as_deref());
            println!("violation in run {i}: {} {}", v.class, v.msg);
            let dir = get("--replays").unwrap_or("/verif/replays".into());
            let path = format!("{dir}/{id}-{}.replay", v.class);
            let mut res = self.minimise(&plan, cs, v, if thorough { 120.0 } else { 60.0 });
            if res.is_none() {
                // keep the unminimised run if it repeats
                let sc = self.sc(&plan.scenario);
                let r = run_one(sc, &plan, Src::Seed(cs), true);
                if self.find(id, &v.class, &r).is_some() {
                    res = Some((plan.clone(), vec![(255, cs, 0)], r));
                }
            }
            match res {
                Some((mp, log, r)) => {
                    let mv = self.find(id, &v.class, &r).unwrap();
                    self.write_replay(&path, &mv, &mp, &log, &r, &format!("VERIF_SEED={vseed} run={i} choice-seed={cs}"));
                    println!("minimised: {} operations, {} choices: {}", mp.ops.len(), log.len(), mv.msg);
                    println!("VIOLATION property={id} replay={path}");
                    code = 1;
                }
                None => {
                    println!("ERROR: the violation did not repeat from its own seed (run {i}); harness defect");
                    code = 5;
                }
            }
        }
        if !a.errors.is_empty() {
            for e in &a.errors {
                println!("harness error: {e}");
            }
            if code == 0 {
                code = 6;
            }
        }
        let wall = t0.elapsed().as_secs_f64();
        println!(
            "runs={} distinct={} steps={} switches={} kills={} sim_s={:.1} wall_s={:.1} runs/h={:.0}",
            a.runs, a.nontrivial, a.steps, a.switches, a.kills, a.sim_ns as f64 / 1e9, wall, a.runs as f64 / search_s * 3600.0
        );
        for (k, n) in &a.counters {
            println!("  {k} {n}");
        }
        for (k, n) in &a.probes {
            println!("  probe {k} {n}");
        }
        for (k, n) in &a.other {
            println!("  other-property {k} {n}");
        }
        if let Some(f) = get("--evidence") {
            self.evidence(&f, p, &tier, vseed, &a, search_s, wall, nviol);
        }
        code
    }
    #[allow(clippy::too_many_arguments)]
    fn evidence(&self, f: &str, p: &PropSpec, tier: &str, vseed: u64, a: &Agg, search_s: f64, wall: f64, nviol: usize) {
        let mut samples = String::new();
        for i in 0..2 {
            let (plan, cs) = self.case(p, vseed, i, None);
            let mut t = String::new();
            plan.text(&mut t);
            let r = run_one(self.sc(&plan.scenario), &plan, Src::Seed(cs), true);
            let tail: Vec<&String> = r.trace.iter().filter(|l| !l.is_empty()).take(25).collect();
            let _ = write!(
                samples,
                "{}{{\"run\":{i},\"choice_seed\":\"{cs}\",\"plan\":{},\"event_hash\":\"{:016x}\",\"steps\":{},\"choices\":{},\"trace_head\":[{}]}}",
                if i > 0 { "," } else { "" },
                js(&t),
                r.hash,
                r.steps,
                r.choices.len(),
                tail.iter().map(|l| js(l)).collect::<Vec<_>>().join(",")
            );
        }
        let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
        let o = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{vseed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{samples}],\"runs_per_hour\":{:.0},\"simulated_seconds\":{:.3},\"scheduling_points\":{},\"context_switches\":{},\"process_kills\":{},\"max_threads\":{},\"faults_and_counters\":{},\"probes\":{},\"runs_per_scenario\":{},\"determinism_pairs\":{},\"determinism_mismatches\":{},\"other_property_violations_seen\":{},\"components\":{}}},\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{nviol}}}\n",
            js(p.id), js(tier), a.runs, a.nontrivial, js(p.rule), a.runs as f64 / search_s * 3600.0, a.sim_ns as f64 / 1e9, a.steps, a.switches, a.kills, a.max_threads,
            map(&a.counters), map(&a.probes), map(&a.per_scenario), a.det_pairs, a.det_bad.len(), map(&a.other), js(self.components), js(p.level_note)
        );
        if let Some(d) = std::path::Path::new(f).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(f, o).expect("evidence");
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ser(a: &Agg) -> String {
    let mut o = String::new();
    let _ = writeln!(o, "n\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", a.runs, a.steps, a.switches, a.sim_ns, a.kills, a.nontrivial, a.known_hits, a.det_pairs, a.max_threads);
    for (t, m) in [("c", &a.counters), ("p", &a.probes), ("s", &a.per_scenario), ("o", &a.other)] {
        for (k, v) in m {
            let _ = writeln!(o, "{t}\t{k}\t{v}");
        }
    }
    for h in &a.hashes {
        let _ = writeln!(o, "h\t{h}");
    }
    for (i, v) in &a.fails {
        let _ = writeln!(o, "f\t{i}\t{}\t{}\t{}", v.prop, v.class, v.msg);
    }
    for e in &a.errors {
        let _ = writeln!(o, "e\t{e}");
    }
    for e in &a.det_bad {
        let _ = writeln!(o, "d\t{e}");
    }
    o.push_str("z\n");
    o
}
fn de(s: &str, a: &mut Agg) -> bool {
    let mut ok = false;
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        match f[0] {
            "n" => {
                a.runs += n(1);
                a.steps += n(2);
                a.switches += n(3);
                a.sim_ns += n(4);
                a.kills += n(5);
                a.known_hits += n(7);
                a.det_pairs += n(8);
                a.max_threads = a.max_threads.max(n(9));
            }
            "c" => *a.counters.entry(f[1].into()).or_insert(0) += n(2),
            "p" => *a.probes.entry(f[1].into()).or_insert(0) += n(2),
            "s" => *a.per_scenario.entry(f[1].into()).or_insert(0) += n(2),
            "o" => *a.other.entry(f[1].into()).or_insert(0) += n(2),
            "h" => {
                if a.hashes.insert(n(1)) {
                    a.nontrivial += 1
                }
            }
            "f" => a.fails.push((n(1), Viol { prop: f[2].into(), class: f[3].into(), msg: f[4].into() })),
            "e" => a.errors.push(f[1].into()),
            "d" => a.det_bad.push(n(1)),
            "z" => ok = true,
            _ => {}
        }
    }
    ok
}
pub fn ncpu() -> u64 {
    static mut N: u64 = 0;
    unsafe {
        if N == 0 {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            N = if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 { libc::CPU_COUNT(&set) as u64 } else { 4 };
            N = N.clamp(1, 16);
        }
        N
    }
}
fn pin(w: u64) {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&have), &mut have) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &have)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w as usize % cpus.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}
/// identical addresses in every run; not required for replay, but it removes a variable
fn no_aslr() {
    unsafe {
        if std::env::var_os("LKSIM_NOASLR").is_some() {
            return;
        }
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
            std::env::set_var("LKSIM_NOASLR", "1");
            let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
            let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
            ptrs.push(std::ptr::null());
            libc::execv(exe.as_ptr(), ptrs.as_ptr());
        }
    }
}
