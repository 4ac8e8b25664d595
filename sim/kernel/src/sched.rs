use crate::choice::*;
use crate::raw::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BinaryHeap};
use std::sync::atomic::AtomicU32;

pub type Tid = usize;
pub type ProcId = usize;

#[thread_local]
static CUR: Cell<usize> = Cell::new(usize::MAX);
/// >0 while kernel or harness code runs that must not be preempted
#[thread_local]
static NOPREEMPT: Cell<u32> = Cell::new(0);

#[inline]
pub fn cur() -> Tid {
    CUR.get()
}
#[inline]
pub fn in_sim() -> bool {
    CUR.get() != usize::MAX
}
pub(crate) fn set_cur(t: Tid) {
    CUR.set(t)
}
pub struct NoPreempt;
pub fn no_preempt() -> NoPreempt {
    NOPREEMPT.set(NOPREEMPT.get() + 1);
    NoPreempt
}
impl Drop for NoPreempt {
    fn drop(&mut self) {
        NOPREEMPT.set(NOPREEMPT.get() - 1);
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum P {
    Atomic,
    Sys,
    Clock,
    Fs,
    Net,
    Db,
    User,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum What {
    Futex(usize),
    Sleep,
    Recv(i32),
    Flock(u64),
    Join(Tid),
    Db(usize),
    Stall,
    Ctl,
    User(u64),
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum TState {
    Runnable,
    Blocked(What, Option<u64>),
    Done,
    Dead,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Wake {
    None,
    Woken,
    Timeout,
    Intr,
    Stuck,
    StepLimit,
}
pub struct Thread {
    pub proc_: ProcId,
    pub state: TState,
    pub word: Box<AtomicU32>,
    pub wake: Wake,
    pub prio: u64,
    pub name: String,
    pub points: u64,
    /// step at which the thread last blocked
    pub blocked_since: u64,
    /// the deadline that ended the last timed block
    pub fired: u64,
    /// a deadline of interest, and how often the thread read the clock at or after it
    pub due: u64,
    pub past_due: u32,
    /// clock reads since the thread last blocked
    pub polls: u64,
    pub poll_at: u64,
    pub dtors: Vec<(unsafe extern "C" fn(*mut u8), *mut u8)>,
}
pub struct Proc {
    pub pid: u32,
    pub alive: bool,
    /// 0 = never killed by the fault injector
    pub kill_den: u64,
    /// difference of its real-time clock from the others'
    pub skew: i64,
    pub name: String,
    pub incarnation: u32,
}
pub struct Ev {
    at: u64,
    seq: u64,
    run: Box<dyn FnOnce()>,
}
impl PartialEq for Ev {
    fn eq(&self, o: &Self) -> bool {
        self.at == o.at && self.seq == o.seq
    }
}
impl Eq for Ev {}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

/// Per-run configuration; every field is drawn by the scenario (swarm style).
#[derive(Clone, Debug)]
pub struct Cfg {
    pub switch_den: u64,
    pub pct: u64,
    pub step_ns: u64,
    pub tick_ns: u64,
    pub jump_den: u64,
    pub jump_kinds: u64,
    pub stall_den: u64,
    pub stall_max_us: u64,
    pub timer_den: u64,
    pub spur_pm: u64,
    pub net_drop_pm: u64,
    pub net_dup_pm: u64,
    pub net_delay_pm: u64,
    pub net_delay_max_us: u64,
    pub net_senderr_pm: u64,
    pub net_recv_eintr_pm: u64,
    pub net_base_us: u64,
    pub net_rcvbuf: u64,
    pub fs_short_pm: u64,
    pub fs_eintr_pm: u64,
    pub fs_eio_pm: u64,
    pub fs_enospc_pm: u64,
    pub rand_fail_pm: u64,
    pub rand_short_pm: u64,
    pub max_kills: u64,
    pub max_steps: u64,
    pub db: [u64; 8],
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            switch_den: 16,
            pct: 0,
            step_ns: 20,
            tick_ns: 100,
            jump_den: 0,
            jump_kinds: 0,
            stall_den: 0,
            stall_max_us: 0,
            timer_den: 0,
            spur_pm: 0,
            net_drop_pm: 0,
            net_dup_pm: 0,
            net_delay_pm: 0,
            net_delay_max_us: 0,
            net_senderr_pm: 0,
            net_recv_eintr_pm: 0,
            net_base_us: 20,
            net_rcvbuf: 64,
            fs_short_pm: 0,
            fs_eintr_pm: 0,
            fs_eio_pm: 0,
            fs_enospc_pm: 0,
            rand_fail_pm: 0,
            rand_short_pm: 0,
            max_kills: 0,
            max_steps: 400_000,
            db: [0; 8],
        }
    }
}

pub struct Sim {
    pub cfg: Cfg,
    pub ch: Choices,
    pub threads: Vec<Thread>,
    pub procs: Vec<Proc>,
    pub now: u64,
    pub rt_off: i64,
    pub rt_max: i128,
    pub next_timer: u64,
    pub events: BinaryHeap<Ev>,
    pub seq: u64,
    pub step: u64,
    pub burst: u64,
    pub hash: u64,
    pub switches: u64,
    pub frozen: bool,
    pub step_limited: bool,
    pub faults_off: bool,
    pub kills: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub trace_on: bool,
    /// let stderr of simulated code through
    pub debug: bool,
    pub trace: Vec<String>,
    pub panics: Vec<(ProcId, Tid, String, String)>,
    pub spawn_proc: Option<(ProcId, String)>,
    pub pct_low: u64,
    pub on_kill: Vec<fn(ProcId)>,
    pub rand_state: Rng,
    /// random bytes handed out so far; `rand_flip` alters the byte at that position
    pub rand_total: u64,
    pub rand_flip: Option<(u64, u8)>,
    pub join_map: Vec<(usize, Tid)>,
    pub net: crate::net::Net,
    pub fs: crate::fs::Fs,
    pub ext: BTreeMap<&'static str, Box<dyn std::any::Any>>,
    pub last_kill_step: u64,
    pub start_real: u64,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

pub const RT_BASE: i64 = 1_700_000_000_000_000_000;
pub const INF: u64 = u64::MAX;

/// Make the calling thread the controller (tid 0, process 0) of a fresh simulation.
pub fn start(cfg: Cfg, ch: Choices, seed: u64, trace: bool) {
    let s = Sim {
        cfg,
        ch,
        threads: vec![],
        procs: vec![],
        now: 1_000_000_000,
        rt_off: RT_BASE,
        rt_max: 0,
        next_timer: INF,
        events: BinaryHeap::new(),
        seq: 0,
        step: 0,
        burst: 0,
        hash: 0xcbf29ce484222325,
        switches: 0,
        frozen: false,
        step_limited: false,
        faults_off: false,
        kills: 0,
        counters: BTreeMap::new(),
        trace_on: trace,
        debug: std::env::var_os("LKSIM_DEBUG").is_some(),
        trace: vec![],
        panics: vec![],
        spawn_proc: None,
        pct_low: u64::MAX / 2,
        on_kill: vec![],
        rand_state: Rng::new(seed ^ 0xabcdef),
        rand_total: 0,
        rand_flip: None,
        join_map: vec![],
        net: Default::default(),
        fs: Default::default(),
        ext: BTreeMap::new(),
        last_kill_step: 0,
        start_real: real_clock_ns(),
    };
    unsafe { SIM = Box::into_raw(Box::new(s)) };
    let c = new_proc("ctl", 1000);
    sim().threads.push(Thread {
        proc_: c,
        state: TState::Runnable,
        word: Box::new(AtomicU32::new(0)),
        wake: Wake::None,
        prio: u64::MAX,
        name: "ctl".into(),
        points: 0,
        blocked_since: 0, fired: 0, due: INF, past_due: 0,
        polls: 0,
        poll_at: 0,
        dtors: vec![],
    });
    set_cur(0);
}
pub fn leave() {
    set_cur(usize::MAX);
}

pub fn new_proc(name: &str, pid: u32) -> ProcId {
    let s = sim();
    let incarnation = s.procs.iter().filter(|p| p.name == name).count() as u32;
    s.procs.push(Proc { pid, alive: true, kill_den: 0, skew: 0, name: name.to_string(), incarnation });
    s.procs.len() - 1
}
pub fn cur_proc() -> ProcId {
    sim().threads[cur()].proc_
}
#[inline]
pub fn mix(v: u64) {
    let s = sim();
    s.hash = (s.hash ^ v).wrapping_mul(0x100000001b3);
    s.hash ^= s.hash >> 29;
}
pub fn count(k: &'static str) {
    *sim().counters.entry(k).or_insert(0) += 1;
}
pub fn count_n(k: &'static str, n: u64) {
    *sim().counters.entry(k).or_insert(0) += n;
}
pub fn counter(k: &'static str) -> u64 {
    sim().counters.get(k).copied().unwrap_or(0)
}
/// record an event in the run's log (hash always, text when tracing)
pub fn ev(f: impl FnOnce() -> String) {
    let s = sim();
    if s.trace_on {
        let t = f();
        let p = if in_sim() { s.threads[cur()].proc_ } else { 0 };
        let line = format!("{:>8} t={:>12}ns {}#{} T{}({}) {}", s.step, s.now, s.procs[p].name, s.procs[p].incarnation, cur(), s.threads[cur()].name, t);
        if s.trace.len() < 200_000 {
            s.trace.push(line);
        }
    }
}
/// record an event that is part of the determinism hash
pub fn evh(f: impl FnOnce() -> String) {
    let t = f();
    let mut h = 0xcbf29ce484222325u64;
    for b in t.as_bytes() {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h);
    ev(|| t);
}
pub fn fault(kind: &'static str) {
    count(kind);
    evh(|| format!("FAULT {kind}"));
}

pub fn now_ns() -> u64 {
    sim().now
}
pub fn rt_ns() -> i128 {
    sim().now as i128 + sim().rt_off as i128
}
/// the latest time any clock has shown
pub fn rt_max_ns() -> i128 {
    sim().rt_max.max(rt_ns())
}

impl Sim {
    fn recompute_timer(&mut self) {
        let mut m = self.events.peek().map(|e| e.at).unwrap_or(INF);
        for t in &self.threads {
            if let TState::Blocked(_, Some(d)) = t.state {
                m = m.min(d);
            }
        }
        self.next_timer = m;
    }
    fn runnable(&self, out: &mut [usize; 64]) -> usize {
        let mut n = 0;
        if self.frozen {
            if self.threads[0].state == TState::Runnable {
                out[0] = 0;
                return 1;
            }
            return 0;
        }
        for (i, t) in self.threads.iter().enumerate() {
            if t.state == TState::Runnable && n < 64 {
                out[n] = i;
                n += 1;
            }
        }
        n
    }
}
fn fire_timers() {
    loop {
        let s = sim();
        if s.next_timer > s.now {
            return;
        }
        let now = s.now;
        if s.events.peek().map(|e| e.at <= now).unwrap_or(false) {
            let e = s.events.pop().unwrap();
            (e.run)();
            sim().recompute_timer();
            continue;
        }
        for t in s.threads.iter_mut() {
            if let TState::Blocked(_, Some(d)) = t.state {
                if d <= now {
                    t.state = TState::Runnable;
                    t.wake = Wake::Timeout;
                }
            }
        }
        s.recompute_timer();
    }
}
pub fn schedule(delay_ns: u64, f: impl FnOnce() + 'static) {
    let s = sim();
    s.seq += 1;
    let at = s.now + delay_ns;
    s.events.push(Ev { at, seq: s.seq, run: Box::new(f) });
    s.next_timer = s.next_timer.min(at);
}

pub fn wake(t: Tid, w: Wake) {
    let th = &mut sim().threads[t];
    if let TState::Blocked(..) = th.state {
        th.state = TState::Runnable;
        th.wake = w;
        sim().recompute_timer();
    }
}
/// wake up to n threads that wait for exactly `what` (FIFO by thread id unless a choice says otherwise)
pub fn wake_what(what: What, n: usize) -> usize {
    let mut l: Vec<Tid> = sim()
        .threads
        .iter()
        .enumerate()
        .filter(|(_, t)| matches!(t.state, TState::Blocked(w, _) if w == what))
        .map(|(i, _)| i)
        .collect();
    let mut woken = 0;
    while woken < n && !l.is_empty() {
        let i = if n < l.len() {
            let len = l.len() as u64;
            sim().ch.choose(Kind::Spur, |r| r.below(len)) as usize % l.len()
        } else {
            0
        };
        let t = l.remove(i);
        wake(t, Wake::Woken);
        woken += 1;
    }
    woken
}

fn handover(next: Tid) {
    let me = cur();
    if next == me {
        return;
    }
    let s = sim();
    s.switches += 1;
    s.burst = 0;
    mix((me as u64) << 32 | next as u64);
    let np = NOPREEMPT.get();
    debug_assert!(np == 0);
    let mine: *const AtomicU32 = &*s.threads[me].word;
    let other: *const AtomicU32 = &*s.threads[next].word;
    unsafe {
        unpark(&*other);
        park(&*mine);
    }
}
fn handover_noreturn(next: Tid) {
    let s = sim();
    s.switches += 1;
    s.burst = 0;
    mix((cur() as u64) << 32 | next as u64 | 1 << 63);
    let other: *const AtomicU32 = &*s.threads[next].word;
    unsafe { unpark(&*other) };
}

fn pick(cur_ok: Option<Tid>) -> Option<Tid> {
    let s = sim();
    let mut buf = [0usize; 64];
    let n = s.runnable(&mut buf);
    let l = &buf[..n];
    if n == 0 {
        return None;
    }
    match cur_ok {
        Some(c) => {
            if n == 1 && l[0] == c {
                return Some(c);
            }
            let others: Vec<usize> = l.iter().copied().filter(|x| *x != c).collect();
            if s.frozen {
                return Some(0);
            }
            if s.burst > 3000 {
                // fairness backstop; part of the scheduler, not a choice
                let nxt = others.iter().copied().find(|x| *x > c).unwrap_or(others[0]);
                s.pct_low = s.pct_low.saturating_sub(1);
                s.threads[c].prio = s.pct_low;
                return Some(nxt);
            }
            let den = s.cfg.switch_den;
            let pct = s.cfg.pct;
            let threads = &mut s.threads;
            let low = &mut s.pct_low;
            let v = s.ch.choose(Kind::Sched, |r| {
                if pct > 0 {
                    if r.below(pct) == 0 {
                        *low -= 1;
                        threads[c].prio = *low;
                    }
                    let best = others.iter().enumerate().max_by_key(|(_, t)| threads[**t].prio).unwrap();
                    if threads[*best.1].prio > threads[c].prio {
                        best.0 as u64 + 1
                    } else {
                        0
                    }
                } else if r.below(den) == 0 {
                    1 + r.below(others.len() as u64)
                } else {
                    0
                }
            });
            if v == 0 {
                Some(c)
            } else {
                Some(others[(v as usize - 1) % others.len()])
            }
        }
        None => {
            if n == 1 {
                return Some(l[0]);
            }
            let pct = s.cfg.pct;
            let threads = &s.threads;
            let v = s.ch.choose(Kind::Sched, |r| {
                if pct > 0 {
                    l.iter().enumerate().max_by_key(|(_, t)| threads[**t].prio).unwrap().0 as u64
                } else {
                    r.below(l.len() as u64)
                }
            });
            Some(l[v as usize % l.len()])
        }
    }
}

/// choose the next thread when the current one cannot run; advances time when nobody can
fn next_when_blocked() -> Tid {
    loop {
        fire_timers();
        if let Some(t) = pick(None) {
            return t;
        }
        let s = sim();
        if s.next_timer != INF && !s.frozen {
            let nt = s.next_timer;
            if nt > s.now {
                s.now = nt;
            }
            continue;
        }
        // nothing can ever happen again: tell the controller
        if let TState::Blocked(..) = s.threads[0].state {
            count("quiescent");
            let w = if s.frozen { Wake::StepLimit } else { Wake::Stuck };
            wake(0, w);
            continue;
        }
        eprintln!("lksim: controller lost");
        exit_now(86);
    }
}

pub fn block(what: What, deadline: Option<u64>) -> Wake {
    let me = cur();
    {
        let s = sim();
        s.step += 1;
        s.threads[me].points += 1;
        s.threads[me].state = TState::Blocked(what, deadline);
        s.threads[me].wake = Wake::None;
        s.threads[me].blocked_since = s.step;
        if let Some(d) = deadline {
            s.next_timer = s.next_timer.min(d);
        }
    }
    let t0 = sim().now;
    let n = next_when_blocked();
    // harness code that meets a contended lock gives up the token after all
    let np = NOPREEMPT.replace(0);
    handover(n);
    NOPREEMPT.set(np);
    let s = sim();
    if deadline.is_none() {
        // waiting for a lock, say
        let t = &mut s.threads[me];
        t.due = t.due.saturating_add(s.now - t0);
    }
    if s.now > t0 + 10_000 && what != What::Stall {
        s.threads[me].polls = 0;
    }
    if let (Wake::Timeout, Some(d), false) = (s.threads[me].wake, deadline, what == What::Stall) {
        s.threads[me].fired = d;
    }
    s.threads[me].wake
}

fn step_limit() {
    let s = sim();
    s.step_limited = true;
    s.frozen = true;
    if cur() != 0 {
        wake(0, Wake::StepLimit);
        handover(0);
    }
}

pub fn can_block() -> bool {
    NOPREEMPT.get() == 0
}
/// a scheduling point
pub fn point(p: P) {
    let me = CUR.get();
    if me == usize::MAX || NOPREEMPT.get() > 0 {
        return;
    }
    let t0 = sim().now;
    point_(p, me);
    // a thread that could run but did not cannot be held to its deadline
    let s = sim();
    let t = &mut s.threads[me];
    t.due = t.due.saturating_add(s.now - t0);
}
fn point_(p: P, me: Tid) {
    let s = sim();
    if s.frozen {
        return;
    }
    s.step += 1;
    s.burst += 1;
    s.now += s.cfg.step_ns;
    s.threads[me].points += 1;
    if s.step > s.cfg.max_steps {
        step_limit();
        return;
    }
    if me != 0 && !s.faults_off {
        let pr = s.threads[me].proc_;
        let kd = s.procs[pr].kill_den;
        if kd > 0 && s.kills < s.cfg.max_kills {
            let kd = if matches!(p, P::Fs | P::Db | P::Net) { kd } else { kd * 6 };
            if s.ch.choose(Kind::Kill, |r| (r.below(kd) == 0) as u64) != 0 {
                s.kills += 1;
                fault("kill_process");
                kill_proc(pr);
                unreachable!();
            }
        }
        if s.cfg.stall_den > 0 {
            let (d, m) = (s.cfg.stall_den, s.cfg.stall_max_us);
            let v = s.ch.choose(Kind::Stall, |r| if r.below(d) == 0 { 1 + r.below(m) } else { 0 });
            if v > 0 {
                count("stall");
                let dl = s.now + v * 1000;
                block(What::Stall, Some(dl));
                return;
            }
        }
        if s.cfg.timer_den > 0 && s.next_timer != INF && s.next_timer > s.now {
            let d = s.cfg.timer_den;
            // never skip to a deadline of the controller
            let ctl = matches!(s.threads[0].state, TState::Blocked(_, Some(d)) if d <= s.next_timer);
            if !ctl && s.ch.choose(Kind::Timer, |r| (r.below(d) == 0) as u64) != 0 {
                count("time_skip");
                s.now = s.next_timer;
            }
        }
    }
    if s.next_timer <= s.now {
        fire_timers();
    }
    if let Some(n) = pick(Some(me)) {
        handover(n);
    }
}

/// let somebody else run if there is anybody
pub fn yield_now() {
    point(P::Sys);
    let s = sim();
    if s.frozen || NOPREEMPT.get() > 0 {
        return;
    }
    let mut buf = [0usize; 64];
    let n = s.runnable(&mut buf);
    let me = cur();
    let others: Vec<usize> = buf[..n].iter().copied().filter(|x| *x != me).collect();
    if !others.is_empty() {
        let v = s.ch.choose(Kind::Sched, |r| r.below(others.len() as u64));
        handover(others[v as usize % others.len()]);
    } else {
        s.now += 1000;
    }
}

/// kill a simulated process: none of its threads ever runs again
pub fn kill_proc(p: ProcId) {
    let s = sim();
    if !s.procs[p].alive {
        return;
    }
    s.procs[p].alive = false;
    s.last_kill_step = s.step;
    let mut me_dead = false;
    for (i, t) in s.threads.iter_mut().enumerate() {
        if t.proc_ == p && t.state != TState::Done {
            t.state = TState::Dead;
            if i == cur() {
                me_dead = true;
            }
        }
    }
    s.recompute_timer();
    crate::net::proc_killed(p);
    crate::fs::proc_killed(p);
    let cbs = sim().on_kill.clone();
    for c in cbs {
        c(p);
    }
    wake_ctl();
    if me_dead {
        let mine: *const AtomicU32 = &*sim().threads[cur()].word;
        let n = next_when_blocked();
        handover_noreturn(n);
        loop {
            unsafe { park(&*mine) };
        }
    }
}
pub fn wake_ctl() {
    if matches!(sim().threads[0].state, TState::Blocked(What::Ctl, _)) {
        wake(0, Wake::Woken);
    }
}
/// controller: wait until something notable happened (thread end, process death, `notify_ctl`) or the deadline
pub fn ctl_wait(deadline: Option<u64>) -> Wake {
    assert!(cur() == 0);
    block(What::Ctl, deadline)
}
pub fn thread_over(t: Tid) -> bool {
    matches!(sim().threads[t].state, TState::Done | TState::Dead)
}
/// blocked, and not by a stall which ends by itself
pub fn thread_at_rest(t: Tid) -> bool {
    matches!(sim().threads[t].state, TState::Blocked(w, _) if w != What::Stall)
}
/// controller: wait for all listed threads to end. Returns Woken, Timeout, Stuck or StepLimit.
pub fn ctl_join(ts: &[Tid], deadline: Option<u64>) -> Wake {
    loop {
        if sim().step_limited {
            return Wake::StepLimit;
        }
        if ts.iter().all(|t| thread_over(*t)) {
            return Wake::Woken;
        }
        match ctl_wait(deadline) {
            Wake::Timeout => return Wake::Timeout,
            Wake::Stuck => return Wake::Stuck,
            Wake::StepLimit => return Wake::StepLimit,
            _ => {}
        }
    }
}
/// controller: let the simulation run until nothing is runnable and no timer is left, or until the deadline
pub fn ctl_quiesce(deadline_ns: u64) -> Wake {
    let d = sim().now + deadline_ns;
    loop {
        if sim().step_limited {
            return Wake::StepLimit;
        }
        match ctl_wait(Some(d)) {
            Wake::Woken => {}
            w => return w,
        }
    }
}

/// start a thread of a simulated process
pub fn spawn_in(p: ProcId, name: &str, f: impl FnOnce() + Send + 'static) -> Tid {
    let s = sim();
    let t = s.threads.len();
    s.spawn_proc = Some((p, name.to_string()));
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(f).expect("spawn");
    std::mem::forget(h);
    t
}
pub(crate) fn register_thread() -> Tid {
    let s = sim();
    let (p, name) = s.spawn_proc.take().unwrap_or_else(|| (cur_proc(), format!("{}+", s.threads[cur()].name)));
    let prio = match &mut s.ch.mode {
        Mode::Generate(r) => u64::MAX / 2 + (r.next() >> 2),
        _ => 0,
    };
    s.threads.push(Thread {
        proc_: p,
        state: if s.procs[p].alive { TState::Runnable } else { TState::Dead },
        word: Box::new(AtomicU32::new(0)),
        wake: Wake::None,
        prio,
        name,
        points: 0,
        blocked_since: 0, fired: 0, due: INF, past_due: 0,
        polls: 0,
        poll_at: 0,
        dtors: vec![],
    });
    s.threads.len() - 1
}
pub(crate) fn thread_main_enter(t: Tid, word: *const AtomicU32) {
    // wait for the token before touching any simulation state
    unsafe { park(&*word) };
    set_cur(t);
}
pub(crate) fn thread_main_exit() {
    let me = cur();
    loop {
        let d = sim().threads[me].dtors.pop();
        match d {
            Some((f, o)) => unsafe { f(o) },
            None => break,
        }
    }
    sim().threads[me].state = TState::Done;
    wake_what(What::Join(me), usize::MAX);
    wake_ctl();
    let n = next_when_blocked();
    set_cur(usize::MAX);
    let s = sim();
    s.switches += 1;
    s.burst = 0;
    mix((me as u64) << 32 | n as u64 | 1 << 62);
    let other: *const AtomicU32 = &*s.threads[n].word;
    unsafe { unpark(&*other) };
}

/// run harness code without giving up the token
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let _g = no_preempt();
    f()
}

/// state shared between simulated threads; only the token holder may touch it
pub struct Shared<T>(std::sync::Arc<std::cell::UnsafeCell<T>>);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<T> Shared<T> {
    pub fn new(t: T) -> Self {
        Shared(std::sync::Arc::new(std::cell::UnsafeCell::new(t)))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}
/// the calling thread reads the clock often but does make progress
pub fn not_polling() {
    let s = sim();
    let me = cur();
    s.threads[me].polls = 0;
}
