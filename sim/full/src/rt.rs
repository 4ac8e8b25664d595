//! Runtimes with watches: registration, delivery, endings, waiting and followed links, while other
//! threads and processes save.
use crate::pool::*;
use crate::query::{build_query, mk_pred, normal, show_q};
use crate::refq::*;
use crate::store::*;
use linkspace::prelude::*;
use linkspace::runtime::cb::{PktHandler, StopReason};
use linkspace::runtime::*;
use linkspace::Linkspace;
use linkspace_core::prelude::lmdb::BTreeEnv;
use lksim_engine::*;
use lksim_kernel as k;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Spec {
    pub qid: Vec<u8>,
    pub preds: Vec<Pred>,
    pub tab: Tab,
    pub asc: bool,
    pub follow: bool,
    pub hi: Option<u64>,
    pub fixed_order: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Start { i: usize },
    Ret { i: usize, r: Result<i32, String> },
    Call { i: usize, hash: H32, recv: u64, linked: u8 },
    CallRet { i: usize, brk: bool },
    Stop { i: usize, reason: u8, total: u32, new: u32 },
    Close { qid: Vec<u8>, range: bool },
    CloseRet,
    Proc,
    ProcRet { r: u64 },
    Wait { qid: Option<Vec<u8>>, forever: bool },
    WaitRet { r: Result<isize, String>, past: bool },
    Poll,
    List { ids: Vec<Vec<u8>> },
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub e: E,
    pub head: u64,
    /// the latest time shown so far
    pub rt: u64,
}
#[derive(Default)]
pub struct Rt {
    pub p: usize,
    pub tid: usize,
    pub evs: Vec<Ev>,
    pub specs: Vec<Spec>,
    pub done: bool,
}
type Rts = Shared<Vec<Rt>>;

struct Ctx {
    h: Shared<Hist>,
    rts: Rts,
    a: usize,
    p: usize,
    env: BTreeEnv,
    specs: Vec<Op>,
    proc_: Cell<u32>,
    depth: Cell<u32>,
    budget: Cell<u32>,
    fixed_at: RefCell<Vec<usize>>,
}
fn us() -> u64 {
    (k::rt_ns() / 1000) as u64
}
impl Ctx {
    fn ev(&self, lk: &Linkspace, e: E) {
        let head = lk.as_impl().get_reader().log_head().get();
        k::evh(|| format!("rt{} {e:?} head {head}", self.a));
        self.rts.get()[self.a].evs.push(Ev { e, head, rt: (k::rt_max_ns() / 1000) as u64 });
    }
}
/// names that are prefixes of each other
const QIDS: [&[u8]; 6] = [b"a", b"ab", b"abc", b"b", b"ba", b""];
fn qid(n: i64) -> &'static [u8] {
    QIDS[n.unsigned_abs() as usize % 5]
}
fn prefix(n: i64) -> &'static [u8] {
    QIDS[n.unsigned_abs() as usize % 6]
}

struct H {
    c: Rc<Ctx>,
    i: usize,
    n: i64,
    op: Op,
    acted: bool,
}
// spec arguments: 0 qid, 1 mode bits, 2 follow, 3 break at, 4 act when (0 never, n at call n, -1 when stopped),
// 5 act, 6.. arguments of the act, 8 receive bound in µs (0 none), 9.. predicates
impl H {
    fn act(&mut self, lk: &Linkspace, in_stop: bool) {
        if self.acted {
            return;
        }
        self.acted = true;
        let (a, b) = (arg(&self.op, 6), arg(&self.op, 7));
        match arg(&self.op, 5) {
            1 => do_close(&self.c, lk, qid(a).to_vec(), false),
            2 => do_close(&self.c, lk, prefix(a).to_vec(), true),
            3 | 7 => do_watch(&self.c, lk, a),
            4 => {
                do_save(&self.c.h, &self.c.env, self.c.p, 0, vec![a as usize % N, b as usize % N]);
            }
            5 if !in_stop => do_wait(&self.c, lk, if b % 3 == 0 { None } else { Some(qid(a).to_vec()) }, Some(b.unsigned_abs() % 500)),
            6 if !in_stop && self.c.proc_.get() == 0 => do_process(&self.c, lk),
            _ => {}
        }
    }
}
impl PktHandler for H {
    fn handle_pkt(&mut self, p: &dyn NetPkt, lk: &Linkspace) -> ControlFlow<()> {
        self.n += 1;
        let f = p.net_header().flags;
        let linked = f.contains(NetFlags::LINKED_IN_FUTURE_PKT) as u8 | (f.contains(NetFlags::LINKED_IN_PREVIOUS_PKT) as u8) << 1;
        let hash = p.hash_ref().0;
        self.c.ev(lk, E::Call { i: self.i, hash, recv: p.get_recv().get(), linked });
        if let Some(ix) = pool().by_hash.get(&hash) {
            let same = p.as_point().data() == pool().pkts[*ix].as_point().data() && p.get_links().iter().eq(pool().pkts[*ix].get_links().iter());
            if !same {
                self.c.h.get().viol("C20", "bytes-differ", format!("the callback got #{ix} with other bytes"));
            }
        }
        if self.n == arg(&self.op, 4) {
            self.act(lk, false);
        }
        let brk = self.n == arg(&self.op, 3);
        self.c.ev(lk, E::CallRet { i: self.i, brk });
        if brk {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
    fn stopped(&mut self, _: linkspace::Query, lk: &Linkspace, r: StopReason, total: u32, new: u32) {
        let reason = match r {
            StopReason::Break => 0,
            StopReason::Finish => 1,
            StopReason::Replaced => 2,
            StopReason::Closed => 3,
        };
        self.c.ev(lk, E::Stop { i: self.i, reason, total, new });
        if arg(&self.op, 4) == -1 {
            self.act(lk, true);
        }
    }
}
fn do_close(c: &Rc<Ctx>, lk: &Linkspace, q: Vec<u8>, range: bool) {
    c.ev(lk, E::Close { qid: q.clone(), range });
    lk_stop(lk, &q, range);
    c.ev(lk, E::CloseRet);
}
fn do_process(c: &Rc<Ctx>, lk: &Linkspace) {
    c.ev(lk, E::Proc);
    c.proc_.set(c.proc_.get() + 1);
    let r = lk_process(lk).get();
    c.proc_.set(c.proc_.get() - 1);
    c.ev(lk, E::ProcRet { r });
}
fn do_wait(c: &Rc<Ctx>, lk: &Linkspace, q: Option<Vec<u8>>, timeout: Option<u64>) {
    c.ev(lk, E::Wait { qid: q.clone(), forever: timeout.is_none() });
    c.proc_.set(c.proc_.get() + 1);
    let t0 = Instant::now();
    // a timeout of zero means none
    let t = timeout.map(|t| t.max(1));
    let r = lk_process_while(lk, q.as_deref(), Stamp::new(t.unwrap_or(0)));
    let past = t.map(|t| Instant::now() >= t0 + Duration::from_micros(t)).unwrap_or(false);
    c.proc_.set(c.proc_.get() - 1);
    c.ev(lk, E::WaitRet { r: r.map_err(|e| format!("{e:#}")), past });
}
fn do_list(c: &Rc<Ctx>, lk: &Linkspace) {
    let mut ids = vec![];
    lk_list_watches(lk, &mut |q, _| ids.push(q.to_vec()));
    c.ev(lk, E::List { ids });
}
fn do_watch(c: &Rc<Ctx>, lk: &Linkspace, n: i64) {
    if c.specs.is_empty() || c.depth.get() > 2 || c.budget.get() == 0 {
        return;
    }
    let op = c.specs[n.unsigned_abs() as usize % c.specs.len()].clone();
    let bits = arg(&op, 1).unsigned_abs() as usize;
    let (tab, asc) = ([Tab::Tree, Tab::Log, Tab::Tree, Tab::Hash][bits % 4], bits / 4 % 2 == 0);
    let mut preds: Vec<Pred> = op.args.get(9..).unwrap_or(&[]).chunks(4).map(|c| mk_pred(c, &[])).collect();
    preds.retain(|p| p.field != "recv" && !(is_limit(&p.field) && p.op == "1"));
    if preds.iter().any(|p| p.field == "hash" && p.op == "=") {
        preds.retain(|p| !is_limit(&p.field));
    }
    if tab != Tab::Tree {
        // only has a meaning for the tree
        preds.retain(|p| p.field != "i_branch");
    }
    let mut preds = normal(preds);
    let hi = (arg(&op, 8) != 0).then(|| us() + arg(&op, 8).unsigned_abs());
    if let Some(hi) = hi {
        preds.push(Pred { field: "recv".into(), op: "<=".into(), val: hi.to_be_bytes().to_vec() });
    }
    let Ok(q) = build_query(&preds) else { return };
    let mode = format!("{}-{}", ["log", "tree", "hash"][tab as usize], if asc { "asc" } else { "desc" });
    let mut q = lk_query_push(q, "", "mode", mode.as_bytes()).unwrap();
    q = lk_query_push(q, "", "qid", qid(arg(&op, 0))).unwrap();
    let follow = arg(&op, 2) == 1;
    if follow {
        q = lk_query_parse(q, &[":follow"], ()).unwrap();
    }
    // asking for one hash also asks for one packet
    if preds.iter().any(|p| p.field == "hash" && p.op == "=") {
        preds.push(Pred { field: "i".into(), op: "=".into(), val: vec![0; 4] });
    }
    c.budget.set(c.budget.get() - 1);
    c.depth.set(c.depth.get() + 1);
    let r = &mut c.rts.get()[c.a];
    let i = r.specs.len();
    r.specs.push(Spec { qid: qid(arg(&op, 0)).to_vec(), preds: preds.clone(), tab, asc, follow, hi, fixed_order: true });
    k::evh(|| format!("rt{} watch {i} spec {n} {:?} follow {follow} {}", c.a, String::from_utf8_lossy(qid(arg(&op, 0))), show_q(tab, asc, &preds)));
    c.ev(lk, E::Start { i });
    let h = H { c: c.clone(), i, n: 0, op, acted: false };
    let r = lk_watch(lk, &q, h).map_err(|e| format!("{e:#}"));
    c.ev(lk, E::Ret { i, r });
    c.depth.set(c.depth.get() - 1);
}
fn actor(h: Shared<Hist>, rts: Rts, a: usize, p: usize, specs: Vec<Op>, ops: Vec<Op>) {
    let env: BTreeEnv = h.get().envs[&p].clone();
    let lk: Linkspace = linkspace_common::runtime::Linkspace::new_opt_rt(env.clone(), Default::default()).into();
    let c = Rc::new(Ctx { h: h.clone(), rts: rts.clone(), a, p, env: env.clone(), specs, proc_: Cell::new(0), depth: Cell::new(0), budget: Cell::new(40), fixed_at: Default::default() });
    let _ = c.fixed_at.borrow();
    rts.get()[a].tid = k::cur();
    for o in ops {
        let x = arg(&o, 0);
        match o.code.as_str() {
            "watch" => do_watch(&c, &lk, x),
            "close" => do_close(&c, &lk, qid(x).to_vec(), false),
            "close_range" => do_close(&c, &lk, prefix(x).to_vec(), true),
            "process" => do_process(&c, &lk),
            "wait" => do_wait(&c, &lk, if arg(&o, 1) % 3 == 0 { None } else { Some(qid(x).to_vec()) }, Some(arg(&o, 2).unsigned_abs())),
            "forever" => {
                do_wait(&c, &lk, if arg(&o, 1) % 3 != 0 { None } else { Some(qid(x).to_vec()) }, None);
            }
            "poll" => {
                c.ev(&lk, E::Poll);
                c.proc_.set(1);
                let rx = lk.as_impl().clone();
                futures::executor::block_on(async move {
                    loop {
                        rx.poll().await;
                    }
                });
            }
            "save" => {
                do_save(&h, &env, p, x, idxs(&o));
            }
            _ => std::thread::sleep(Duration::from_micros(x.unsigned_abs())),
        }
        if !matches!(o.code.as_str(), "save" | "sleep") {
            do_list(&c, &lk);
        }
    }
    do_process(&c, &lk);
    do_list(&c, &lk);
    rts.get()[a].done = true;
    // closing everything ends everything
    do_close(&c, &lk, vec![], true);
    do_list(&c, &lk);
}

// ---------------------------------------------------------------- reference
#[derive(PartialEq, Clone, Copy, Debug)]
enum Ph {
    Db,
    Live,
    Gone,
}
struct I {
    s: Spec,
    ph: Ph,
    begun: bool,
    db: Vec<Facts>,
    origin: Option<H32>,
    k: usize,
    nth: u32,
    nthnew: u32,
    cursor: u64,
    links: VecDeque<H32>,
    link_brk: bool,
    calls: u32,
    brk: bool,
    exhausted: bool,
    past_hi: bool,
    closing: Option<u64>,
    opt: bool,
    /// something that could end it happened before its registration returned
    maybe: bool,
    /// may have been replaced by a watch of which it is not known whether it was registered
    replaced: bool,
    lower: bool,
    last_i: u64,
    last_new: u64,
}
fn last(f: &str, preds: &[Pred]) -> u64 {
    if limit_ok(1_000_000, f, preds) {
        return u64::MAX;
    }
    // the greatest index the comparisons allow
    let mut m = u64::MAX;
    for p in preds.iter().filter(|p| p.field == f) {
        let v = u32::from_be_bytes(p.val.clone().try_into().unwrap()) as u64;
        m = m.min(match p.op.as_str() {
            "=" | "<=" => v,
            "<" => v.saturating_sub(1),
            _ => u64::MAX,
        });
    }
    m
}
/// no index is allowed at all
fn never(f: &str, preds: &[Pred]) -> bool {
    let l = last(f, preds);
    l != u64::MAX && !(0..=l.min(1000) as u32).any(|n| limit_ok(n, f, preds))
}
impl I {
    /// the snapshot of the registration is the reader's when the previous holder of the name has been told
    fn begin(&mut self, log: &[Facts], head: u64) {
        if self.begun {
            return;
        }
        self.begun = true;
        let mut noi = self.s.preds.clone();
        noi.retain(|p| p.field != "i");
        let seen: Vec<Facts> = log.iter().filter(|f| f.recv <= head).cloned().collect();
        let cand = answer(&seen, self.s.tab, self.s.asc, &noi);
        self.db = answer(&seen, self.s.tab, self.s.asc, &self.s.preds);
        self.cursor = head;
        self.nth = (cand.len() as u64).min(self.last_i.saturating_add(1)) as u32;
        self.upd();
    }
    fn upd(&mut self) {
        if self.nth as u64 > self.last_i || self.nthnew as u64 > self.last_new || never("i", &self.s.preds) || never("i_new", &self.s.preds) {
            self.exhausted = true;
        }
    }
    /// the next entry up to `head` that has to be delivered; entries that only count are taken
    fn next(&mut self, log: &[Facts], head: u64) -> Option<Facts> {
        for f in log.iter().filter(|f| f.recv <= head) {
            if f.recv <= self.cursor || self.exhausted {
                continue;
            }
            if self.s.hi.map(|h| f.recv > h).unwrap_or(false) {
                self.past_hi = true;
                return None;
            }
            if !satisfies(f, &self.s.preds) {
                self.cursor = f.recv;
                continue;
            }
            if limit_ok(self.nth, "i", &self.s.preds) && limit_ok(self.nthnew, "i_new", &self.s.preds) {
                return Some(f.clone());
            }
            self.take(f.recv);
        }
        None
    }
    fn take(&mut self, recv: u64) {
        self.cursor = recv;
        self.nth += 1;
        self.nthnew += 1;
        self.upd();
    }
}
type V = Vec<(&'static str, &'static str, String)>;

pub struct Judge<'a> {
    pub rt: &'a Rt,
    pub log: &'a [Facts],
    pub committed: &'a BTreeMap<H32, u64>,
    pub name: String,
}
struct W {
    qid: Option<Vec<u8>>,
    inst: Option<usize>,
    opt: bool,
    first: Option<u64>,
    late: bool,
    nested: bool,
    /// inside of a callback for a new packet
    inlive: bool,
}
impl<'a> Judge<'a> {
    fn what(&self, i: usize) -> String {
        let s = &self.rt.specs[i];
        format!("watch {i} ({}) {}{}", String::from_utf8_lossy(&s.qid), show_q(s.tab, s.asc, &s.preds), if s.follow { " follow" } else { "" })
    }
    /// `rest`: the runtime is parked and everything up to this head has been announced to it
    pub fn run(&self, rest: Option<u64>, stats: &mut BTreeMap<&'static str, u64>) -> V {
        let mut v: V = vec![];
        let mut is: BTreeMap<usize, I> = BTreeMap::new();
        let log = self.log;
        let mut depth = 0;
        let mut upto = 0u64;
        let mut waits: Vec<W> = vec![];
        let mut closes: Vec<Vec<usize>> = vec![];
        let mut starts: Vec<Vec<usize>> = vec![];
        let mut polling = false;
        let mut live_calls = 0;
        let mut open: Vec<bool> = vec![];
        let name = |h: &H32| hx(h);
        for e in &self.rt.evs {
            if !v.is_empty() {
                return v;
            }
            if upto == 0 {
                upto = e.head;
            }
            match &e.e {
                E::Start { i } => {
                    let s = self.rt.specs[*i].clone();
                    let x = I {
                        last_i: last("i", &s.preds),
                        last_new: last("i_new", &s.preds),
                        lower: s.preds.iter().any(|p| (p.field == "i" || p.field == "i_new") && !["<", "<="].contains(&p.op.as_str()) && p.val.iter().any(|b| *b != 0)) || s.preds.iter().any(|p| (p.field == "i" || p.field == "i_new") && p.op == ">"),
                        s,
                        ph: Ph::Db,
                        begun: false,
                        db: vec![],
                        origin: None,
                        k: 0,
                        nth: 0,
                        nthnew: 0,
                        cursor: e.head,
                        links: VecDeque::new(),
                        link_brk: false,
                        calls: 0,
                        brk: false,
                        exhausted: false,
                        past_hi: false,
                        closing: None,
                        opt: false,
                        maybe: false,
                        replaced: false,
                    };
                    // the previous holder of the name ends
                    let mut ended = vec![];
                    for (j, o) in is.iter_mut() {
                        if o.ph == Ph::Db && o.s.qid == x.s.qid {
                            o.maybe = true;
                        }
                        if o.ph == Ph::Live && o.s.qid == x.s.qid {
                            if o.closing.is_none() {
                                ended.push(*j);
                            }
                            o.closing.get_or_insert(e.head);
                        }
                    }
                    starts.push(ended);
                    is.insert(*i, x);
                }
                E::Ret { i, r } => {
                    let ended = starts.pop().unwrap();
                    let x = is.get_mut(i).unwrap();
                    x.begin(log, e.head);
                    let q = x.s.qid.clone();
                    let n = match r {
                        Ok(n) => *n,
                        Err(er) => {
                            v.push(("C20", "watch-error", format!("{} was not accepted: {er}", self.what(*i))));
                            continue;
                        }
                    };
                    if !x.brk && !x.links.is_empty() {
                        v.push(("C24", "link-missed", format!("{} was not given the linked packet {}", self.what(*i), name(&x.links[0]))));
                        continue;
                    }
                    if !x.brk && x.k < x.db.len() {
                        v.push(("C20", "stored-missed", format!("{} was not given {} which was in the database when it began", self.what(*i), name(&x.db[x.k].hash))));
                        continue;
                    }
                    if !x.brk && depth == 0 {
                        // anything processed while the callback ran must not fall in between
                        if let Some(f) = x.next(log, upto) {
                            v.push(("C20", "gap", format!("{} was not given {} which was stored while its callback ran for older packets", self.what(*i), name(&f.hash))));
                            continue;
                        }
                    }
                    let count = x.calls as i32;
                    if x.s.hi.map(|h| e.rt >= h || e.head >= h).unwrap_or(false) || x.past_hi {
                        x.opt = true;
                    }
                    // a bound in time which may have passed: a count above zero says it is not registered
                    let gone = x.brk || x.exhausted || x.opt && n > 0;
                    let unsure = x.opt && n == 0;
                    let want = if x.opt && !gone { [count, -count] } else if gone { [count; 2] } else { [-count; 2] };
                    if !x.s.follow && !want.contains(&n) {
                        v.push(("C21", "watch-result", format!("{} was called {count} times and is {}; registering it returned {n}", self.what(*i), if gone { "finished" } else { "registered" })));
                        continue;
                    }
                    if x.s.follow && (gone && n < 0 || !gone && !x.opt && n > 0) {
                        v.push(("C21", "watch-result", format!("{} is {}; registering it returned {n}", self.what(*i), if gone { "finished" } else { "registered" })));
                        continue;
                    }
                    let told = x.ph == Ph::Gone;
                    x.ph = if gone || told { Ph::Gone } else { Ph::Live };
                    *stats.entry(if gone { "rt_watch_done_in_db" } else { "rt_watch_registered" }).or_default() += 1;
                    let opt = is[i].opt;
                    for (j, o) in is.iter_mut() {
                        if j != i && o.ph == Ph::Live && o.s.qid == q && !gone && !told {
                            // registered by a callback of this very registration
                            o.opt |= opt;
                            if unsure {
                                o.replaced = true;
                            } else {
                                o.closing.get_or_insert(e.head);
                            }
                        }
                    }
                    if depth == 0 {
                        for j in ended {
                            if is[&j].ph == Ph::Live && !is[&j].opt {
                                v.push(("C21", "not-stopped", format!("{} was replaced but never told", self.what(j))));
                            }
                        }
                    }
                }
                E::Call { i, hash, recv, linked } => {
                    *stats.entry("rt_call").or_default() += 1;
                    let what = self.what(*i);
                    let x = is.get_mut(i).unwrap();
                    open.push(x.ph == Ph::Live);
                    live_calls += (x.ph == Ph::Live) as u32;
                    x.calls += 1;
                    x.begin(log, e.head);
                    if x.ph == Ph::Gone || x.brk {
                        v.push(("C21", "called-after-end", format!("{what} was called with {} after it ended", name(hash))));
                        continue;
                    }
                    if let Some(l) = x.links.pop_front() {
                        *stats.entry("rt_followed").or_default() += 1;
                        if l != *hash {
                            v.push(("C24", "link-missed", format!("{what} was given {} instead of the linked packet {}", name(hash), name(&l))));
                        } else if *linked != 1 {
                            v.push(("C24", "link-flag", format!("{what} was given the linked packet {} with flags {linked}", name(hash))));
                        }
                        continue;
                    }
                    if x.s.follow && *linked != 0 {
                        v.push(("C24", "link-extra", format!("{what} was given {} as a linked packet", name(hash))));
                        continue;
                    }
                    let want = if x.ph == Ph::Db && x.k < x.db.len() {
                        x.k += 1;
                        Some(x.db[x.k - 1].clone())
                    } else {
                        let f = x.next(log, e.head);
                        if let Some(f) = &f {
                            x.take(f.recv);
                        }
                        *stats.entry("rt_live_call").or_default() += 1;
                        f
                    };
                    match want {
                        Some(f) if f.hash == *hash => {
                            if f.recv != *recv {
                                v.push(("C20", "recv", format!("{what} was given {} as received at {recv} instead of {}", name(hash), f.recv)));
                            }
                            if x.closing.map(|c| f.recv > c).unwrap_or(false) {
                                v.push(("C21", "called-after-close", format!("{what} was called with {} which came after it was closed", name(hash))));
                            }
                            if x.s.follow {
                                x.origin = Some(*hash);
                            }
                        }
                        o => {
                            let sat = log.iter().find(|f| f.hash == *hash).map(|f| satisfies(f, &x.s.preds)).unwrap_or(false);
                            let class = if x.exhausted && o.is_none() {
                                ("C21", "called-after-limit")
                            } else if !sat {
                                ("C20", "not-matching")
                            } else if o.is_none() {
                                ("C20", "repeated")
                            } else {
                                ("C20", "missed")
                            };
                            v.push((class.0, class.1, format!("{what} was called with {} instead of {}", name(hash), o.map(|f| name(&f.hash)).unwrap_or("nothing".into()))));
                        }
                    }
                    for w in waits.iter_mut().filter(|w| !w.nested) {
                        if let Some(h) = w.first {
                            if e.head > h {
                                w.late = true;
                            }
                        } else if w.inst == Some(*i) {
                            w.first = Some(e.head);
                        }
                    }
                }
                E::CallRet { i, brk } => {
                    live_calls -= open.pop().unwrap_or(false) as u32;
                    let x = is.get_mut(i).unwrap();
                    if let Some(h) = x.origin.take() {
                        // what the reader holds when the links are read
                        let full = log.iter().find(|g| g.hash == h).unwrap();
                        x.links = full.links.iter().filter(|l| log.iter().any(|g| g.hash == **l && g.recv <= e.head)).copied().collect();
                    }
                    if *brk {
                        x.brk = true;
                    }
                }
                E::Stop { i, reason, total, new } => {
                    *stats.entry(["rt_stop_break", "rt_stop_finish", "rt_stop_replaced", "rt_stop_closed"][*reason as usize]).or_default() += 1;
                    let what = self.what(*i);
                    // replaced at the end of a registration that began earlier
                    let q = self.rt.specs[*i].qid.clone();
                    let replacing = is.iter().any(|(j, o)| j != i && o.ph == Ph::Db && o.s.qid == q);
                    let x = is.get_mut(i).unwrap();
                    if x.ph == Ph::Live && (replacing || x.replaced) {
                        x.closing.get_or_insert(e.head);
                    }
                    if x.ph == Ph::Gone && !(x.brk || x.exhausted) {
                        v.push(("C21", "stopped-twice", format!("{what} was told twice that it ended")));
                        continue;
                    }
                    if x.ph == Ph::Db && x.maybe {
                        x.closing.get_or_insert(e.head);
                    }
                    if x.ph == Ph::Db && x.closing.is_none() {
                        v.push(("C21", "stopped-early", format!("{what} was told it ended before it was registered")));
                        continue;
                    }
                    if !x.brk {
                        if let Some(f) = x.next(log, e.head) {
                            // with an end of the bound inside the batch nothing before it may be left out
                            if *reason == 1 && x.closing.is_none() && x.s.hi.map(|h| f.recv > h).unwrap_or(true) {
                                v.push(("C21", "finished-early", format!("{what} was finished though {} was still due", name(&f.hash))));
                                continue;
                            }
                        }
                    }
                    let mut ok = vec![];
                    if x.brk {
                        ok.push(0);
                    }
                    if x.exhausted || x.past_hi || x.s.hi.map(|h| e.rt >= h).unwrap_or(false) {
                        ok.push(1);
                    }
                    if x.closing.is_some() {
                        ok.push(2);
                        ok.push(3);
                    }
                    if !ok.contains(reason) {
                        let c = if ok.is_empty() { "stopped-without-cause" } else { "wrong-reason" };
                        v.push(("C21", c, format!("{what} was told it ended by {} but the possible reasons are {ok:?}", ["break", "finish", "replacement", "close"][*reason as usize])));
                        continue;
                    }
                    if !x.lower && !x.s.follow && (*total != x.calls || *new > x.calls) {
                        v.push(("C21", "stop-counts", format!("{what} was called {} times but told {total}", x.calls)));
                        continue;
                    }
                    if !x.brk && !x.links.is_empty() {
                        v.push(("C24", "link-missed", format!("{what} ended without being given the linked packet {}", name(&x.links[0]))));
                        continue;
                    }
                    // a bound in time ends a watch only after everything that was stored before it
                    if *reason == 1 && !x.exhausted && x.closing.is_none() {
                        if let (Some(hi), Some(f)) = (x.s.hi, x.next(log, u64::MAX)) {
                            if self.committed.get(&f.hash).map(|t| *t < hi).unwrap_or(false) && !x.opt {
                                v.push(("C20", "missed-before-bound", format!("{what} ended without being given {} which was stored {} µs before its bound", name(&f.hash), hi - self.committed[&f.hash])));
                                continue;
                            }
                        }
                    }
                    x.ph = Ph::Gone;
                    x.exhausted = false;
                    x.brk = false;
                }
                E::Close { qid, range } => {
                    let mut l = vec![];
                    for (j, x) in is.iter_mut() {
                        if x.ph == Ph::Db {
                            x.maybe = true;
                        }
                        if x.ph == Ph::Live && (x.s.qid == *qid || *range && x.s.qid.starts_with(qid)) {
                            if x.closing.is_none() {
                                l.push(*j);
                            }
                            x.closing.get_or_insert(e.head);
                        }
                    }
                    closes.push(l);
                }
                E::CloseRet => {
                    let l = closes.pop().unwrap();
                    if depth == 0 {
                        for j in l {
                            if is[&j].ph == Ph::Live && !is[&j].opt {
                                v.push(("C21", "not-stopped", format!("{} was closed but never told", self.what(j))));
                            }
                        }
                    }
                }
                E::Proc => depth += 1,
                E::Poll => {
                    depth += 1;
                    polling = true;
                }
                E::ProcRet { r } => {
                    depth -= 1;
                    if *r != e.head {
                        v.push(("C20", "process-result", format!("processing reported {r} but the reader is at {}", e.head)));
                    }
                    if depth == 0 {
                        upto = e.head;
                        self.sync(&mut is, e.head, &mut v, "C20", closes.is_empty() && starts.is_empty());
                    }
                }
                E::Wait { qid, .. } => {
                    let inst = qid.as_ref().and_then(|q| is.iter().find(|(_, x)| x.ph == Ph::Live && x.closing.is_none() && x.s.qid == *q).map(|x| *x.0));
                    let opt = inst.map(|j| is[&j].opt || is[&j].s.hi.is_some()).unwrap_or(false);
                    waits.push(W { qid: qid.clone(), inst, opt, first: None, late: false, nested: depth > 0, inlive: live_calls > 0 });
                    depth += 1;
                }
                E::WaitRet { r, past } => {
                    depth -= 1;
                    let w = waits.pop().unwrap();
                    if depth == 0 {
                        upto = e.head;
                        self.sync(&mut is, e.head, &mut v, "C20", closes.is_empty() && starts.is_empty());
                        if !v.is_empty() {
                            return v;
                        }
                    }
                    let q = w.qid.as_ref().map(|q| format!("'{}'", String::from_utf8_lossy(q))).unwrap_or("no watch".into());
                    let live = |j: usize| is[&j].ph == Ph::Live && is[&j].closing.is_none();
                    let bad = match r {
                        Err(m) => (!w.nested && (w.qid.is_none() || w.inst.is_some() && !w.opt)).then(|| format!("failed: {m}")),
                        Ok(_) if w.inlive => Some("was accepted inside a callback".into()),
                        // from a callback for a stored packet
                        Ok(_) if w.nested => None,
                        Ok(n) => {
                            *stats
                                .entry(match n {
                                    0 => "rt_wait_timeout",
                                    1 => "rt_wait_ended",
                                    _ => "rt_wait_matched",
                                })
                                .or_default() += 1;
                            match (*n, w.inst) {
                                (0, _) if !*past => Some("timed out before its deadline".into()),
                                (0, Some(j)) if !live(j) && !is[&j].opt => Some("timed out though the watch had ended".into()),
                                (0, Some(j)) if w.first.is_some() && !is[&j].lower && !is[&j].opt => Some("timed out though the watch had matched".into()),
                                (0, None) if w.qid.is_some() => Some("waited for an unknown watch".into()),
                                (0, _) => None,
                                (1, Some(j)) if live(j) && !is[&j].opt => Some("said the watch ended though it is registered".into()),
                                (1, None) if w.qid.is_some() => Some("waited for an unknown watch".into()),
                                (1, None) if is.iter().any(|(_, x)| x.ph == Ph::Live && !x.opt && x.closing.is_none()) => Some("said there are no watches".into()),
                                (1, _) => None,
                                (-1, None) => Some("said that nothing matched".into()),
                                (-1, Some(j)) if !live(j) && !is[&j].opt => Some("said the watch is registered though it ended".into()),
                                (-1, Some(j)) if w.first.is_none() && !is[&j].lower && !is[&j].opt => Some("said the watch matched though it did not".into()),
                                (-1, _) => None,
                                _ => Some(format!("returned {n}")),
                            }
                        }
                    };
                    if let Some(b) = bad {
                        v.push(("C22", "wait-result", format!("waiting for {q} {b} ({})", w.inst.map(|j| self.what(j)).unwrap_or_default())));
                    } else if w.late && r.is_ok() {
                        v.push(("C22", "late", format!("waiting for {q} went on after the watch had matched")));
                    }
                }
                E::List { ids } => {
                    let mut have = ids.clone();
                    have.sort();
                    let must: Vec<&Vec<u8>> = is.values().filter(|x| x.ph == Ph::Live && !x.opt).map(|x| &x.s.qid).collect();
                    let may: Vec<&Vec<u8>> = is.values().filter(|x| x.ph == Ph::Live).map(|x| &x.s.qid).collect();
                    let s = |l: &[&Vec<u8>]| l.iter().map(|q| String::from_utf8_lossy(q).to_string()).collect::<Vec<_>>().join(",");
                    let refs: Vec<&Vec<u8>> = have.iter().collect();
                    if have.windows(2).any(|w| w[0] == w[1]) || must.iter().any(|m| !have.contains(m)) || have.iter().any(|q| !may.contains(&q)) {
                        v.push(("C21", "registered", format!("the registered watches are [{}] instead of [{}]", s(&refs), s(&must))));
                    }
                }
            }
        }
        if v.is_empty() {
            if let (Some(head), true) = (rest, depth > 0) {
                *stats.entry(if polling { "rt_parked_polling" } else { "rt_parked_waiting" }).or_default() += 1;
                self.sync(&mut is, head, &mut v, "C23", true);
                if let (Some(w), true) = (waits.last(), v.is_empty()) {
                    let q = w.qid.as_ref().map(|q| String::from_utf8_lossy(q).to_string());
                    if let Some(j) = w.inst {
                        if w.first.is_some() && !is[&j].lower {
                            v.push(("C22", "hang", format!("waiting for '{}' did not return though it matched", q.unwrap())));
                        } else if is[&j].ph == Ph::Gone {
                            v.push(("C22", "hang", format!("waiting for '{}' did not return though it ended", q.unwrap())));
                        }
                    } else if w.qid.is_none() && !is.values().any(|x| x.ph == Ph::Live) {
                        v.push(("C22", "hang", "waiting for any watch did not return though none is registered".into()));
                    }
                }
            }
        }
        v.truncate(1);
        v
    }
    fn sync(&self, is: &mut BTreeMap<usize, I>, head: u64, v: &mut V, p: &'static str, top: bool) {
        for (i, x) in is.iter_mut().filter(|x| x.1.ph == Ph::Live) {
            let what = self.what(*i);
            if x.brk {
                v.push(("C21", "not-stopped", format!("{what} was not ended though its callback broke")));
            } else if !x.links.is_empty() {
                v.push(("C24", "link-missed", format!("{what} was not given the linked packet {}", hx(&x.links[0]))));
            } else if x.closing.is_some() {
                if !x.opt && top {
                    v.push(("C21", "not-stopped", format!("{what} was closed or replaced but never told")));
                }
            } else {
                let n = x.next(self.log, head);
                if x.exhausted {
                    v.push(("C21", "not-stopped", format!("{what} was not ended though its limit is reached")));
                } else if let Some(f) = n {
                    if !x.opt {
                        let m = if p == "C23" { "the waiting runtime sleeps though" } else { "after processing" };
                        v.push((p, if p == "C23" { "sleeps" } else { "missed" }, format!("{m} {} is stored and was not given to {what}", hx(&f.hash))));
                    }
                }
            }
        }
    }
}

pub struct RtScn;
impl Scenario for RtScn {
    fn name(&self) -> &'static str {
        "rt"
    }
    fn crash_prop(&self) -> &'static str {
        "C22"
    }
    fn gen(&self, r: &mut Rng, prop: &str) -> Plan {
        let mut p = Plan::new("rt");
        p.gen_sched(r);
        p.set("k.max_steps", 400_000);
        p.set("empty", 1);
        p.set("nolns", 1);
        if r.chance(1, 4) {
            p.set("k.net_delay_pm", r.pick(&[100, 500]));
            p.set("k.net_delay_max_us", r.pick(&[100, 5000]));
            p.set("k.net_dup_pm", r.pick(&[0, 200]));
        }
        if r.chance(1, 6) {
            p.set("k.net_drop_pm", r.pick(&[50, 400]));
        }
        if r.chance(1, 8) {
            p.set("k.jump_den", 300);
            p.set("k.jump_kinds", 3);
        }
        if r.chance(1, 5) {
            p.set("k.max_kills", 1);
            p.set("kill_den", r.pick(&[20, 100]));
        }
        // few packets, so that queries and packets meet
        let base = r.range(0, N as i64 - 1);
        let span = r.pick(&[6, 12, 30, N as i64]);
        let pk = |r: &mut Rng| (base + r.range(0, span - 1)) % N as i64;
        for _ in 0..r.range(1, 5) {
            let mut a = vec![r.range(0, 4), r.range(0, 7), r.chance(if prop == "C24" { 3 } else { 1 }, 4) as i64];
            a.push(if r.chance(1, 4) { r.range(1, 6) } else { 0 });
            let act = r.chance(2, 5);
            a.push(if !act { 0 } else { r.pick(&[1, 1, 2, 3, -1, -1]) });
            a.push(r.pick(&[1, 2, 3, 3, 4, 4, 5, 6]));
            a.push(r.range(0, 5));
            a.push(r.range(0, 400));
            a.push(if r.chance(1, 5) { r.pick(&[1, 30, 200, 1000, 20_000]) } else { 0 });
            for _ in 0..r.pick(&[0, 0, 1, 1, 2]) {
                // groups, domains and prefixes of the packets, and limits
                let f = r.pick(&[0, 1, 2, 3, 4, 5, 6, 10, 18, 18, 20, 21, 22, 22, 24, 24]);
                if f == 24 {
                    // i_new is not in the list of fields a database query has
                    a.extend_from_slice(&[-1, 0, r.range(0, 4), r.range(0, 5)]);
                } else {
                    a.extend_from_slice(&[f, r.pick(&[0, 0, 0, 1, 2, 3, 4, 7]), pk(r), r.range(0, 15)]);
                }
            }
            p.op(5, "spec", &a);
        }
        let saver = |p: &mut Plan, w: u32, n: i64, r: &mut Rng| {
            for _ in 0..n {
                let mut args = vec![r.range(0, 5)];
                for _ in 0..r.pick(&[1, 1, 2, 5]) {
                    args.push(pk(r));
                }
                p.op(w, "save", &args);
                if r.chance(1, 3) {
                    p.op(w, "sleep", &[r.pick(&[1, 50, 400])]);
                }
            }
        };
        for w in 0..r.range(1, 2) as u32 {
            let n = r.range(1, 6);
            saver(&mut p, w, n, r);
        }
        for w in 0..r.range(1, 2) as u32 {
            for _ in 0..r.range(2, 10) {
                match r.below(16) {
                    0..=4 => p.op(10 + w, "watch", &[r.range(0, 5)]),
                    5..=7 => p.op(10 + w, "process", &[]),
                    8 => p.op(10 + w, "close", &[r.range(0, 4)]),
                    9 => p.op(10 + w, "close_range", &[r.range(0, 5)]),
                    10 => saver(&mut p, 10 + w, 1, r),
                    11 => p.op(10 + w, "sleep", &[r.pick(&[1, 50, 500])]),
                    _ => p.op(10 + w, "wait", &[r.range(0, 4), r.range(0, 2), r.pick(&[0, 1, 30, 300, 3000])]),
                }
            }
        }
        for w in 0..r.range(0, 2) as u32 {
            for _ in 0..r.range(1, 3) {
                p.op(20 + w, "watch", &[r.range(0, 5)]);
            }
            if r.chance(1, 3) {
                p.op(20 + w, "process", &[]);
            }
            p.op(20 + w, if r.chance(1, 3) { "poll" } else { "forever" }, &[r.range(0, 4), r.range(0, 2)]);
        }
        p.set("same", r.chance(1, 3) as i64);
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        prep_env(plan);
        let h: Shared<Hist> = Shared::new(Hist::default());
        // runtimes and writers in one process or in two
        let same = plan.get("same") == 1;
        let mut ps = vec![k::new_proc("rt", 3001)];
        if !same {
            ps.push(k::new_proc("writer", 3000));
        }
        let o: Vec<usize> = ps.iter().map(|p| open_in(&h, *p)).collect();
        let w = k::ctl_join(&o, Some(k::now_ns() + 20_000_000_000));
        if w != k::Wake::Woken || h.get().envs.len() != ps.len() {
            out.viol("C14", "open-failed", format!("{w:?}"));
            return;
        }
        let rts: Rts = Shared::new(vec![]);
        let specs = plan.ops_of(5);
        let (mut ts, mut daemons) = (vec![], vec![]);
        for a in plan.actors().into_iter().filter(|a| *a != 5) {
            let (h2, ops) = (h.clone(), plan.ops_of(a));
            if a < 10 {
                let p = ps[ps.len() - 1];
                if !same {
                    k::sim().procs[p].kill_den = plan.get("kill_den") as u64;
                }
                ts.push(k::spawn_in(p, "w", move || run_ops(h2, p, ops)));
            } else {
                let p = ps[0];
                let n = rts.get().len();
                rts.get().push(Rt { p, ..Default::default() });
                let (r2, specs) = (rts.clone(), specs.clone());
                let t = k::spawn_in(p, "rt", move || actor(h2, r2, n, p, specs, ops));
                if a < 20 {
                    ts.push(t);
                } else {
                    daemons.push(t);
                }
            }
        }
        let mut w = k::ctl_join(&ts, Some(k::now_ns() + 60_000_000_000));
        if w == k::Wake::Woken {
            w = k::ctl_quiesce(2_000_000_000);
            if w != k::Wake::StepLimit {
                w = k::Wake::Woken;
            }
        }
        let lossy = plan.get("k.net_drop_pm") + plan.get("k.max_kills") > 0;
        let mut rest = w == k::Wake::Woken;
        if rest && lossy {
            // the announcement after the faults brings everybody up to date
            k::sim().faults_off = true;
            let (h2, p) = (h.clone(), k::new_proc("last", 3002));
            let t = open_in(&h, p);
            k::ctl_join(&[t], Some(k::now_ns() + 20_000_000_000));
            if h.get().envs.contains_key(&p) {
                let t = k::spawn_in(p, "last", move || {
                    let env = h2.get().envs[&p].clone();
                    for i in 0..N {
                        if do_save(&h2, &env, p, 0, vec![i]).map(|r| r.0 < r.1).unwrap_or(false) {
                            break;
                        }
                    }
                });
                k::ctl_join(&[t], Some(k::now_ns() + 5_000_000_000));
                rest = k::ctl_quiesce(2_000_000_000) != k::Wake::StepLimit;
            } else {
                rest = false;
            }
        }
        let asleep: Vec<k::Tid> = daemons.iter().copied().filter(|d| k::thread_at_rest(*d)).collect();
        k::sim().faults_off = true;
        if w == k::Wake::StepLimit || k::sim().step_limited {
            out.probe("no_rest");
        } else if w != k::Wake::Woken {
            let l: Vec<String> = ts.iter().filter(|t| !k::thread_over(**t)).map(|t| k::sim().threads[*t].name.clone()).collect();
            out.viol("C22", "hang", format!("{l:?} do not end: {w:?}"));
        }
        // what is stored
        let fin: Shared<Vec<Facts>> = Shared::new(vec![]);
        {
            let (h2, f2, p) = (h.clone(), fin.clone(), k::new_proc("reader", 3009));
            let t = k::spawn_in(p, "reader", move || {
                let _ = &h2;
                if let Ok(e) = BTreeEnv::open(std::path::PathBuf::from(DIR), false) {
                    if let Ok(t) = e.new_read_txn() {
                        f2.get().extend(t.local_pkt_log(Stamp::ZERO).map(|p| facts(&p.pkt, p.recv.get())));
                    }
                }
            });
            k::sim().step_limited = false;
            k::sim().cfg.max_steps += 200_000;
            k::ctl_join(&[t], Some(k::now_ns() + 20_000_000_000));
            if !k::thread_over(t) {
                out.probe("no_final_read");
                return;
            }
        }
        let log = fin.get().clone();
        let head = log.last().map(|f| f.recv).unwrap_or(0);
        let mut committed: BTreeMap<H32, u64> = BTreeMap::new();
        let jumps = plan.get("k.jump_den") != 0;
        for s in &h.get().saves {
            if let (Some(r), false) = (&s.ret, jumps) {
                if r.res.is_ok() {
                    for i in &s.idxs {
                        let t = committed.entry(pool().pkts[*i].hash_ref().0).or_insert(u64::MAX);
                        *t = (*t).min(r.us);
                    }
                }
            }
        }
        let mut stats = BTreeMap::new();
        for (n, rt) in rts.get().iter().enumerate() {
            if rt.evs.is_empty() {
                continue;
            }
            let parked = rest && asleep.contains(&rt.tid);
            let j = Judge { rt, log: &log, committed: &committed, name: format!("rt{n}") };
            for v in j.run(parked.then_some(head), &mut stats) {
                out.viol(v.0, v.1, format!("{} {}", j.name, v.2));
            }
        }
        for (n, c) in stats {
            out.probe_n(n, c);
        }
        for v in h.get().viols.drain(..) {
            out.viol(v.0, &v.1, v.2);
        }
        for p in k::sim().panics.iter().filter(|p| p.0 != 0) {
            for pr in ["C20", "C21", "C22", "C23", "C24"] {
                out.viol(pr, "panic", format!("{} {}", p.2, p.3));
            }
        }
    }
}
