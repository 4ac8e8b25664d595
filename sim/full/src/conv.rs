//! Conventions: status requests, their services, and pull requests between processes.
use crate::pool::signing_key;
use crate::store::*;
use linkspace::conventions::pull::{lk_pull, lk_pull_point};
use linkspace::conventions::status::*;
use linkspace::consts::EXCHANGE_DOMAIN;
use linkspace::prelude::*;
use linkspace::query::{lk_query, lk_query_parse, lk_query_print, lk_query_push, Query, Q};
use linkspace::runtime::cb::{PktHandler, StopReason};
use linkspace::Linkspace;
use linkspace_core::prelude::lmdb::BTreeEnv;
use linkspace_pkt::*;
use lksim_engine::*;
use lksim_kernel as k;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::time::Duration;

const TYPES: [&[u8]; 2] = [b"process", b"pull"];
const INST: [&[u8]; 3] = [b"default", b"a", b"b"];
/// microseconds a poll waits after its request
const TMO: [u64; 5] = [300, 2_000, 20_000, 100_000, 400_000];
fn grp(i: i64) -> GroupID {
    B64([7 + (i & 1) as u8; 32])
}
fn dom(i: i64) -> Domain {
    if i & 1 == 0 {
        EXCHANGE_DOMAIN
    } else {
        ab(b"other")
    }
}
/// what a status is about; the instance is 0 for all of them
#[derive(Clone, Copy, Debug, PartialEq)]
struct Tgt {
    dom: i64,
    grp: i64,
    ty: i64,
    inst: i64,
}
impl Tgt {
    fn new(n: i64, inst: i64) -> Tgt {
        Tgt { dom: n & 1, grp: n >> 1 & 1, ty: n >> 2 & 1, inst: inst.rem_euclid(4) }
    }
    fn lk<'o>(&self, qid: &'o [u8]) -> LkStatus<'o> {
        LkStatus { domain: dom(self.dom), group: grp(self.grp), objtype: TYPES[self.ty as usize], instance: (self.inst > 0).then(|| INST[self.inst as usize - 1]), qid }
    }
    fn comps(&self) -> Vec<Vec<u8>> {
        let mut v = vec![b"\xffstatus".to_vec(), grp(self.grp).0.to_vec(), TYPES[self.ty as usize].to_vec()];
        if self.inst > 0 {
            v.push(INST[self.inst as usize - 1].to_vec());
        }
        v
    }
}
#[derive(Debug)]
struct Rec {
    pos: u64,
    /// no later than this it was committed
    by: u64,
    hash: H32,
    group: H32,
    dom: [u8; 16],
    comps: Vec<Vec<u8>>,
    create: u64,
    links: usize,
    data: Vec<u8>,
}
impl Rec {
    fn at(&self, t: &Tgt) -> bool {
        self.group == PRIVATE.0 && self.dom == dom(t.dom).0
    }
    /// a request that is about exactly this
    fn asks(&self, t: &Tgt) -> bool {
        self.at(t) && self.comps == t.comps() && self.links == 0 && self.data.is_empty()
    }
    fn answers(&self, t: &Tgt) -> bool {
        self.at(t) && self.comps.starts_with(&t.comps()) && self.links > 0 && !self.data.is_empty()
    }
}
struct Poll {
    who: usize,
    t: Tgt,
    d: u64,
    brk: bool,
    view: u64,
    c0: u64,
    c1: u64,
    ok: Option<bool>,
    calls: Vec<(H32, bool)>,
    after_break: bool,
    /// whether it finished, when, and the number of calls
    stop: Vec<(bool, u64, u32)>,
}
struct Serv {
    who: usize,
    qid: i64,
    t: Tgt,
    view: u64,
    until: u64,
    ready: Option<u64>,
    replies: Vec<(H32, Option<H32>, bool)>,
}
struct Exch {
    who: usize,
    grp: i64,
    view: u64,
    all: bool,
    seen: Vec<H32>,
}
struct Pull {
    who: usize,
    text: String,
    spec: [i64; 4],
    c0: u64,
    c1: u64,
    ret: Option<Result<H32, String>>,
}
#[derive(Default)]
struct World {
    polls: Vec<Poll>,
    servs: Vec<Serv>,
    exch: Vec<Exch>,
    pulls: Vec<Pull>,
    noise: u64,
    idle: Vec<usize>,
    doing: BTreeMap<usize, String>,
    done: bool,
    finished: Vec<usize>,
    viols: Vec<(String, String)>,
}
type W = Shared<World>;
fn viol(w: &W, c: &str, d: String) {
    let v = &mut w.get().viols;
    if v.len() < 20 {
        v.push((c.into(), d));
    }
}
fn h4(h: &H32) -> String {
    h[..3].iter().map(|b| format!("{b:02x}")).collect()
}
struct PollCb {
    w: W,
    i: usize,
}
impl PktHandler for PollCb {
    fn handle_pkt(&mut self, pkt: &dyn NetPkt, _: &Linkspace) -> ControlFlow<()> {
        let h = pkt.hash().0;
        k::evh(|| format!("poll {} called with {}", self.i, h4(&h)));
        let p = &mut self.w.get().polls[self.i];
        if p.brk && !p.calls.is_empty() {
            p.after_break = true;
        }
        p.calls.push((h, p.ok.is_none()));
        if p.brk {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
    fn stopped(&mut self, _: Query, _: &Linkspace, r: StopReason, total: u32, _: u32) {
        k::evh(|| format!("poll {} stopped finish={}", self.i, matches!(r, StopReason::Finish)));
        let t = now().get();
        self.w.get().polls[self.i].stop.push((matches!(r, StopReason::Finish), t, total));
    }
}
fn pull_text(a: &[i64; 4]) -> String {
    let [g, d, q, v] = *a;
    let gt = format!("[b:{}]", grp(g).b64());
    let dt = if d & 1 == 0 { "[f:exchange]".to_string() } else { "other".into() };
    let mut s = String::new();
    if v == 9 {
        // options given again
        s += ":qid:old\n:mode:log-asc\n:mode:tree-desc\n:follow\n";
    }
    match v {
        0 => s += &format!("domain:=:{dt}\n"),
        1 => s += &format!("group:=:{gt}\n"),
        2 => s += &format!("group:>:{gt}\ndomain:=:{dt}\n"),
        _ => s += &format!("group:=:{gt}\ndomain:=:{dt}\n"),
    }
    match v {
        3 => s += ":follow\n",
        4 => s += "prefix:=:/hello/wor\\nld\ndepth:=:[u8:2]\n",
        5 => s += "create:>:[now:-10m]\ni_branch:<:[u32:3]\n",
        6 => s += ":mode:log-asc\nhop:<:[u32:5]\ni_db:<:[u32:0]\n",
        7 => s += "data_size:0:[u16:4]\nlinks_len:1:[u16:8]\n",
        8 => s += "pubkey:=:[b:AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA]\n:myoption:my/value\n",
        _ => {}
    }
    match q {
        0 => s += ":qid:chat\n",
        1 => s += ":qid:chat2\n",
        2 => s += ":qid:\\x00\\xff\\:[f:x]\\n\n",
        3 => {}
        4 => s += ":qid\n",
        _ => s += &format!(":qid:{}\n", "q".repeat([100, 180, 186, 187, 188, 189, 190, 250, 300][(q - 5) as usize % 9])),
    }
    s
}
fn pull_qid(q: i64, v: i64) -> Option<Vec<u8>> {
    match q {
        3 if v == 9 => Some(b"old".to_vec()),
        0 => Some(b"chat".to_vec()),
        1 => Some(b"chat2".to_vec()),
        2 => Some(b"\x00\xff:\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xffx\n".to_vec()),
        3 | 4 => None,
        _ => Some("q".repeat([100, 180, 186, 187, 188, 189, 190, 250, 300][(q - 5) as usize % 9]).into_bytes()),
    }
}
fn noise(n: i64, kind: i64, inst: i64, off: i64, id: u64) -> NetPktBox {
    let t = Tgt::new(n, inst);
    let mut c = t.comps();
    let mut g = PRIVATE;
    let mut links = vec![];
    let mut data: Vec<u8> = vec![];
    let mut d = dom(t.dom);
    let full = |l: &mut Vec<Link>, d: &mut Vec<u8>| {
        l.push(Link { tag: ab(b"prev"), ptr: B64([id as u8; 32]) });
        *d = format!("OK\nnoise {id}").into_bytes();
    };
    match kind {
        0 => g = PUBLIC,
        1 => data = b"?".to_vec(),
        2 => links.push(Link { tag: ab(b"x"), ptr: PUBLIC }),
        3 => c.push(b"deep".to_vec()),
        4 => {
            c.truncate(2);
        }
        5 => full(&mut links, &mut data),
        6 => {
            full(&mut links, &mut data);
            g = grp(t.grp);
        }
        7 => {}
        8 => d = ab(b"third"),
        9 => g = grp(t.grp),
        10 => c[0] = b"status".to_vec(),
        11 => {
            c.push(b"deep".to_vec());
            full(&mut links, &mut data);
        }
        _ => {
            c[2].push(b'2');
        }
    }
    let cr: Vec<&[u8]> = c.iter().map(|c| &c[..]).collect();
    let create = Stamp::new(now().get().saturating_sub(off as u64));
    if kind == 7 && off % 2 == 1 {
        return keypoint(g, d, &rspace_buf(&cr), &links, &data, create, &signing_key(90), ()).as_netbox();
    }
    linkpoint(g, d, &rspace_buf(&cr), &links, &data, create, ()).as_netbox()
}
struct User {
    w: W,
    who: usize,
    lk: Linkspace,
    open: Vec<usize>,
}
impl User {
    fn qid(i: usize) -> Vec<u8> {
        format!("poll{i}").into_bytes()
    }
    fn op(&mut self, o: &Op) {
        let w = self.w.clone();
        let a = |i| arg(o, i);
        match o.code.as_str() {
            "sleep" => std::thread::sleep(Duration::from_micros(a(0) as u64)),
            "noise" => {
                w.get().noise += 1;
                let p = noise(a(0), a(1), a(2), a(3), w.get().noise);
                if let Err(e) = lk_save(&self.lk, &p) {
                    viol(&w, "error", format!("saving fails: {e:#}"));
                }
            }
            "serve" => {
                let t = Tgt::new(a(0), a(1).rem_euclid(3) + 1);
                let view = lk_process(&self.lk).get();
                let qid = format!("serve{}", a(2));
                let i = w.get().servs.len();
                // an id that is used again ends what used it
                for s in w.get().servs.iter_mut() {
                    if s.who == self.who && s.qid == a(2) {
                        s.until = s.until.min(view);
                    }
                }
                w.get().servs.push(Serv { who: self.who, qid: a(2), t, view, until: u64::MAX, ready: None, replies: vec![] });
                let ww = w.clone();
                let mut st = t.lk(qid.as_bytes());
                if a(1) % 3 == 0 && a(3) % 2 == 0 {
                    st.instance = None;
                }
                let r = lk_status_set(&self.lk, st, move |_, d, g, sp, link| {
                    let n = ww.get().servs[i].replies.len();
                    k::evh(|| format!("service {i} is asked"));
                    let p = lk_linkpoint(format!("OK\nservice {i} answer {n}").as_bytes(), d, g, sp, &[link], None)?;
                    let s = &mut ww.get().servs[i];
                    let first = &link.tag == &ab(b"init") && link.ptr == PRIVATE;
                    let ok = d == dom(s.t.dom) && g == PRIVATE && sp.iter().map(|c| c.to_vec()).collect::<Vec<_>>() == s.t.comps() && (n == 0) == first;
                    s.replies.push((p.hash().0, (n > 0).then_some(link.ptr.0), ok));
                    Ok(p)
                });
                if let Err(e) = r {
                    viol(&w, "error", format!("lk_status_set fails: {e:#}"));
                }
                let t = now().get();
                w.get().servs[i].ready = Some(t);
            }
            "run" => {
                if !w.get().servs.is_empty() || !w.get().exch.is_empty() {
                    let r = lk_process_while(&self.lk, None, Stamp::new(a(0).max(1) as u64));
                    if let Err(e) = r {
                        viol(&w, "error", format!("lk_process_while fails: {e:#}"));
                    }
                }
            }
            "poll" => {
                let t = Tgt::new(a(0), a(1));
                let d = TMO[a(2).unsigned_abs() as usize % TMO.len()];
                let view = lk_process(&self.lk).get();
                let c0 = now().get();
                let i = w.get().polls.len();
                w.get().polls.push(Poll { who: self.who, t, d, brk: a(3) > 0, view, c0, c1: u64::MAX, ok: None, calls: vec![], after_break: false, stop: vec![] });
                let q = User::qid(i);
                let r = lk_status_watch(&self.lk, t.lk(&q), Stamp::new(d), PollCb { w: w.clone(), i });
                let c1 = now().get();
                let p = &mut w.get().polls[i];
                p.c1 = c1;
                match r {
                    Ok(b) => p.ok = Some(b),
                    Err(e) => viol(&w, "error", format!("lk_status_watch fails: {e:#}")),
                }
                self.open.push(i);
                if a(4) > 0 {
                    self.wait();
                }
            }
            "wait" => self.wait(),
            "pull" => {
                let spec = [a(0), a(1), a(2), a(3)];
                let text = pull_text(&spec);
                match lk_query_parse(lk_query(&Q), &text.lines().collect::<Vec<_>>(), ()) {
                    Err(e) => viol(&w, "error", format!("the query does not parse: {e:#}")),
                    Ok(q) => {
                        let c0 = now().get();
                        let text = lk_query_print(&q, false);
                        let i = w.get().pulls.len();
                        w.get().pulls.push(Pull { who: self.who, text: text.clone(), spec, c0, c1: u64::MAX, ret: None });
                        let r = lk_pull(&self.lk, &q);
                        let c1 = now().get();
                        let p2 = lk_pull_point(&q);
                        let p = &mut w.get().pulls[i];
                        p.c1 = c1;
                        p.ret = Some(r.map(|h| h.0).map_err(|e| format!("{e:#}")));
                        if p2.is_ok() != p.ret.as_ref().unwrap().is_ok() {
                            viol(&w, "pull", format!("lk_pull and lk_pull_point disagree on {text}"));
                        }
                    }
                }
                std::thread::sleep(Duration::from_micros(a(4).max(1) as u64));
            }
            "exch" => {
                let view = lk_process(&self.lk).get();
                let i = w.get().exch.len();
                let all = a(1) > 0;
                w.get().exch.push(Exch { who: self.who, grp: a(0), view, all, seen: vec![] });
                let mut q = lk_query(&Q);
                let sp = rspace_buf(&[b"pull", &*grp(a(0))]);
                let r: LkResult<i32> = (|| {
                    q = lk_query_push(q, "domain", "=", &*EXCHANGE_DOMAIN)?;
                    q = lk_query_push(q, "group", "=", &*PRIVATE)?;
                    q = lk_query_push(q, "prefix", "=", sp.space_bytes())?;
                    if all {
                        q = lk_query_push(q, "", "mode", b"log-asc")?;
                    } else {
                        q = lk_query_push(q, "i_db", "<", &*U32::ZERO)?;
                    }
                    q = lk_query_push(q, "", "qid", format!("exch{i}").as_bytes())?;
                    let ww = w.clone();
                    lk_watch(
                        &self.lk,
                        &q,
                        linkspace::runtime::cb::cb(move |p: &dyn NetPkt, _: &Linkspace| {
                            k::evh(|| format!("exchange {i} sees {}", h4(&p.hash().0)));
                            ww.get().exch[i].seen.push(p.hash().0);
                            false
                        }),
                    )
                })();
                if let Err(e) = r {
                    viol(&w, "error", format!("lk_watch fails: {e:#}"));
                }
            }
            _ => {}
        }
    }
    fn wait(&mut self) {
        for i in std::mem::take(&mut self.open) {
            loop {
                if !self.w.get().polls[i].stop.is_empty() {
                    break;
                }
                k::not_polling();
                match lk_process_while(&self.lk, Some(&User::qid(i)), Stamp::ZERO) {
                    Ok(1) => break,
                    Ok(_) => continue,
                    Err(_) => break,
                }
            }
        }
    }
}

fn stored(lk: &Linkspace) -> Vec<Rec> {
    let mut m = vec![];
    let commits: Vec<(usize, u64)> = lmdb_sys::history(DIR).iter().map(|c| (c.rows("pktlog"), c.us)).collect();
    let mut n = 0;
    for p in lk.as_impl().get_reader().local_pkt_log(Stamp::ZERO) {
        n += 1;
        let Some(h) = p.pkt.as_point().linkpoint_header() else { continue };
        m.push(Rec { pos: p.recv.get(), by: commits.iter().find(|c| c.0 >= n).map(|c| c.1).unwrap_or(u64::MAX), hash: p.pkt.hash_ref().0, group: h.group.0, dom: h.domain.0, comps: p.pkt.get_spacename().iter().map(|c| c.to_vec()).collect(), create: h.create_stamp.get(), links: p.pkt.get_links().len(), data: p.pkt.data().to_vec() });
    }
    m
}
fn judge_polls(out: &mut Out, w: &World, log: &[Rec], timed: bool) {
    for (n, p) in w.polls.iter().enumerate() {
        let Some(ok) = p.ok else { continue };
        out.probe(if ok { "poll_recent" } else { "poll_asks" });
        let what = || format!("poll {n} of {:?} timeout {} us", p.t, p.d);
        // what it may and must have seen when it began
        let (lo0, lo1) = (p.c0.saturating_sub(p.d), p.c1.saturating_sub(p.d));
        let old: Vec<&Rec> = log.iter().filter(|r| r.pos <= p.view).collect();
        let had: Vec<&&Rec> = old.iter().filter(|r| r.answers(&p.t) && r.create > lo0).collect();
        let sure = had.iter().any(|r| r.create > lo1);
        if timed {
            out.check(ok || !sure, "C34", "recent-missed", || format!("{}: there is a recent reply but lk_status_watch returns false", what()));
            out.check(!ok || !had.is_empty(), "C34", "recent-invented", || format!("{}: lk_status_watch says there is a recent reply but there is none", what()));
        }
        out.check(!p.after_break, "C34", "called-after-break", || format!("{}: the callback was called after it broke", what()));
        let first: Vec<&H32> = p.calls.iter().filter(|c| c.1).map(|c| &c.0).collect();
        let later: Vec<&H32> = p.calls.iter().filter(|c| !c.1).map(|c| &c.0).collect();
        for h in &first {
            out.check(old.iter().any(|r| r.hash == **h && r.answers(&p.t)), "C34", "no-reply", || format!("{}: called with {} which is no stored reply", what(), h4(h)));
        }
        if timed {
            for r in &had {
                if r.create > lo1 && !p.brk {
                    out.check(first.iter().any(|h| **h == r.hash), "C34", "recent-missed", || format!("{}: not called with the recent reply {}", what(), h4(&r.hash)));
                }
            }
        }
        let satisfied = p.brk && !first.is_empty();
        if satisfied {
            out.probe("poll_satisfied");
            continue;
        }
        // was a request made
        let asked: Vec<&&Rec> = old.iter().filter(|r| r.asks(&p.t)).collect();
        let mine: Vec<&Rec> = log.iter().filter(|r| r.asks(&p.t) && r.pos > p.view && r.create >= p.c0 && r.create <= p.c1).collect();
        if !timed {
            continue;
        }
        let last = asked.iter().filter(|r| r.create > lo0).map(|r| r.create).max();
        let surely_asked = last.is_some_and(|l| l > lo1);
        if last.is_none() {
            out.check(!mine.is_empty(), "C34", "no-request", || format!("{}: nobody asked within the timeout and no request was made", what()));
        }
        // when it ends
        let mut untils: Vec<u64> = last.iter().map(|l| l + p.d).collect();
        if !surely_asked {
            untils.extend(mine.iter().map(|r| r.create + p.d));
        }
        let (Some(umin), Some(umax)) = (untils.iter().min(), untils.iter().max()) else { continue };
        for s in &p.stop {
            if s.0 {
                out.probe("poll_timeout");
                out.check(s.1 + 1 >= *umin, "C34", "early-end", || format!("{}: ended at {} but the last request allows answers until {}", what(), s.1, umin));
            }
        }
        out.check(p.stop.len() <= 1, "C34", "stopped-twice", || format!("{}: stopped {} times", what(), p.stop.len()));
        // replies while it waits
        let reply = |r: &&Rec| r.pos > p.view && r.answers(&p.t) && r.create > lo0;
        let must: Vec<&Rec> = log.iter().filter(reply).filter(|r| r.by < umin - 1 && r.create > lo1).collect();
        let may: Vec<&Rec> = log.iter().filter(reply).filter(|r| r.pos < *umax).collect();
        for h in &later {
            out.check(may.iter().any(|r| r.hash == **h), "C34", "no-reply", || format!("{}: called with {} which is no reply within the time", what(), h4(h)));
        }
        let idx: Vec<usize> = later.iter().filter_map(|h| may.iter().position(|r| r.hash == **h)).collect();
        out.check(idx.windows(2).all(|x| x[0] < x[1]), "C34", "order", || format!("{}: replies repeated or out of order", what()));
        let ended = p.stop.iter().any(|s| s.0);
        let broke = p.brk && !later.is_empty();
        if ended || broke {
            for r in &must {
                if broke && later.iter().all(|h| may.iter().any(|m| m.hash == **h && m.pos < r.pos)) {
                    continue;
                }
                out.check(later.iter().any(|h| **h == r.hash), "C34", "reply-missed", || format!("{}: ended without the reply {}", what(), h4(&r.hash)));
            }
            out.probe("poll_judged");
        }
    }
}
fn judge_services(out: &mut Out, w: &World, log: &[Rec], timed: bool) {
    for (n, s) in w.servs.iter().enumerate() {
        let Some(ready) = s.ready else { continue };
        let what = || format!("service {n} of {:?}", s.t);
        let all = Tgt { inst: 0, ..s.t };
        let asks: Vec<&Rec> = log.iter().filter(|r| r.pos > s.view && r.pos <= s.until && (r.asks(&s.t) || r.asks(&all))).collect();
        out.check(s.replies.iter().all(|r| r.2), "C34", "reply-arguments", || format!("{}: asked for another group, domain or space than its own", what()));
        for x in s.replies.windows(2) {
            out.check(x[1].1 == Some(x[0].0), "C34", "reply-chain", || format!("{}: a reply does not link to the one before", what()));
        }
        out.check(s.replies.len() <= asks.len() + 1, "C34", "unasked", || format!("{}: {} requests are about it but it was asked {} times", what(), asks.len(), s.replies.len() as i64 - 1));
        out.probe_n("service_replies", s.replies.len() as u64);
        if !w.finished.contains(&s.who) {
            continue;
        }
        for r in &s.replies {
            out.check(log.iter().any(|l| l.hash == r.0), "C34", "reply-lost", || format!("{}: its reply is not stored", what()));
        }
        out.check(s.replies.len() == asks.len() + 1, "C34", "unanswered", || format!("{}: {} requests are about it but it answered {}", what(), asks.len(), s.replies.len() as i64 - 1));
        if s.until != u64::MAX || !timed {
            continue;
        }
        // whoever polled for it made it answer
        for (i, p) in w.polls.iter().enumerate() {
            if p.ok.is_none() || ready > p.c0.saturating_sub(p.d) || !(p.t == s.t || p.t == all) || (p.brk && p.calls.iter().any(|c| c.1)) {
                continue;
            }
            out.probe("poll_of_service");
            out.check(s.replies.iter().any(|r| log.iter().any(|l| l.hash == r.0 && l.create > p.c0.saturating_sub(p.d))), "C34", "not-asked", || format!("poll {i} of {:?} does not make {} answer", p.t, what()));
        }
    }
}
fn judge_pulls(out: &mut Out, w: &World, lk: &Linkspace, log: &[Rec], timed: bool) {
    let mut newest: BTreeMap<(i64, i64, Vec<u8>), Vec<(u64, u64, H32)>> = BTreeMap::new();
    for p in &w.pulls {
        let Some(ret) = &p.ret else { continue };
        let [g, d, q, v] = p.spec;
        let size = pull_qid(q, v).map(|q| q.len());
        // the space name: four components with their length, at most 242 bytes
        let fits = size.is_some_and(|s| s > 0 && s <= 200 && 4 + 4 + 32 + 16 + s <= 242);
        let whole = v > 2 && fits;
        let what = || format!("pull of {:?} by {}", p.text, p.who);
        match ret {
            Err(e) => {
                out.check(!whole, "C34", "pull-refused", || format!("{}: {e}", what()));
            }
            Ok(h) => {
                out.probe("pull_stored");
                out.check(whole, "C34", "pull-accepted", || format!("{} is incomplete but was accepted", what()));
                let Some(r) = log.iter().find(|r| r.hash == *h) else {
                    out.viol("C34", "pull-lost", format!("{} is not stored", what()));
                    continue;
                };
                let sp = vec![b"pull".to_vec(), grp(g).0.to_vec(), dom(d).0.to_vec(), pull_qid(q, v).unwrap_or_default()];
                out.check(r.group == PRIVATE.0 && r.dom == EXCHANGE_DOMAIN.0 && r.links == 0 && r.comps == sp, "C34", "pull-place", || format!("{} is stored at {:?}", what(), r));
                if timed {
                    out.check(r.create >= p.c0 && r.create <= p.c1, "C34", "pull-stamp", || format!("{} is stamped {}", what(), r.create));
                }
                let text = String::from_utf8_lossy(&r.data).to_string();
                match lk_query_parse(lk_query(&Q), &[&text], ()) {
                    Err(e) => out.viol("C34", "pull-text", format!("{}: the stored text does not parse: {e:#}", what())),
                    Ok(q2) => {
                        let t2 = lk_query_print(&q2, false);
                        // the bits a type needs are written once with and once without those of every point
                        let plain = |t: &str| t.lines().filter(|l| !l.starts_with("type:1:")).collect::<Vec<_>>().join("\n");
                        out.check(plain(&t2) == plain(&p.text), "C34", "pull-text", || format!("{}: the stored text means {t2:?}", what()));
                    }
                }
                newest.entry((g, d & 1, pull_qid(q, v).unwrap_or_default())).or_default().push((p.c0, p.c1, *h));
            }
        }
    }
    // the newest request of an id is the one that is found
    if timed {
        for ((g, d, q), mut l) in newest {
            l.sort();
            let n = l.len();
            let lastc0 = l[n - 1].0;
            // a process that died in the middle may have stored a later one
            if w.pulls.iter().any(|p| p.ret.is_none() && (p.spec[0], p.spec[1] & 1) == (g, d) && pull_qid(p.spec[2], p.spec[3]).as_ref() == Some(&q)) {
                continue;
            }
            if l[..n - 1].iter().any(|x| x.1 >= lastc0) {
                continue;
            }
            let sp = rspace_buf(&[b"pull", &*grp(g), &*dom(d), &q]);
            let got = (|| {
                let mut qq = lk_query(&Q);
                qq = lk_query_push(qq, "domain", "=", &*EXCHANGE_DOMAIN)?;
                qq = lk_query_push(qq, "group", "=", &*PRIVATE)?;
                qq = lk_query_push(qq, "prefix", "=", sp.space_bytes())?;
                qq = lk_query_push(qq, "depth", "=", &[4])?;
                lk_get(lk, &qq)
            })();
            out.probe("pull_newest");
            match got {
                Ok(Some(p)) => {
                    out.check(p.hash().0 == l[n - 1].2, "C34", "pull-replaced", || format!("the request found is {} and not the last one {}", h4(&p.hash().0), h4(&l[n - 1].2)));
                }
                o => out.viol("C34", "pull-replaced", format!("no request is found: {:?}", o.map(|_| ()))),
            }
        }
    }
    for (i, e) in w.exch.iter().enumerate() {
        let want: Vec<H32> = log.iter().filter(|r| (e.all || r.pos > e.view) && r.group == PRIVATE.0 && r.dom == EXCHANGE_DOMAIN.0 && r.comps.len() >= 2 && r.comps[0] == b"pull" && r.comps[1] == grp(e.grp).0).map(|r| r.hash).collect();
        let show = |l: &[H32]| l.iter().map(h4).collect::<Vec<_>>().join(" ");
        let whole = w.finished.contains(&e.who);
        out.probe_n("pull_seen", e.seen.len() as u64);
        out.check(if whole { e.seen == want } else { want.starts_with(&e.seen) }, "C34", "exchange", || format!("exchange {i} is to see the requests [{}] but sees [{}]", show(&want), show(&e.seen)));
    }
}

pub struct ConvScn;
impl Scenario for ConvScn {
    fn name(&self) -> &'static str {
        "conv"
    }
    fn crash_prop(&self) -> &'static str {
        "C34"
    }
    fn gen(&self, r: &mut Rng, _prop: &str) -> Plan {
        let mut p = Plan::new("conv");
        p.gen_sched(r);
        p.set("k.max_steps", 600_000);
        p.set("empty", r.chance(1, 2) as i64);
        p.set("nolns", r.chance(3, 4) as i64);
        if r.chance(1, 5) {
            p.set("k.max_kills", 1);
            p.set("kill_den", r.pick(&[20, 100, 400]));
        }
        if r.chance(1, 8) {
            p.set("k.jump_den", r.pick(&[5, 20]));
            p.set("k.jump_kinds", r.pick(&[1, 3, 8]));
        }
        if r.chance(1, 4) {
            p.set("k.net_delay_pm", r.pick(&[100, 500]));
            p.set("k.net_delay_max_us", r.pick(&[100, 5000]));
            p.set("k.net_dup_pm", r.pick(&[0, 200]));
            p.set("k.net_drop_pm", r.pick(&[0, 50, 400]));
        }
        let procs = r.range(2, 4) as u32;
        // few things so that they meet
        let ns: &[i64] = r.pick(&[&[0][..], &[0, 1], &[0, 2], &[0, 4], &[0, 1, 2, 3, 4, 5, 6, 7]]);
        let insts = r.pick(&[1, 2, 3]);
        let kind = r.pick(&[0, 0, 0, 1, 2]);
        let gs = r.pick(&[1, 2]);
        for a in 0..procs {
            let role = r.range(0, 3);
            for _ in 0..r.range(2, 7) {
                let n = r.pick(ns);
                let c = r.range(0, 11);
                let pull = kind == 1 || kind == 2 && r.chance(1, 2);
                let exch = [r.range(0, gs - 1), r.chance(1, 2) as i64];
                match (c, pull) {
                    (0, _) => p.op(a, "sleep", &[r.pick(&[10, 400, 3_000, 50_000])]),
                    (1, false) => p.op(a, "noise", &[n, r.range(0, 12), r.range(0, insts), r.pick(&[0, 1, 100, 1_000, 10_001, 1_000_000])]),
                    (2, _) => p.op(a, "run", &[r.pick(&[10, 500, 5_000, 100_000])]),
                    (3, false) => p.op(a, "wait", &[]),
                    (4..=7, false) if role < 2 => p.op(a, "serve", &[n, r.range(0, insts - 1), r.range(0, 3), r.range(0, 1)]),
                    (_, false) => p.op(a, "poll", &[n, r.range(0, insts), r.range(0, 4), r.chance(1, 2) as i64, r.chance(1, 2) as i64]),
                    (1..=5, true) if role < 2 => p.op(a, "exch", &exch),
                    _ => p.op(a, "pull", &[r.range(0, gs - 1), r.range(0, 1), r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]), r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10]), r.pick(&[1, 1, 500])]),
                }
            }
        }
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        prep_env(plan);
        let h: Shared<Hist> = Shared::new(Hist::default());
        let w: W = Shared::new(World::default());
        let acts: Vec<u32> = plan.actors().into_iter().collect();
        let ps: Vec<usize> = (0..acts.len()).map(|i| k::new_proc(&format!("p{i}"), 3000 + i as u32)).collect();
        let last = k::new_proc("last", 3100);
        let o: Vec<usize> = ps.iter().chain([&last]).map(|p| open_in(&h, *p)).collect();
        let wk = k::ctl_join(&o, Some(k::now_ns() + 20_000_000_000));
        if wk != k::Wake::Woken || h.get().envs.len() != ps.len() + 1 {
            out.viol("C14", "open-failed", format!("{wk:?}"));
            return;
        }
        let ts: Vec<usize> = acts
            .iter()
            .zip(&ps)
            .map(|(a, p)| {
                let (w, h, ops, p) = (w.clone(), h.clone(), plan.ops_of(*a), *p);
                k::spawn_in(p, "user", move || {
                    let env: BTreeEnv = h.get().envs[&p].clone();
                    let lk: Linkspace = linkspace_common::runtime::Linkspace::new_opt_rt(env.clone(), Default::default()).into();
                    let mut u = User { w: w.clone(), who: p, lk, open: vec![] };
                    for o in ops {
                        k::evh(|| format!("{} {:?}", o.code, o.args));
                        k::not_polling();
                        w.get().doing.insert(p, format!("{} {:?}", o.code, o.args));
                        u.op(&o);
                    }
                    u.wait();
                    w.get().idle.push(p);
                    k::wake_ctl();
                    // services stay until nobody asks any more
                    while !w.get().done {
                        k::not_polling();
                        if lk_process_while(&u.lk, None, Stamp::new(30_000)).is_err() {
                            viol(&w, "error", "lk_process_while fails".into());
                        }
                        std::thread::sleep(Duration::from_millis(20));
                    }
                    k::not_polling();
                    lk_process(&u.lk);
                    lk_process(&u.lk);
                    w.get().finished.push(p);
                })
            })
            .collect();
        for p in &ps {
            k::sim().procs[*p].kill_den = plan.get("kill_den") as u64;
        }
        let end = k::now_ns() + 30_000_000_000;
        let wk = loop {
            if k::sim().step_limited {
                break k::Wake::StepLimit;
            }
            if ts.iter().zip(&ps).all(|(t, p)| k::thread_over(*t) || w.get().idle.contains(p)) {
                break k::Wake::Woken;
            }
            match k::ctl_wait(Some(end)) {
                k::Wake::Woken => {}
                o => break o,
            }
        };
        let mut whole = false;
        if wk == k::Wake::StepLimit {
            out.probe("step_limit");
        } else if wk == k::Wake::Timeout && plan.get("k.jump_den") > 0 {
            // the clock was set back: the request lasts longer
            out.probe("long_wait");
        } else if wk != k::Wake::Woken {
            let busy: Vec<String> = ps.iter().zip(&ts).filter(|(p, t)| !k::thread_over(**t) && !w.get().idle.contains(p)).map(|(p, _)| format!("{:?}", w.get().doing.get(p))).collect();
            out.viol("C34", "hang", format!("a request does not end: {wk:?} {}", busy.join("; ")));
        } else {
            for p in &ps {
                k::sim().procs[*p].kill_den = 0;
            }
            w.get().done = true;
            let wk = k::ctl_join(&ts, Some(k::now_ns() + 20_000_000_000));
            out.check(wk == k::Wake::Woken || wk == k::Wake::StepLimit, "C34", "hang", || format!("a service does not end: {wk:?}"));
            whole = wk == k::Wake::Woken;
        }
        if whole {
            let o2: Shared<Out> = Shared::new(Out::default());
            let timed = plan.get("k.jump_den") == 0;
            let t = {
                let (w, h, o2) = (w.clone(), h.clone(), o2.clone());
                k::spawn_in(last, "last", move || {
                    let env: BTreeEnv = h.get().envs[&last].clone();
                    let lk: Linkspace = linkspace_common::runtime::Linkspace::new_opt_rt(env.clone(), Default::default()).into();
                    lk_process(&lk);
                    k::not_polling();
                    let log = stored(&lk);
                    let (w, o) = (w.get(), o2.get());
                    judge_polls(o, w, &log, timed);
                    judge_services(o, w, &log, timed);
                    judge_pulls(o, w, &lk, &log, timed);
                })
            };
            let wk = k::ctl_join(&[t], Some(k::now_ns() + 20_000_000_000));
            out.check(wk == k::Wake::Woken || wk == k::Wake::StepLimit, "C34", "hang", || format!("reading does not return: {wk:?}"));
            let o2 = o2.get();
            out.viols.append(&mut o2.viols);
            for (p, n) in &o2.probes {
                out.probe_n(p, *n);
            }
        }
        for v in h.get().viols.drain(..) {
            out.viol(v.0, &v.1, v.2);
        }
        for p in k::sim().panics.iter().filter(|p| p.0 != 0) {
            out.viol("C34", "panic", format!("{} {}", p.2, p.3));
        }
        for (c, d) in w.get().viols.drain(..) {
            out.viol("C34", &c, d);
        }
    }
}
