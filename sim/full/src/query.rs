//! Generated queries over databases that other processes are writing to.
use crate::pool::*;
use crate::refq::*;
use crate::store::*;
use linkspace::query::*;
use linkspace::runtime::*;
use linkspace::Linkspace;
use linkspace_core::prelude::lmdb::BTreeEnv;
use linkspace_pkt::*;
use lksim_engine::*;
use lksim_kernel as k;
use std::path::PathBuf;
use std::time::Duration;

/// constraint codes: field, op, source packet, tweak
pub fn mk_pred(a: &[i64], log: &[Facts]) -> Pred {
    const ALL: [&str; 24] = [
        "group", "domain", "pubkey", "hash", "create", "depth", "links_len", "data_size", "recv", "size", "type", "netflags", "hop", "stamp", "ubits0", "ubits1", "ubits2", "ubits3", "prefix", "spacename", "i_branch", "i_db", "i", "create",
    ];
    let g = |i: usize| a.get(i).copied().unwrap_or(0).unsigned_abs();
    let field = if a.first() == Some(&-1) { "i_new" } else { ALL[g(0) as usize % ALL.len()] };
    let op = ["=", "<", ">", ">=", "<=", "0", "1", "=*", "*="][g(1) as usize % 9];
    let src = g(2) as usize;
    let tw = g(3);
    let pl = pool();
    if field == "prefix" || field == "spacename" {
        let s = &pl.spaces[src % pl.spaces.len()];
        let mut c: Vec<Vec<u8>> = s.iter().map(|x| x.to_vec()).collect();
        match tw % 4 {
            1 => {
                c.pop();
            }
            2 => c.push(b"zz".to_vec()),
            _ => {}
        }
        c.truncate(8);
        return Pred { field: field.into(), op: "=".into(), val: space_bytes(&c) };
    }
    if is_limit(field) {
        let (op, v) = match tw % 6 {
            0 => ("=", src as u32 % 4),
            1 => ("<", 1 + src as u32 % 5),
            2 => (">", src as u32 % 4),
            3 => ("1", 1),
            4 => (">=", src as u32 % 3),
            _ => ("<=", src as u32 % 5),
        };
        return Pred { field: field.into(), op: op.into(), val: v.to_be_bytes().to_vec() };
    }
    let pk = facts(&pl.pkts[src % N], 0);
    let mut v = if field == "recv" {
        log.get(src % log.len().max(1)).map(|f| f.recv).unwrap_or(5).to_be_bytes().to_vec()
    } else {
        let size = match field {
            "group" | "pubkey" | "hash" => 32,
            "domain" => 16,
            "create" | "stamp" => 8,
            "hop" | "ubits0" | "ubits1" | "ubits2" | "ubits3" => 4,
            "links_len" | "data_size" | "size" => 2,
            _ => 1,
        };
        pk.field(field).unwrap_or(vec![0x40; size])
    };
    match op {
        "0" | "1" => {
            // a sparse mask that some packets satisfy
            let mut r = k::Rng::new(tw * 31 + src as u64);
            for x in v.iter_mut() {
                if op == "1" {
                    *x &= r.next() as u8 & r.next() as u8;
                } else {
                    *x |= (r.next() | r.next()) as u8;
                }
            }
        }
        "=*" | "*=" => {
            let n = 1 + tw as usize % v.len();
            if op == "=*" {
                v.truncate(n)
            } else {
                v = v[v.len() - n..].to_vec()
            }
        }
        _ => match tw % 8 {
            1 => inc(&mut v),
            2 => dec(&mut v),
            3 => v.iter_mut().for_each(|x| *x = 0),
            4 => v.iter_mut().for_each(|x| *x = 255),
            _ => {}
        },
    }
    Pred { field: field.into(), op: op.into(), val: v }
}
fn inc(v: &mut [u8]) {
    for x in v.iter_mut().rev() {
        let (y, o) = x.overflowing_add(1);
        *x = y;
        if !o {
            return;
        }
    }
}
fn dec(v: &mut [u8]) {
    for x in v.iter_mut().rev() {
        let (y, o) = x.overflowing_sub(1);
        *x = y;
        if !o {
            return;
        }
    }
}
pub fn show_q(tab: Tab, asc: bool, preds: &[Pred]) -> String {
    let p: Vec<String> = preds
        .iter()
        .map(|p| format!("{}:{}:{}", p.field, p.op, if p.field == "prefix" || p.field == "spacename" { format!("{:?}", comps_of(&p.val).unwrap().iter().map(|c| String::from_utf8_lossy(c).to_string()).collect::<Vec<_>>()) } else { p.val.iter().map(|b| format!("{b:02x}")).collect() }))
        .collect();
    format!("{tab:?}-{} {{{}}}", if asc { "asc" } else { "desc" }, p.join(", "))
}
pub fn build_query(preds: &[Pred]) -> Result<Query, String> {
    let mut q = lk_query(&Q);
    for p in preds {
        q = lk_query_push(q, &p.field, &p.op, &p.val).map_err(|e| format!("{e:#}"))?;
    }
    Ok(q)
}
/// predicates whose combination the documentation leaves open
pub fn normal(mut preds: Vec<Pred>) -> Vec<Pred> {
    // the number of packets per branch is counted before fields that the tree does not hold are looked at
    let outside = ["size", "type", "netflags", "hop", "stamp", "ubits0", "ubits1", "ubits2", "ubits3"];
    if preds.iter().any(|p| outside.contains(&p.field.as_str())) {
        preds.retain(|p| p.field != "i_branch");
    }
    // asking for one hash also asks for one packet
    if preds.iter().any(|p| p.field == "hash" && p.op == "=") {
        preds.retain(|p| p.field != "i");
    }
    // comparisons that exclude no value say nothing, also not about which packets have the field
    preds.retain(|p| !(p.op == ">=" && p.val.iter().all(|b| *b == 0) || p.op == "<=" && p.val.iter().all(|b| *b == 255) || p.field == "prefix" && p.val.is_empty()));
    // receive bounds are bounds, not masks
    preds.retain(|p| p.field != "recv" || !["0", "1", "=*", "*="].contains(&p.op.as_str()));
    // whether data_size alone implies a linkpoint is stated in two ways
    if preds.iter().any(|p| p.field == "data_size") {
        preds.push(Pred { field: "type".into(), op: "1".into(), val: vec![2] });
        preds.retain(|p| p.field != "i_branch");
    }
    preds
}

type Ans = Vec<(H32, u64)>;
fn show_ans(l: &Ans) -> String {
    l.iter().map(|x| hx(&x.0)).collect::<Vec<_>>().join(" ")
}
fn check_query(h: &Shared<Hist>, lk: &Linkspace, args: &[i64]) {
    let tab = [Tab::Log, Tab::Tree, Tab::Hash][args.first().copied().unwrap_or(0).unsigned_abs() as usize % 3];
    let bits = args.get(1).copied().unwrap_or(0).unsigned_abs();
    let asc = bits % 2 == 0;
    lk_process(lk);
    let log: Vec<Facts> = lk.as_impl().get_reader().local_pkt_log(Stamp::ZERO).map(|p| facts(&p.pkt, p.recv.get())).collect();
    let preds = normal(args.get(2..).unwrap_or(&[]).chunks(4).map(|c| mk_pred(c, &log)).collect());
    let want = answer(&log, tab, asc, &preds);
    let viol = |c: &str, d: String| h.get().viol("C16", c, format!("{} over {} packets {d}", show_q(tab, asc, &preds), log.len()));
    let q = match build_query(&preds) {
        Ok(q) => q,
        Err(e) => {
            k::count("query_rejected");
            // only queries nothing can satisfy are rejected
            let any: Vec<&Facts> = log.iter().filter(|p| satisfies(p, &preds)).collect();
            if !any.is_empty() && !want.is_empty() {
                viol("rejected", format!("was rejected ({e}) though #{} matches it", any[0].i));
            }
            return;
        }
    };
    // newest first by branch is the default
    let mode = format!("{}-{}", ["log", "tree", "hash"][tab as usize], if asc { "asc" } else { "desc" });
    let q = if mode == "tree-desc" && bits & 2 == 2 { q } else { lk_query_push(q, "", "mode", mode.as_bytes()).unwrap() };
    let all = |q: &Query, stop: usize| -> Result<(Ans, i32), String> {
        let mut got: Ans = vec![];
        let r = lk_get_all(lk, q, &mut |p| {
            got.push((p.hash_ref().0, p.get_recv().get()));
            got.len() == stop
        });
        r.map(|n| (got, n)).map_err(|e| format!("{e:#}"))
    };
    let (got, ret) = match all(&q, 0) {
        Ok(g) => g,
        Err(e) => return viol("query-error", format!("fails: {e}")),
    };
    k::count(if want.is_empty() { "query_empty" } else { "query_answered" });
    let w: Ans = want.iter().map(|p| (p.hash, p.recv)).collect();
    if got != w {
        let (mut a, mut b) = (got.clone(), w.clone());
        a.sort();
        b.sort();
        let class = if a == b {
            "order"
        } else if b.iter().all(|x| a.contains(x)) {
            "not-matching"
        } else {
            "missing"
        };
        return viol(class, format!("gives [{}] instead of [{}]", show_ans(&got), show_ans(&w)));
    }
    let counted = !preds.iter().any(|p| p.field == "i");
    if counted && ret != got.len() as i32 {
        viol("count", format!("returns {ret} for {} answers", got.len()));
    }
    // the first answer
    match lk_get(lk, &q) {
        Ok(p) => {
            if p.as_ref().map(|p| p.hash_ref().0) != w.first().map(|x| x.0) {
                viol("first", format!("lk_get gives {:?} instead of the first of [{}]", p.map(|p| hx(&p.hash_ref().0)), show_ans(&w)));
            }
        }
        Err(e) => viol("query-error", format!("lk_get fails: {e:#}")),
    }
    // stopping early
    if !w.is_empty() {
        let n = 1 + (bits as usize >> 2) % w.len();
        match all(&q, n) {
            Ok((g, r)) => {
                if g != w[..n] || counted && r != -(n as i32) {
                    viol("break", format!("stopped at {n} gives [{}] and {r} instead of [{}]", show_ans(&g), show_ans(&w[..n].to_vec())));
                }
            }
            Err(e) => viol("query-error", format!("fails when stopped: {e}")),
        }
    }
    // the written form means the same
    for canonical in [true, false] {
        let txt = lk_query_print(&q, canonical);
        match lk_query_parse(lk_query(&linkspace::query::Q), &[txt.as_str()], ()).map_err(|e| format!("{e:#}")).and_then(|q| all(&q, 0)) {
            Ok((g, _)) if g == w => k::count("query_reparsed"),
            Ok((g, _)) => viol("print", format!("printed as {txt:?} gives [{}] instead of [{}]", show_ans(&g), show_ans(&w))),
            // what nothing can satisfy may be rejected
            Err(_) if !pool().pkts.iter().any(|p| satisfies(&facts(p, 5), &preds)) && w.is_empty() => {}
            Err(e) => viol("print", format!("printed as {txt:?} can not be parsed: {e}")),
        }
    }
}
/// a compiled query decides like the same query on the database
fn check_compiled(h: &Shared<Hist>, args: &[i64]) {
    let preds: Vec<Pred> = normal(args.get(2..).unwrap_or(&[]).chunks(4).map(|c| mk_pred(c, &[])).collect()).into_iter().filter(|p| !is_limit(&p.field) && p.field != "recv" && !(p.field == "hash" && p.op == "=")).collect();
    let pk: Vec<Facts> = pool().pkts.iter().map(|p| facts(p, 0)).collect();
    let Ok(q) = build_query(&preds) else { return };
    let Ok(mut f) = lk_query_compile(q) else {
        if pk.iter().any(|p| satisfies(p, &preds)) {
            h.get().viol("C16", "rejected", format!("{} can not be compiled", show_q(Tab::Log, true, &preds)));
        }
        return;
    };
    for (i, p) in pool().pkts.iter().enumerate() {
        let got = f(&p.thin_netpkt()).0;
        if got != satisfies(&pk[i], &preds) {
            h.get().viol("C16", "compiled", format!("compiled {} says {got} for #{i}", show_q(Tab::Log, true, &preds)));
            return;
        }
    }
}

pub fn gen_preds(r: &mut Rng, n: i64) -> Vec<i64> {
    let mut a = vec![];
    for _ in 0..n {
        let f = r.pick(&[0, 0, 1, 1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14, 17, 18, 18, 18, 19, 20, 20, 21, 22]);
        let op = r.pick(&[0, 0, 1, 2, 3, 4, 5, 6, 7, 8]);
        a.extend_from_slice(&[f, op, r.range(0, N as i64 - 1), r.range(0, 15)]);
    }
    a
}

pub struct QueryScn;
impl Scenario for QueryScn {
    fn name(&self) -> &'static str {
        "query"
    }
    fn crash_prop(&self) -> &'static str {
        "C16"
    }
    fn gen(&self, r: &mut Rng, _prop: &str) -> Plan {
        let mut p = Plan::new("query");
        p.gen_sched(r);
        p.set("k.max_steps", 600_000);
        p.set("empty", r.chance(1, 2) as i64);
        p.set("nolns", r.chance(3, 4) as i64);
        let writers = r.range(1, 2);
        for w in 0..writers as u32 {
            let n = r.range(1, 6);
            for _ in 0..n {
                let mut args = vec![r.range(0, 5)];
                for _ in 0..r.pick(&[1, 3, 8, 20]) {
                    args.push(r.range(0, N as i64 - 1));
                }
                p.op(w, "save", &args);
                if r.chance(1, 3) {
                    p.op(w, "sleep", &[r.pick(&[1, 50])]);
                }
            }
        }
        for w in 0..r.range(1, 2) as u32 {
            if r.chance(1, 2) {
                p.op(10 + w, "sleep", &[r.pick(&[20, 200, 3000])]);
            }
            for _ in 0..r.range(8, 40) {
                let mut args = vec![r.pick(&[0, 0, 1, 1, 1, 2]), r.range(0, 63)];
                let np = r.pick(&[0, 1, 1, 2, 2, 3, 4, 5]);
                args.extend(gen_preds(r, np));
                p.op(10 + w, if r.chance(1, 12) { "compile" } else { "query" }, &args);
                if r.chance(1, 4) {
                    p.op(10 + w, "sleep", &[r.pick(&[1, 50])]);
                }
            }
        }
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        prep_env(plan);
        let h: Shared<Hist> = Shared::new(Hist::default());
        let ps = [k::new_proc("writer", 3000), k::new_proc("reader", 3001)];
        let o: Vec<usize> = ps.iter().map(|p| open_in(&h, *p)).collect();
        let w = k::ctl_join(&o, Some(k::now_ns() + 20_000_000_000));
        if w != k::Wake::Woken || h.get().envs.len() != 2 {
            out.viol("C14", "open-failed", format!("{w:?}"));
            return;
        }
        let mut ts = vec![];
        for a in plan.actors() {
            let (h2, ops) = (h.clone(), plan.ops_of(a));
            if a < 10 {
                let p = ps[0];
                ts.push(k::spawn_in(p, "w", move || run_ops(h2, p, ops)));
            } else {
                let p = ps[1];
                ts.push(k::spawn_in(p, "r", move || {
                    let env: BTreeEnv = h2.get().envs[&p].clone();
                    let lk: Linkspace = linkspace_common::runtime::Linkspace::new_opt_rt(env, Default::default()).into();
                    for o in ops {
                        k::evh(|| format!("{} {:?}", o.code, o.args));
                        match o.code.as_str() {
                            "query" => check_query(&h2, &lk, &o.args),
                            "compile" => check_compiled(&h2, &o.args),
                            _ => std::thread::sleep(Duration::from_micros(arg(&o, 0) as u64)),
                        }
                    }
                }));
            }
        }
        let w = k::ctl_join(&ts, Some(k::now_ns() + 20_000_000_000));
        out.check(w == k::Wake::Woken, "C16", "hang", || format!("a query does not return: {w:?}"));
        for v in h.get().viols.drain(..) {
            out.viol(v.0, &v.1, v.2);
        }
        for p in k::sim().panics.iter().filter(|p| p.0 != 0) {
            out.viol("C16", "panic", format!("{} {}", p.2, p.3));
        }
        let _ = PathBuf::new();
    }
}
