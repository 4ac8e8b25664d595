//! Names: claims and votes that arrive in any order, and local names that several processes set.
use crate::pool::signing_key;
use crate::store::*;
use linkspace::runtime::lk_process;
use linkspace::Linkspace;
use linkspace_common::prelude::ApplyResult;
use linkspace_common::protocols::lns::claim::{Claim, LiveClaim};
use linkspace_common::protocols::lns::name::Name;
use linkspace_common::protocols::lns::public_claim::walk_live_claims;
use linkspace_common::protocols::lns::*;
use linkspace_core::prelude::lmdb::BTreeEnv;
use linkspace_pkt::reroute::RecvPkt;
use linkspace_pkt::*;
use lksim_engine::*;
use lksim_kernel as k;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;
use std::time::Duration;

/// names as the components of their space: the last component of the written name comes first
const NAMES: [&[&str]; 7] = [&["com"], &["nl"], &["com", "x"], &["com", "y"], &["com", "x", "z"], &["nl", "x"], &["com", "x", "z", "a", "b", "c", "d"]];
const AUTHS: [&[u8]; 8] = [&[0], &[0, 1, 2], &[1], &[0, 1, 2, 3], &[2, 1], &[4, 0, 3, 1, 2], &[], &[1, 2, 3, 4, 5, 0]];
const TIMES: [u64; 6] = [0, 100, 101, 200, 1_700_000_000_000_100, u64::MAX - 1];
const LOCAL: [&str; 4] = ["me", "bob", "x", "y"];
fn auth(i: i64) -> &'static linkspace_cryptography::SigningKey {
    static K: OnceLock<Vec<linkspace_cryptography::SigningKey>> = OnceLock::new();
    &K.get_or_init(|| (0..6).map(|i| signing_key(40 + i)).collect())[i.unsigned_abs() as usize % 6]
}
struct Pool {
    /// texts of keys for local names
    keys: Vec<(String, [u8; 32])>,
}
static POOL: OnceLock<Pool> = OnceLock::new();
pub fn build() {
    auth(0);
    let keys = (0..5)
        .map(|i| {
            let k = signing_key(60 + i);
            (linkspace::key::lk_key_encrypt(&k, b""), k.pubkey_bytes())
        })
        .collect();
    let _ = POOL.set(Pool { keys });
    if std::env::args().any(|a| a == "C33") {
        // signing is slow: the usual votes are made once, before the runs
        let ts: Vec<_> = (0..6)
            .map(|key| {
                std::thread::spawn(move || {
                    let mut m = HashMap::new();
                    for (n, v, t) in (0..NAMES.len() as i64 * 8 * 6).map(|i| (i / 48, i / 6 % 8, i % 6)) {
                        m.insert([key, n, v, t], make(1, key, n, v, t));
                    }
                    m
                })
            })
            .collect();
        let _ = VOTES.set(ts.into_iter().flat_map(|t| t.join().unwrap()).collect());
    }
}
static VOTES: OnceLock<HashMap<[i64; 4], NetPktBox>> = OnceLock::new();
fn space(name: usize) -> RootedSpaceBuf {
    let mut v: Vec<&[u8]> = vec![b"claims"];
    v.extend(NAMES[name].iter().map(|c| c.as_bytes()));
    rspace_buf(&v)
}
fn name_of(comps: &[Vec<u8>]) -> Name {
    let v: Vec<&[u8]> = comps.iter().rev().map(|c| &c[..]).collect();
    Name::from(&v).unwrap()
}
fn auth_links(a: &[u8]) -> Vec<Link> {
    a.iter().map(|i| Link { tag: lnstag(Stamp::ZERO, format!("a{i}").as_bytes(), b'^').unwrap(), ptr: B64(auth(*i as i64).pubkey_bytes()) }).collect()
}
fn root(i: usize) -> NetPktBox {
    linkpoint(PUBLIC, LNS, &rspace_buf(&[b"claims"]), &auth_links(AUTHS[i]), b"", Stamp::ZERO, ()).as_netbox()
}
fn root_claim(p: &NetPktBox) -> LiveClaim {
    LiveClaim { claim: Claim { pkt: RecvPkt::from_dyn(p), name: Name::root() }, signatures: vec![], parent: None }
}
fn claim_pkt(name: usize, variant: i64) -> NetPktBox {
    let v = variant.unsigned_abs() as usize;
    let mut links = vec![Link { tag: ab(&PUBKEY_TAG), ptr: B64([v as u8 + 1; 32]) }];
    links.extend(auth_links(AUTHS[(v * 3 + name) % AUTHS.len()]));
    let until = [u64::MAX, 50, 1_700_000_000_500_000, u64::MAX - 1][v % 4];
    let c: Vec<Vec<u8>> = NAMES[name].iter().map(|c| c.as_bytes().to_vec()).collect();
    if v % 4 == 3 {
        links[0].tag = stamp_tag(Stamp::new(until), *b"\0pubkey@");
        return linkpoint(PUBLIC, LNS, &space(name), &links, b"made by hand", Stamp::new(7), ()).as_netbox();
    }
    Claim::new(name_of(&c), Stamp::new(until), &mut links, format!("{name} {v}").as_bytes()).expect("claim").pkt.as_netbox()
}
/// a packet from its numbers: kind, key, name, variant, time
fn make(kind: i64, key: i64, name: i64, variant: i64, t: i64) -> NetPktBox {
    if let (1, Some(p)) = (kind, VOTES.get().and_then(|m| m.get(&[key, name, variant, t]))) {
        return p.clone();
    }
    let n = name.unsigned_abs() as usize % NAMES.len();
    let other = (n + 1 + variant.unsigned_abs() as usize % 2) % NAMES.len();
    let st = Stamp::new(TIMES[t.unsigned_abs() as usize % TIMES.len()]);
    let k = auth(key);
    let vote = |n: usize, links: &[Link]| keypoint(PUBLIC, LNS, &space(n), links, b"", st, k, ()).as_netbox();
    let c = claim_pkt(n, variant);
    match kind {
        0 => c,
        1 => vote(n, &[Link::new(VOTE_TAG, c.hash())]),
        2 => vote(n, &[Link::new("x", c.hash()), Link::new(VOTE_TAG, c.hash())]),
        3 => vote(n, &[Link::new(VOTE_TAG, claim_pkt(other, variant).hash())]),
        4 => vote(n, &[Link::new(VOTE_TAG, B64([variant as u8; 32]))]),
        5 => linkpoint(PUBLIC, LNS, &space(n), &[Link::new(VOTE_TAG, c.hash())], b"", st, ()).as_netbox(),
        6 => {
            let l = [Link::new(VOTE_TAG, c.hash())];
            match variant % 3 {
                0 => keypoint(PRIVATE, LNS, &space(n), &l, b"", st, k, ()).as_netbox(),
                1 => keypoint(PUBLIC, ab(b"lns2"), &space(n), &l, b"", st, k, ()).as_netbox(),
                _ => keypoint(PUBLIC, LNS, &rspace_buf(&[b"claims", NAMES[n][0].as_bytes(), b"q"]), &l, b"", st, k, ()).as_netbox(),
            }
        }
        7 => {
            // something else in the place of a claim
            let bad = match variant % 4 {
                0 => keypoint(PUBLIC, LNS, &space(n), c.get_links(), b"claim", Stamp::ZERO, k, ()).as_netbox(),
                1 => linkpoint(PRIVATE, LNS, &space(n), c.get_links(), b"", Stamp::ZERO, ()).as_netbox(),
                2 => linkpoint(PUBLIC, LNS, &space(n), &[], b"", Stamp::ZERO, ()).as_netbox(),
                _ => datapoint(b"no claim", ()).as_netbox(),
            };
            if t % 2 == 0 {
                bad
            } else {
                vote(n, &[Link::new(VOTE_TAG, bad.hash())])
            }
        }
        _ => vote(n, &[]),
    }
}
/// what the stored packets say
struct Rec {
    hash: H32,
    group: H32,
    comps: Vec<Vec<u8>>,
    key: Option<H32>,
    create: u64,
    links: Vec<(Vec<u8>, H32)>,
}
fn stored(lk: &Linkspace) -> BTreeMap<H32, Rec> {
    let mut m = BTreeMap::new();
    for p in lk.as_impl().get_reader().local_pkt_log(Stamp::ZERO) {
        let Some(h) = p.pkt.as_point().linkpoint_header() else { continue };
        if h.domain != LNS {
            continue;
        }
        let hash = p.pkt.hash_ref().0;
        m.insert(hash, Rec { hash, group: h.group.0, comps: p.pkt.get_spacename().iter().map(|c| c.to_vec()).collect(), key: p.pkt.as_point().signed().map(|s| s.pubkey.0), create: h.create_stamp.get(), links: p.pkt.get_links().iter().map(|l| (l.tag.0.to_vec(), l.ptr.0)).collect() });
    }
    m
}
fn authorities(r: &[(Vec<u8>, H32)]) -> Vec<H32> {
    r.iter().filter(|l| l.0[15] == b'^').map(|l| l.1).collect()
}
/// the chain of claims that a name resolves to and whether it is complete; None where the rules leave it open
fn resolve(m: &BTreeMap<H32, Rec>, root: &[(Vec<u8>, H32)], name: &[Vec<u8>]) -> (Vec<(H32, BTreeSet<H32>)>, bool) {
    let mut auths = authorities(root);
    let mut chain = vec![];
    for n in 1..=name.len() {
        let mut sp = vec![b"claims".to_vec()];
        sp.extend_from_slice(&name[..n]);
        let mut votes: BTreeMap<H32, Vec<(u64, H32)>> = BTreeMap::new();
        for a in &auths {
            let last = m.values().filter(|r| r.key == Some(*a) && r.comps == sp && r.group == PUBLIC.0).max_by_key(|r| (r.create, r.hash));
            let Some(v) = last else { continue };
            if let Some((t, h)) = v.links.first() {
                if t[..] == VOTE_TAG.0 {
                    votes.entry(*h).or_default().push((v.create, v.hash));
                }
            }
        }
        // most votes, then the first to have them all
        let rank = |v: &Vec<(u64, H32)>| (v.len(), u64::MAX - v.iter().map(|x| x.0).max().unwrap());
        let Some(best) = votes.values().map(rank).max() else { return (chain, false) };
        let top: Vec<_> = votes.iter().filter(|v| rank(v.1) == best).collect();
        if top.len() != 1 {
            return (chain, false);
        }
        let Some(c) = m.get(top[0].0).filter(|c| c.key.is_none() && c.comps == sp && c.group == PUBLIC.0 && !c.links.is_empty()) else { return (chain, false) };
        chain.push((c.hash, top[0].1.iter().map(|x| x.1).collect()));
        auths = authorities(&c.links);
    }
    (chain, true)
}

#[derive(Clone, Debug)]
enum Do {
    Set(H32, bool),
    /// lk_key, creating or not
    Key(bool),
    Look,
}
#[derive(Clone, Debug)]
struct Ev {
    name: usize,
    op: Do,
    from: u64,
    to: u64,
    ret: Option<Result<Option<H32>, String>>,
}
#[derive(Default)]
struct World {
    seq: u64,
    evs: Vec<Ev>,
    viols: Vec<(String, String)>,
    /// keys that local names were bound to in a run with one writer
    seq_state: BTreeMap<usize, H32>,
}
type W = Shared<World>;
fn tick(w: &W) -> u64 {
    let w = w.get();
    w.seq += 1;
    w.seq
}
fn viol(w: &W, c: &str, d: String) {
    let v = &mut w.get().viols;
    if v.len() < 20 {
        v.push((c.into(), d));
    }
}
fn h4(h: &H32) -> String {
    h[..3].iter().map(|b| format!("{b:02x}")).collect()
}
fn show_name(c: &[Vec<u8>]) -> String {
    c.iter().rev().map(|c| String::from_utf8_lossy(c).to_string()).collect::<Vec<_>>().join(":")
}
fn check_public(w: &W, lk: &Linkspace, rt: &NetPktBox) {
    lk_process(lk);
    let m = stored(lk);
    let rl: Vec<(Vec<u8>, H32)> = rt.get_links().iter().map(|l| (l.tag.0.to_vec(), l.ptr.0)).collect();
    let reader = lk.as_impl().get_reader();
    for n in NAMES {
        let comps: Vec<Vec<u8>> = n.iter().map(|c| c.as_bytes().to_vec()).collect();
        k::not_polling();
        let (chain, done) = resolve(&m, &rl, &comps);
        let name = name_of(&comps);
        let got = walk_live_claims(&reader, root_claim(rt), &mut name.space().iter(), &mut |_| Ok(()));
        let (live, ok) = match got {
            Ok(Ok(l)) => (l, true),
            Ok(Err(l)) => (l, false),
            Err(e) => {
                viol(w, "error", format!("resolving {} fails: {e:#}", show_name(&comps)));
                continue;
            }
        };
        let mut list: Vec<(H32, BTreeSet<H32>)> = live.list().iter().map(|c| (c.claim.pkt.hash().0, c.signatures.iter().map(|s| s.hash().0).collect())).collect();
        list.reverse();
        list.remove(0);
        k::count(if done { "name_resolved" } else { "name_unresolved" });
        if list.len() > 1 {
            k::count("name_deep");
        }
        let ids = |l: &Vec<(H32, BTreeSet<H32>)>| l.iter().map(|x| h4(&x.0)).collect::<Vec<_>>().join(" ");
        if ok != done || ids(&list) != ids(&chain) {
            viol(w, if ok && !done { "without-votes" } else { "other-claim" }, format!("{} resolves to [{}]{} but its votes say [{}]{}", show_name(&comps), ids(&list), if ok { "" } else { " and stops" }, ids(&chain), if done { "" } else { " and stops" }));
        }
        // signatures are votes for the claim
        for ((_, s), (c, votes)) in list.iter().zip(&chain) {
            if s.is_empty() || !s.is_subset(votes) {
                viol(w, "signatures", format!("{}: claim {} is shown with votes [{}]", show_name(&comps), h4(c), s.iter().map(h4).collect::<Vec<_>>().join(" ")));
            }
        }
        // nobody here holds a key of the built-in roots
        match lookup_claim(lk.as_impl(), &name) {
            Ok(None) => {}
            o => viol(w, "without-votes", format!("{} resolves under the built-in root: {:?}", show_name(&comps), o.map(|c| c.map(|c| h4(&c.pkt.hash().0))))),
        }
    }
    // the list of claims below a name
    if k::sim().cfg.jump_den > 0 {
        return;
    }
    for n in [&NAMES[0][..], NAMES[2]] {
        let comps: Vec<Vec<u8>> = n.iter().map(|c| c.as_bytes().to_vec()).collect();
        let mut pre = vec![b"claims".to_vec()];
        pre.extend(comps.clone());
        let t0 = now().get();
        let got: BTreeSet<H32> = linkspace_common::protocols::lns::utils::list_all_potential_claims_with_prefix(&reader, &name_of(&comps)).filter_map(|c| c.ok()).map(|c| c.pkt.hash().0).collect();
        let t1 = now().get();
        let cl = |lo: u64, hi: u64, r: &Rec| r.comps.starts_with(&pre) && r.group == PUBLIC.0 && r.key.is_none() && !r.links.is_empty() && r.create < lo && u64::from_be_bytes(r.links[0].0[..8].try_into().unwrap()) > hi;
        for r in m.values() {
            if cl(t0, t1, r) && !got.contains(&r.hash) {
                viol(w, "unlisted", format!("claim {} is missing from the list of {}", h4(&r.hash), show_name(&comps)));
            }
            if !cl(t1, t0, r) && got.contains(&r.hash) {
                viol(w, "listed", format!("{} is listed as a claim of {}", h4(&r.hash), show_name(&comps)));
            }
        }
    }
}

fn local(i: i64) -> (usize, Name) {
    let i = i.unsigned_abs() as usize % LOCAL.len();
    (i, Name::from(&[LOCAL[i].as_bytes(), b"local"]).unwrap())
}
fn begin(w: &W, name: usize, op: Do, from: u64) -> usize {
    let w = w.get();
    w.evs.push(Ev { name, op, from, to: u64::MAX, ret: None });
    w.evs.len() - 1
}
fn end(w: &W, i: usize, r: Result<Option<H32>, String>) {
    let t = tick(w);
    let e = &mut w.get().evs[i];
    e.to = t;
    k::evh(|| format!("{:?} of {} -> {}", e.op, LOCAL[e.name], match &r { Ok(k) => format!("{:?}", k.map(|k| h4(&k))), Err(e) => e.clone() }));
    e.ret = Some(r);
}
fn run_local(w: &W, lk: &Linkspace, o: &Op, last: &mut u64, single: bool) {
    let process = arg(o, 2) % 4 != 3;
    if process {
        *last = tick(w);
        lk_process(lk);
    }
    let (n, name) = local(arg(o, 0));
    match o.code.as_str() {
        "set" => {
            let (txt, key) = &POOL.get().unwrap().keys[arg(o, 1).unsigned_abs() as usize % 5];
            let over = arg(o, 3) > 0;
            let i = begin(w, n, Do::Set(*key, over), if over { tick(w) } else { *last });
            let r = setup_special_keyclaim(lk.as_impl(), name, txt, over);
            if single && r.is_ok() {
                w.get().seq_state.insert(n, *key);
            }
            end(w, i, r.map(|k| Some(k.0)).map_err(|e| format!("{e:#}")));
        }
        "key" => {
            let create = arg(o, 1) > 0;
            let i = begin(w, n, Do::Key(create), *last);
            let r = linkspace::key::lk_key(lk, Some(b""), Some(&format!("{}:local", LOCAL[n])), create);
            if single {
                if let Ok(k) = &r {
                    w.get().seq_state.entry(n).or_insert(k.pubkey_bytes());
                }
            }
            end(w, i, r.map(|k| Some(k.pubkey_bytes())).map_err(|e| format!("{e:#}")));
        }
        "look" => {
            let i = begin(w, n, Do::Look, *last);
            let r = if arg(o, 1) % 2 == 0 { lookup_pubkey(lk.as_impl(), &name).map(|k| k.map(|k| k.0)) } else { lookup_enckey(lk.as_impl(), &name).map(|k| k.map(|k| k.0 .0)) };
            end(w, i, r.map_err(|e| format!("{e:#}")));
        }
        "rev" => {
            lk_process(lk);
            let st = w.get().seq_state.clone();
            let mut keys: Vec<H32> = POOL.get().unwrap().keys.iter().map(|k| k.1).collect();
            keys.extend(st.values().copied());
            let pk = keys[arg(o, 1).unsigned_abs() as usize % keys.len()];
            let names: Vec<usize> = st.iter().filter(|s| *s.1 == pk).map(|s| *s.0).collect();
            match reverse_lookup(lk.as_impl(), &PUBKEY_TAG, B64(pk)) {
                ApplyResult::Value(c) => {
                    k::count("reverse_found");
                    let now = lookup_claim(lk.as_impl(), &c.name).ok().flatten();
                    if c.pubkey().map(|k| k.0) != Some(pk) || now.map(|n| n.pkt.hash()) != Some(c.pkt.hash()) {
                        viol(w, "reverse", format!("key {} is said to be {} which is bound to {:?}", h4(&pk), c.name, c.pubkey().map(|k| h4(&k.0))));
                    }
                    if single && !names.iter().any(|n| local(*n as i64).1 == c.name) {
                        viol(w, "reverse", format!("key {} is said to be {} but that was set to another key", h4(&pk), c.name));
                    }
                }
                ApplyResult::NoValue | ApplyResult::Err(_) => {
                    if single && !names.is_empty() && k::sim().cfg.jump_den == 0 {
                        viol(w, "reverse-none", format!("no name is found for key {} though {} is bound to it", h4(&pk), LOCAL[names[0]]));
                    }
                }
            }
        }
        _ => {}
    }
}

/// is there an order of the operations on one name that explains every result
fn linear(evs: &[Ev]) -> bool {
    fn go(evs: &[Ev], done: u64, st: Option<H32>, seen: &mut std::collections::HashSet<(u64, Option<H32>)>) -> bool {
        let open: Vec<usize> = (0..evs.len()).filter(|i| done >> i & 1 == 0).collect();
        if open.iter().all(|i| evs[*i].ret.is_none()) {
            return true;
        }
        if !seen.insert((done, st)) {
            return false;
        }
        let first_end = open.iter().map(|i| evs[*i].to).min().unwrap();
        for i in open {
            let e = &evs[i];
            if e.from > first_end {
                continue;
            }
            // the states that may follow
            let mut next: Vec<Option<H32>> = vec![];
            match (&e.op, &e.ret) {
                (Do::Set(k, true), Some(Ok(_)) | None) => next.push(Some(*k)),
                (Do::Set(_, true), Some(Err(_))) => {}
                (Do::Set(k, false), Some(Ok(_)) | None) => {
                    // setting what is set is no change
                    if st.is_none() || st == Some(*k) {
                        next.push(Some(*k))
                    }
                }
                (Do::Set(_, false), Some(Err(_))) => {
                    if st.is_some() {
                        next.push(st)
                    }
                }
                (Do::Key(_), Some(Ok(k))) if st.is_some() => {
                    if st == *k {
                        next.push(st)
                    }
                }
                (Do::Key(true), Some(Ok(k))) => next.push(*k),
                (Do::Key(false), Some(Err(_))) => {
                    if st.is_none() {
                        next.push(st)
                    }
                }
                // a key nobody got to know
                (Do::Key(true), None) => {
                    if st.is_none() {
                        for o in evs {
                            if let Some(Ok(Some(k))) = &o.ret {
                                next.push(Some(*k));
                            }
                        }
                    }
                }
                (Do::Look, Some(Ok(k))) => {
                    if st == *k {
                        next.push(st)
                    }
                }
                _ => {}
            }
            for n in next {
                if go(evs, done | 1 << i, n, seen) {
                    return true;
                }
            }
        }
        false
    }
    go(evs, 0, None, &mut Default::default())
}
fn judge_local(out: &mut Out, w: &World) {
    for n in 0..LOCAL.len() {
        let evs: Vec<Ev> = w.evs.iter().filter(|e| e.name == n).cloned().collect();
        if evs.is_empty() || evs.len() > 60 {
            continue;
        }
        out.probe("local_name");
        let show = |e: &Ev| format!("{}-{} {} -> {}", e.from, if e.to == u64::MAX { "?".into() } else { e.to.to_string() }, match &e.op { Do::Set(k, o) => format!("set({}, overwrite={o})", h4(k)), Do::Key(c) => format!("lk_key(create={c})"), Do::Look => "lookup".into() }, match &e.ret { None => "?".into(), Some(Ok(k)) => k.map(|k| h4(&k)).unwrap_or("none".into()), Some(Err(e)) => format!("error: {e}") });
        out.check(linear(&evs), "C33", "local-history", || format!("no order of the operations on {}:local explains their results: {}", LOCAL[n], evs.iter().map(show).collect::<Vec<_>>().join("; ")));
    }
}

pub struct LnsScn;
impl Scenario for LnsScn {
    fn name(&self) -> &'static str {
        "lns"
    }
    fn crash_prop(&self) -> &'static str {
        "C33"
    }
    fn gen(&self, r: &mut Rng, _prop: &str) -> Plan {
        let mut p = Plan::new("lns");
        p.gen_sched(r);
        p.set("k.max_steps", 600_000);
        p.set("empty", r.chance(1, 2) as i64);
        p.set("nolns", r.chance(3, 4) as i64);
        if r.chance(1, 5) {
            p.set("k.max_kills", 1);
            p.set("kill_den", r.pick(&[20, 100, 400]));
        }
        if r.chance(1, 6) {
            p.set("k.jump_den", r.pick(&[5, 20]));
            p.set("k.jump_kinds", r.pick(&[1, 3, 8]));
        }
        if r.chance(1, 2) {
            p.set("root", r.pick(&[0, 1, 1, 3, 3, 4, 5, 7]));
            // few keys and names so that votes meet
            let names = r.pick(&[&[0i64][..], &[0, 2], &[0, 2, 3], &[0, 1, 2, 3, 4, 5, 6], &[0, 2, 4]]);
            let keys = r.pick(&[2, 4, 6]);
            let vars = r.pick(&[1, 2, 4, 8]);
            let mut codes: Vec<[i64; 5]> = vec![];
            for n in names {
                for v in 0..vars {
                    if !r.chance(1, 8) {
                        codes.push([0, 0, *n, v, 0]);
                    }
                }
                for _ in 0..r.pick(&[1, 3, 6, 12]) {
                    let kind = r.pick(&[1, 1, 1, 1, 1, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8]);
                    codes.push([kind, r.range(0, keys - 1), *n, r.range(0, vars - 1), r.range(0, 5)]);
                }
            }
            let ws = r.range(1, 3) as u32;
            let n = codes.len() as i64;
            for _ in 0..r.pick(&[1, 2]) * n {
                let w = r.range(0, ws as i64 - 1) as u32;
                let mut a = vec![];
                for _ in 0..r.pick(&[1, 1, 2, 5]) {
                    a.extend_from_slice(&codes[r.range(0, n - 1) as usize]);
                }
                p.op(w, "put", &a);
                if r.chance(1, 6) {
                    p.op(w, "resolve", &[]);
                }
            }
            for w in 0..ws {
                p.op(w, "resolve", &[]);
            }
        } else {
            let ws = r.pick(&[1, 1, 2, 2, 3]) as u32;
            let names = r.pick(&[1, 1, 2, 4]);
            let keys = r.pick(&[2, 5]);
            for w in 0..ws {
                for _ in 0..r.range(1, if ws == 1 { 12 } else { 5 }) {
                    let n = r.range(0, names - 1);
                    match r.range(0, 9) {
                        0..=2 => p.op(w, "set", &[n, r.range(0, keys - 1), r.range(0, 3), 1]),
                        3 => p.op(w, "set", &[n, r.range(0, keys - 1), r.range(0, 3), 0]),
                        4 | 5 => p.op(w, "key", &[n, r.pick(&[1, 1, 0]), r.range(0, 3)]),
                        6 | 7 => p.op(w, "look", &[n, r.range(0, 1), r.range(0, 3)]),
                        8 => p.op(w, "rev", &[n, r.range(0, 8)]),
                        _ => p.op(w, "sleep", &[r.pick(&[1, 50, 3000])]),
                    }
                }
            }
        }
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        prep_env(plan);
        let h: Shared<Hist> = Shared::new(Hist::default());
        let w: W = Shared::new(World::default());
        let rt = root(plan.get("root").unsigned_abs() as usize % AUTHS.len());
        let acts: Vec<u32> = plan.actors().into_iter().collect();
        let single = acts.len() == 1 && plan.get("k.max_kills") == 0;
        let ps: Vec<usize> = (0..acts.len()).map(|i| k::new_proc(&format!("p{i}"), 3000 + i as u32)).collect();
        let last = k::new_proc("last", 3100);
        let o: Vec<usize> = ps.iter().chain([&last]).map(|p| open_in(&h, *p)).collect();
        let wk = k::ctl_join(&o, Some(k::now_ns() + 20_000_000_000));
        if wk != k::Wake::Woken || h.get().envs.len() != ps.len() + 1 {
            out.viol("C14", "open-failed", format!("{wk:?}"));
            return;
        }
        let run = |p: usize, ops: Vec<Op>| {
            let (w, h, rt) = (w.clone(), h.clone(), rt.clone());
            k::spawn_in(p, "user", move || {
                let env: BTreeEnv = h.get().envs[&p].clone();
                let lk: Linkspace = linkspace_common::runtime::Linkspace::new_opt_rt(env.clone(), Default::default()).into();
                let mut last = tick(&w);
                lk_process(&lk);
                for o in ops {
                    k::evh(|| format!("{} {:?}", o.code, o.args));
                    k::not_polling();
                    match o.code.as_str() {
                        "put" => {
                            let pkts: Vec<NetPktBox> = o.args.chunks_exact(5).map(|c| make(c[0], c[1], c[2], c[3], c[4])).collect();
                            if let Err(e) = env.save_dyn_iter(pkts.iter().map(|p| p as &dyn NetPkt)) {
                                viol(&w, "error", format!("saving fails: {e}"));
                            }
                        }
                        "resolve" => check_public(&w, &lk, &rt),
                        "sleep" => std::thread::sleep(Duration::from_micros(arg(&o, 0) as u64)),
                        _ => {
                            std::thread::sleep(Duration::from_micros(2));
                            run_local(&w, &lk, &o, &mut last, single)
                        }
                    }
                }
            })
        };
        let ts: Vec<usize> = acts.iter().zip(&ps).map(|(a, p)| run(*p, plan.ops_of(*a))).collect();
        for p in &ps {
            k::sim().procs[*p].kill_den = plan.get("kill_den") as u64;
        }
        let wk = k::ctl_join(&ts, Some(k::now_ns() + 20_000_000_000));
        if wk == k::Wake::StepLimit {
            out.probe("step_limit");
        } else {
            out.check(wk == k::Wake::Woken, "C33", "hang", || format!("a lookup does not return: {wk:?}"));
            // whoever comes last sees the same
            let mut ops: Vec<Op> = vec![];
            if plan.ops.iter().any(|o| o.code == "put") {
                ops.push(Op { actor: 0, code: "resolve".into(), args: vec![] });
            }
            for n in 0..LOCAL.len() as i64 {
                if plan.ops.iter().any(|o| ["set", "key", "look"].contains(&o.code.as_str()) && arg(o, 0).rem_euclid(4) == n) {
                    ops.push(Op { actor: 0, code: "look".into(), args: vec![n, n, 0] });
                    ops.push(Op { actor: 0, code: "look".into(), args: vec![n, n + 1, 0] });
                }
            }
            for n in 0..6 {
                ops.push(Op { actor: 0, code: "rev".into(), args: vec![0, n] });
            }
            let t = run(last, ops);
            let wk = k::ctl_join(&[t], Some(k::now_ns() + 20_000_000_000));
            out.check(wk == k::Wake::Woken || wk == k::Wake::StepLimit, "C33", "hang", || format!("a lookup does not return: {wk:?}"));
        }
        for v in h.get().viols.drain(..) {
            out.viol(v.0, &v.1, v.2);
        }
        for p in k::sim().panics.iter().filter(|p| p.0 != 0) {
            out.viol("C33", "panic", format!("{} {}", p.2, p.3));
        }
        let w = w.get();
        for (c, d) in w.viols.drain(..) {
            out.viol("C33", &c, d);
        }
        judge_local(out, w);
    }
}
