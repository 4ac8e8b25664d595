//! The handshake of peers that prove their keys to each other while somebody else is the network:
//! drops, delays, replays, mixes, alters and makes up messages, and their clocks differ.
use crate::pool::signing_key;
use linkspace_common::pkt_reader::NetPktDecoder;
use linkspace_common::protocols::handshake::*;
use linkspace_common::protocols::unicast_group;
use linkspace_pkt::*;
use lksim_engine::*;
use lksim_kernel as k;
use std::collections::VecDeque;

fn arg(o: &Op, i: usize) -> i64 {
    o.args.get(i).copied().unwrap_or(0)
}
/// keys 0.. belong to honest peers, these to the adversary
const EVIL: u8 = 20;
fn evil(i: i64) -> linkspace_cryptography::SigningKey {
    signing_key(EVIL + (i % 2) as u8)
}
fn key_of(k: &linkspace_cryptography::SigningKey) -> [u8; 32] {
    k.pubkey_bytes()
}

#[derive(Clone, Debug)]
struct Call {
    sess: usize,
    /// 0..3, the function called
    phase: u8,
    me: [u8; 32],
    /// own earlier packet, packet received, packet made
    mine: Option<[u8; 32]>,
    init: Option<[u8; 32]>,
    got: Option<[u8; 32]>,
    got_key: Option<[u8; 32]>,
    made: Option<[u8; 32]>,
    stamp: u64,
    /// own clock before and after the call, unless it was set meanwhile
    at: Option<(u64, u64)>,
    diff: u64,
    ret: Result<Option<[u8; 32]>, String>,
}
#[derive(Default)]
struct World {
    calls: Vec<Call>,
    inbox: Vec<VecDeque<Vec<u8>>>,
    /// messages on their way to the adversary, and all it has seen
    net: VecDeque<(usize, Vec<u8>)>,
    seen: Vec<(usize, Vec<u8>)>,
    accepted: Vec<Option<[u8; 32]>>,
    disturbed: bool,
    running: usize,
}
type W = Shared<World>;
const NET: u64 = 5000;
fn send(w: &W, s: usize, p: &NetPktBox) {
    let b = p.thin_netpkt().as_netpkt_bytes().to_vec();
    k::point(k::P::Sys);
    w.get().net.push_back((s, b));
    k::wake_what(k::What::User(NET), usize::MAX);
}
fn deliver(w: &W, s: usize, b: Vec<u8>) {
    let w = w.get();
    let n = w.inbox.len();
    w.inbox[s % n].push_back(b);
    k::wake_what(k::What::User(NET + 1 + (s % n) as u64), usize::MAX);
}
/// the next message that is a packet
fn recv(w: &W, s: usize, until: u64) -> Option<NetPktBox> {
    loop {
        k::point(k::P::Sys);
        if let Some(b) = w.get().inbox[s].pop_front() {
            match NetPktDecoder::new(&b[..]).next() {
                Some(Ok(p)) => return Some(p),
                _ => {
                    k::count("undecodable_message");
                    continue;
                }
            }
        }
        if k::now_ns() >= until {
            return None;
        }
        k::block(k::What::User(NET + 1 + s as u64), Some(until));
    }
}
fn signer(p: &NetPktBox) -> Option<[u8; 32]> {
    p.pubkey().map(|k| k.0)
}
fn stamp_of(p: &NetPktBox) -> u64 {
    p.as_point().linkpoint_header().map(|h| h.create_stamp.get()).unwrap_or(0)
}
fn maxdiff(c: i64) -> (Option<usize>, u64) {
    match c {
        0..=4 => (None, 15),
        5 => (Some(0), 0),
        6 => (Some(1), 1),
        7 => (Some(100), 100),
        _ => (Some(usize::MAX), u64::MAX),
    }
}
struct Clock(u64, u64);
/// the clock may jump away and back between two readings, so jumps are counted
fn jumps() -> u64 {
    k::counter("clock_jump_back") + k::counter("clock_jump_forward")
}
fn clock() -> Clock {
    Clock(jumps(), now().get())
}
impl Clock {
    fn done(self) -> Option<(u64, u64)> {
        let b = now().get();
        (jumps() == self.0).then_some((self.1, b))
    }
}

fn client(w: W, s: usize, o: Op) {
    let id = signing_key(arg(&o, 0) as u8);
    let me = key_of(&id);
    let (md, diff) = maxdiff(arg(&o, 2));
    std::thread::sleep(std::time::Duration::from_micros(arg(&o, 4) as u64));
    let c = clock();
    let p0 = phase0_client_init(&id);
    let at = c.done();
    let h0 = p0.0.hash().0;
    w.get().calls.push(Call { sess: s, phase: 0, me, mine: None, init: None, got: None, got_key: None, made: Some(h0), stamp: stamp_of(&p0.0), at, diff, ret: Ok(None) });
    k::evh(|| format!("session {s} client key {} begins", arg(&o, 0)));
    send(&w, s, &p0.0);
    let until = k::now_ns() + 60_000_000_000;
    for _ in 0..=arg(&o, 3) {
        let Some(p) = recv(&w, s, until) else { break };
        let (got, got_key, stamp) = (p.hash().0, signer(&p), stamp_of(&p));
        let c = clock();
        let r = phase2_client_signs(&p0, &Phase1(p), &id, md);
        let at = c.done();
        let (made, ret, p2) = match r {
            Ok((p2, key)) => (Some(p2.0.hash().0), Ok(Some(key.0)), Some(p2)),
            Err(e) => (None, Err(e.to_string()), None),
        };
        k::evh(|| format!("session {s} client gets {} from {:?}: {:?}", hx(&got), who(got_key), ret.as_ref().map(|k| who(*k))));
        w.get().calls.push(Call { sess: s, phase: 2, me, mine: Some(h0), init: Some(h0), got: Some(got), got_key, made, stamp, at, diff, ret });
        if let Some(p2) = p2 {
            w.get().accepted[s] = got_key;
            send(&w, s, &p2.0);
            break;
        }
    }
    w.get().running -= 1;
}
fn server(w: W, s: usize, o: Op) {
    let id = signing_key(arg(&o, 0) as u8);
    let me = key_of(&id);
    let (md, diff) = maxdiff(arg(&o, 2));
    let until = k::now_ns() + 60_000_000_000;
    let mut tries = arg(&o, 3);
    let (p0, p1) = loop {
        let Some(p) = recv(&w, s, until) else { w.get().running -= 1; return };
        let (got, got_key, stamp) = (p.hash().0, signer(&p), stamp_of(&p));
        let p0 = Phase0(p);
        let c = clock();
        let r = phase1_server_signs(&p0, &id, md);
        let at = c.done();
        let (made, ret, p1) = match r {
            Ok(p1) => (Some(p1.0.hash().0), Ok(None), Some(p1)),
            Err(e) => (None, Err(e.to_string()), None),
        };
        k::evh(|| format!("session {s} server key {} gets {} from {:?}: {ret:?}", arg(&o, 0), hx(&got), who(got_key)));
        w.get().calls.push(Call { sess: s, phase: 1, me, mine: None, init: None, got: Some(got), got_key, made, stamp, at, diff, ret });
        if let Some(p1) = p1 {
            break (p0, p1);
        }
        tries -= 1;
        if tries < 0 {
            w.get().running -= 1;
            return;
        }
    };
    send(&w, s, &p1.0);
    for _ in 0..=arg(&o, 3) {
        let Some(p) = recv(&w, s, until) else { break };
        let (got, got_key, stamp) = (p.hash().0, signer(&p), stamp_of(&p));
        let r = phase3_server_verify(&p0, &p1, &Phase2(p), &id);
        let ret = r.map(|k| Some(k.0)).map_err(|e| e.to_string());
        k::evh(|| format!("session {s} server finishes with {} from {:?}: {:?}", hx(&got), who(got_key), ret.as_ref().map(|k| who(*k))));
        let ok = ret.is_ok();
        w.get().calls.push(Call { sess: s, phase: 3, me, mine: Some(p1.0.hash().0), init: Some(p0.0.hash().0), got: Some(got), got_key, made: None, stamp, at: None, diff, ret });
        if ok {
            w.get().accepted[s] = got_key;
            break;
        }
    }
    w.get().running -= 1;
}
fn hx(h: &[u8; 32]) -> String {
    h[..3].iter().map(|b| format!("{b:02x}")).collect()
}
fn who(h: Option<[u8; 32]>) -> String {
    let Some(h) = h else { return "nobody".into() };
    for i in 0..4 {
        if key_of(&signing_key(i)) == h {
            return format!("key {i}");
        }
    }
    "the adversary".into()
}
fn made_up(w: &W, o: &Op) -> Option<Vec<u8>> {
    let seen = &w.get().seen;
    let old = |i: i64| if seen.is_empty() { None } else { Some(&seen[(seen.len() as i64 - 1 - i.rem_euclid(seen.len() as i64)) as usize].1) };
    let pkt = |b: &Vec<u8>| NetPktDecoder::new(&b[..]).next()?.ok();
    let id = evil(arg(o, 1));
    let other = B64(key_of(&signing_key(arg(o, 2) as u8 % 4)));
    let last = old(arg(o, 4)).and_then(pkt);
    let group = match arg(o, 3) % 6 {
        0 | 1 => unicast_group(B64(key_of(&id)), other),
        2 => last.as_ref().and_then(|p| p.group().copied()).unwrap_or(PUBLIC),
        3 => B64(key_of(&id)),
        4 => other,
        _ => PUBLIC,
    };
    let mut links: Vec<Link> = vec![];
    for i in 0..(arg(o, 5) % 4) {
        if let Some(p) = old(arg(o, 4) + i).and_then(pkt) {
            links.push(Link::new(["auth", "signed", "x"][i as usize % 3], p.hash()));
        }
    }
    let sp = match arg(o, 6) % 4 {
        0 | 1 => rspace_buf(&[b"sentinal" as &[u8]]),
        2 => rspace_buf(&[b"anonymous" as &[u8]]),
        _ => rspace_buf(&[]),
    };
    let dom = if arg(o, 7) % 4 == 3 { ab(b"test") } else { HANDSHAKE_D };
    let t = match arg(o, 8) % 6 {
        0..=2 => now(),
        3 => Stamp::new(now().get().saturating_sub(14_900_000)),
        4 => Stamp::new(now().get() + 15_100_000),
        _ => Stamp::new([0, u64::MAX][arg(o, 1) as usize % 2]),
    };
    Some(if arg(o, 9) % 5 == 4 {
        linkpoint(group, dom, &sp, &links, b"", t, ()).as_netbox()
    } else {
        keypoint(group, dom, &sp, &links, b"", t, &id, ()).as_netbox()
    }
    .thin_netpkt()
    .as_netpkt_bytes()
    .to_vec())
}
fn adversary(w: W, ops: Vec<Op>, peers: Vec<usize>) {
    let mut ops = VecDeque::from(ops);
    let mut held: Vec<(i64, usize, Vec<u8>)> = vec![];
    loop {
        k::point(k::P::Sys);
        let Some((from, b)) = w.get().net.pop_front() else {
            if let Some((_, to, b)) = held.pop() {
                deliver(&w, to, b);
                continue;
            }
            // nothing under way: speak up unasked
            if ops.front().is_some_and(|o| o.code == "say") {
                let o = ops.pop_front().unwrap();
                act(&w, &o, &mut held, 0, None);
                continue;
            }
            k::block(k::What::User(NET), None);
            continue;
        };
        w.get().seen.push((from, b.clone()));
        let to = peers[from];
        for h in &mut held {
            h.0 -= 1;
        }
        while let Some(o) = ops.front() {
            if o.code != "say" {
                break;
            }
            let o = ops.pop_front().unwrap();
            act(&w, &o, &mut held, 0, None);
        }
        match ops.pop_front() {
            Some(o) => act(&w, &o, &mut held, to, Some(b)),
            None => deliver(&w, to, b),
        }
        while let Some(i) = held.iter().position(|h| h.0 <= 0) {
            let h = held.remove(i);
            deliver(&w, h.1, h.2);
        }
    }
}
fn act(w: &W, o: &Op, held: &mut Vec<(i64, usize, Vec<u8>)>, to: usize, b: Option<Vec<u8>>) {
    let n = w.get().inbox.len();
    let old = |i: i64| {
        let s = &w.get().seen;
        (!s.is_empty()).then(|| s[s.len() - 1 - (i.rem_euclid(s.len() as i64)) as usize].1.clone())
    };
    let kind = arg(o, 0);
    if kind != 0 {
        w.get().disturbed = true;
        k::fault(["", "shake_drop", "shake_misroute", "shake_copy", "shake_hold", "shake_delay", "shake_flip", "shake_replay", "shake_forge"][kind.min(8) as usize]);
    }
    match (kind, b) {
        (0, Some(b)) => deliver(w, to, b),
        (1, _) => {}
        (2, Some(b)) => deliver(w, arg(o, 1) as usize % n, b),
        (3, Some(b)) => {
            deliver(w, to, b.clone());
            deliver(w, arg(o, 1) as usize % n, b);
        }
        (4, Some(b)) => held.push((1 + arg(o, 1) % 4, to, b)),
        (5, Some(b)) => {
            std::thread::sleep(std::time::Duration::from_micros([10, 1000, 1_000_000, 14_000_000, 16_000_000][arg(o, 1) as usize % 5]));
            deliver(w, to, b);
        }
        (6, Some(mut b)) => {
            let at = arg(o, 1) as usize % b.len();
            b[at] ^= 1 << (arg(o, 2) & 7);
            if arg(o, 3) & 1 == 1 {
                let h = crate::refpkt::hash(&b[64..]);
                b[32..64].copy_from_slice(&h);
            }
            deliver(w, to, b);
        }
        (7, b) => {
            if arg(o, 3) & 1 == 1 {
                if let Some(b) = b {
                    deliver(w, to, b);
                }
            }
            if let Some(b) = old(arg(o, 1)) {
                deliver(w, arg(o, 2) as usize % n, b);
            }
        }
        (8, b) => {
            if arg(o, 11) & 1 == 1 {
                if let Some(b) = b {
                    deliver(w, to, b);
                }
            }
            if let Some(b) = made_up(w, o) {
                deliver(w, arg(o, 10) as usize % n, b);
            }
        }
        (_, b) => {
            if let Some(b) = b {
                deliver(w, to, b);
            }
        }
    }
}

fn judge(out: &mut Out, w: &World) {
    let honest: Vec<[u8; 32]> = (0..4).map(|i| key_of(&signing_key(i))).collect();
    for (i, c) in w.calls.iter().enumerate() {
        // 1 certainly within, -1 certainly not
        let near = match c.at {
            None => 0,
            Some((a, b)) => {
                let lim = (c.diff as u128) * 1_000_000;
                let d = |t: u64| (t.abs_diff(c.stamp)) as u128;
                let inside = c.stamp >= a && c.stamp <= b;
                if d(a) < lim && d(b) < lim {
                    1
                } else if d(a) >= lim && d(b) >= lim && !inside {
                    -1
                } else {
                    0
                }
            }
        };
        let say = |s: &str| format!("session {} of {}: {s}: received {} from {}, own packet {}", c.sess, who(Some(c.me)), c.got.map(|g| hx(&g)).unwrap_or_default(), who(c.got_key), c.mine.map(|g| hx(&g)).unwrap_or_default());
        let before = &w.calls[..i];
        let hk = c.got_key.filter(|k| honest.contains(k) && *k != c.me);
        match c.phase {
            1 => {
                let from_client = before.iter().any(|o| o.phase == 0 && o.made == c.got && Some(o.me) == c.got_key && o.me != c.me);
                match &c.ret {
                    Ok(_) => {
                        out.probe("phase1");
                        out.check(c.got_key.is_some(), "C32", "unsigned", || say("the server answered a packet that is not signed"));
                        out.check(near >= 0, "C32", "stale", || say(&format!("the server answered a packet of {} at {:?}", c.stamp, c.at)));
                    }
                    Err(e) => out.check(!(from_client && near == 1), "C32", "refused", || say(&format!("the server refused to answer: {e}"))),
                }
            }
            2 => {
                let answered = before.iter().any(|o| o.phase == 1 && o.made == c.got && o.got == c.mine && Some(o.me) == c.got_key && o.me != c.me);
                match &c.ret {
                    Ok(k) => {
                        out.probe("phase2");
                        out.check(*k == c.got_key, "C32", "other-key", || say(&format!("the client accepted {}", who(*k))));
                        out.check(hk.is_none() || answered, "C32", "client-fooled", || say("the client accepted a key whose owner did not answer it"));
                        out.check(near >= 0, "C32", "stale", || say(&format!("the client accepted a packet of {} at {:?}", c.stamp, c.at)));
                    }
                    Err(e) => out.check(!(answered && near == 1), "C32", "refused", || say(&format!("the client refused: {e}"))),
                }
            }
            3 => {
                let mine = before.iter().any(|o| o.phase == 2 && o.made == c.got && o.got == c.mine && o.init == c.init && Some(o.me) == c.got_key && o.ret.is_ok());
                match &c.ret {
                    Ok(k) => {
                        out.probe("phase3");
                        out.check(*k == c.got_key, "C32", "other-key", || say(&format!("the server accepted {}", who(*k))));
                        let opener = before.iter().find(|o| o.phase == 1 && o.made == c.mine && o.sess == c.sess).and_then(|o| o.got_key);
                        out.check(*k == opener, "C32", "switched", || say(&format!("the server answered {} and accepted {}", who(opener), who(*k))));
                        out.check(hk.is_none() || mine, "C32", "server-fooled", || say("the server accepted a key whose owner did not take part as client"));
                    }
                    Err(e) => out.check(!mine, "C32", "refused", || say(&format!("the server refused: {e}"))),
                }
            }
            _ => {}
        }
        // one run of the other side authenticates one session here
        if let (true, 2 | 3, Some(h)) = (c.ret.is_ok(), c.phase, hk) {
            let accepted = w.calls.iter().filter(|o| o.phase == c.phase && o.ret.is_ok() && o.mine == c.mine && o.got == c.got && o.me == c.me).count();
            let runs = w.calls.iter().filter(|o| o.phase == c.phase - 1 && o.made == c.got && o.me == h && o.ret.is_ok()).count();
            out.check(accepted <= runs || runs == 0, "C32", "one-for-two", || say(&format!("{accepted} sessions accepted {} which took part in {runs}", who(Some(h)))));
        }
    }
}

pub struct ShakeScn;
impl Scenario for ShakeScn {
    fn name(&self) -> &'static str {
        "shake"
    }
    fn crash_prop(&self) -> &'static str {
        "C32"
    }
    fn gen(&self, r: &mut Rng, _prop: &str) -> Plan {
        let mut p = Plan::new("shake");
        p.gen_sched(r);
        p.set("k.max_steps", 60_000);
        let keys = r.range(2, 4);
        p.set("keys", keys);
        if r.chance(1, 2) {
            for i in 0..keys {
                let v = r.pick(&[0, 0, 1, 999_999, 1_000_000, 14_999_000, 15_000_000, 15_000_001, 99_999_000, 3_600_000_000]) * r.pick(&[1, 1, -1]);
                p.set(&format!("skew{i}"), v);
            }
        }
        if r.chance(1, 6) {
            p.set("k.jump_den", r.pick(&[5, 20]));
            p.set("k.jump_kinds", r.pick(&[1, 3, 8]));
        }
        let pairs = r.range(1, 3);
        let mut md = if r.chance(1, 3) { r.range(0, 8) } else { 0 };
        for i in 0..pairs {
            let (a, b) = (r.range(0, keys - 1), r.range(0, keys - 1));
            let retry = r.pick(&[0, 0, 1, 3]);
            let d = r.pick(&[0, 0, 0, 1, 100, 1_000_000]);
            if r.chance(1, 8) {
                md = r.range(0, 8);
            }
            p.op(1 + 2 * i as u32, "c", &[a, 2 * i + 1, md, retry, d]);
            p.op(2 + 2 * i as u32, "s", &[b, 2 * i, md, retry, 0]);
        }
        if !r.chance(1, 8) {
            let n = 2 * pairs;
            for _ in 0..r.range(1, 9) {
                let kind = r.pick(&[0, 0, 0, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 7, 7, 8, 8]);
                let say = r.chance(1, 5) && kind >= 7;
                let a: Vec<i64> = match kind {
                    2 | 3 => vec![r.range(0, n - 1)],
                    6 => vec![r.range(0, 400), r.range(0, 7), r.range(0, 1)],
                    7 => vec![r.range(0, 5), r.range(0, n - 1), r.range(0, 1)],
                    8 => vec![r.range(0, 1), r.range(0, keys - 1), r.range(0, 5), r.range(0, 4), r.range(0, 3), r.range(0, 3), r.range(0, 3), r.range(0, 5), r.range(0, 4), r.range(0, n - 1), r.range(0, 1)],
                    _ => vec![r.range(0, 5)],
                };
                let mut v = vec![kind];
                v.extend(a);
                p.op(0, if say { "say" } else { "adv" }, &v);
            }
        }
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        let keys = plan.get("keys").clamp(1, 4) as usize;
        let w: W = Shared::new(World::default());
        let procs: Vec<usize> = (0..keys).map(|i| k::new_proc(&format!("key{i}"), 4000 + i as u32)).collect();
        for (i, p) in procs.iter().enumerate() {
            k::sim().procs[*p].skew = plan.get(&format!("skew{i}")) * 1000;
        }
        let ap = k::new_proc("adversary", 4100);
        let ids: Vec<u32> = plan.actors().into_iter().filter(|a| *a > 0).collect();
        let n = ids.iter().max().copied().unwrap_or(1) as usize;
        w.get().inbox = vec![VecDeque::new(); n];
        w.get().accepted = vec![None; n];
        let mut peers = vec![0; n];
        let mut ts = vec![];
        for a in ids {
            let Some(o) = plan.ops_of(a).first().cloned() else { continue };
            let s = a as usize - 1;
            peers[s] = arg(&o, 1) as usize % n;
            let (w2, p) = (w.clone(), procs[arg(&o, 0) as usize % keys]);
            w.get().running += 1;
            ts.push(if o.code == "c" { k::spawn_in(p, "client", move || client(w2, s, o)) } else { k::spawn_in(p, "server", move || server(w2, s, o)) });
        }
        let (w2, ops) = (w.clone(), plan.ops_of(0));
        let p2 = peers.clone();
        k::spawn_in(ap, "network", move || adversary(w2, ops, p2));
        let end = k::ctl_join(&ts, Some(k::now_ns() + 400_000_000_000));
        if end == k::Wake::StepLimit {
            out.probe("step_limit");
        } else if end != k::Wake::Woken {
            out.viol("C32", "hangs", format!("a handshake does not end: {end:?}"));
        }
        for p in k::sim().panics.iter().filter(|p| p.0 != 0) {
            out.viol("C32", "panic", format!("{} panicked: {} {}", k::sim().threads[p.0].name, p.2, p.3));
        }
        k::sim().panics.clear();
        let w = w.get();
        judge(out, w);
        // left alone, everybody whose clock is right gets through
        let even = (0..keys).all(|i| plan.get(&format!("skew{i}")) == 0) && plan.get("k.jump_den") == 0;
        if end == k::Wake::Woken && !w.disturbed && even {
            for (s, p) in peers.iter().enumerate() {
                let o = |s: usize| plan.ops_of(s as u32 + 1).first().cloned();
                let (Some(a), Some(b)) = (o(s), o(*p)) else { continue };
                let same = arg(&a, 0) == arg(&b, 0) || peers[*p] != s || a.code == b.code;
                let ok = [&a, &b].iter().all(|o| maxdiff(arg(o, 2)).1 >= 15) && plan.get("k.stall_den") + plan.get("k.timer_den") == 0;
                if !same && ok {
                    let want = key_of(&signing_key(arg(&b, 0) as u8));
                    out.probe("undisturbed");
                    out.check(w.accepted[s] == Some(want), "C32", "incomplete", || format!("session {s} was left alone but accepted {}", who(w.accepted[s])));
                }
            }
        }
    }
    fn components(&self) -> &'static str {
        "real: linkspace-common handshake and packet reader, linkspace-pkt, k256, blake3; stub: network (the adversary), clocks, scheduler"
    }
}
