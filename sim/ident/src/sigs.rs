//! Parties sign hashes and exchange (public key, signature, hash) over a channel that damages and mixes them.
use crate::ident::secret;
use linkspace_cryptography as c;
use linkspace_cryptography::SigningKey;
use lksim_engine::*;
use lksim_kernel as k;
use std::panic::catch_unwind;

pub struct Sigs;
#[derive(Clone)]
struct Msg {
    by: usize,
    pk: [u8; 32],
    sig: [u8; 64],
    hash: [u8; 32],
    body: Vec<u8>,
}
#[derive(Default)]
struct Hist {
    keys: Vec<SigningKey>,
    sent: Vec<Msg>,
    viols: Vec<(&'static str, String)>,
    probes: Vec<&'static str>,
}
/// random, repeating, ending in zeros
fn body(n: i64, len: i64, kind: i64) -> Vec<u8> {
    let mut r = Rng::new(n as u64);
    let mut b: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
    let l = b.len();
    match kind {
        1 => (32..l).for_each(|i| b[i] = b[i - 32]),
        2 => b[l / 2..].fill(0),
        3 => b.fill(n as u8),
        _ => {}
    }
    b
}
const LENS: [i64; 11] = [0, 1, 32, 64, 100, 1024, 3000, 4097, 20_000, 65_536, 70_001];
fn gen_len(r: &mut Rng) -> i64 {
    if r.chance(1, 8) {
        r.pick(&LENS[7..])
    } else {
        r.pick(&LENS[..7])
    }
}
/// `mode` 1: from the caller's own buffer, in one piece; 2..: pieces of `mode` bytes, some of them empty
fn hash_mode(buf: &mut Vec<u8>, b: &[u8], cut: &[i64], mode: i64) -> [u8; 32] {
    match mode {
        0 => hash_split(b, cut),
        1 => {
            buf.clear();
            buf.extend_from_slice(b);
            c::hash_segments(&[&buf[..]])
        }
        n => {
            let mut v: Vec<&[u8]> = vec![];
            for x in b.chunks(n as usize) {
                if x[0] % 4 == 0 {
                    v.push(&[]);
                }
                v.push(x);
            }
            c::hash_segments(&v)
        }
    }
}
fn gen_mode(r: &mut Rng) -> i64 {
    r.pick(&[0, 0, 0, 1, 1, 7, 32, 64, 1000])
}
/// secrets of pairs of keys that begin or end alike
const NEAR: [&str; 8] = [
    "1d1cc4da3548e9c466924e780663342e29964dee7fae2ab48f19a7210e27b33c",
    "18900c6ef3bfcfc26c742c59ea7a8caca7c65208b00314757583fb2eed33a8ce",
    "96c3a973cbb4a3ec660e07821dd811b4ad54c05a3d04b9bfb01e3d9c43c8fc7b",
    "dcde10417e624f48680247675dc9ff8d21b75da5b96238b652574c377ea774e8",
    "d130d1e7a8e1069e8532c27773a3e0ccede0bd1263c8c472cb3f9a8ab77ac139",
    "57dd07f2c740adfdd7dfdbdbbfe709c4808776a795895b6af50d8cff33621ecb",
    "949ddb0d22c3cfa61fb3f0720f8977b8a2e5da380f3e20a0582373e041a9c018",
    "a4fb8743a1259fcf4ab0c639067ef0afce99f73ba1fe2ff0c5309c589aed96ca",
];
/// (secret, body parameters, public key, hash, signature) written by the release this tree is based on
const OLD: &[(&str, [i64; 3], &str, &str, &str)] = include!("golden_sigs.in");
fn hex<const N: usize>(s: &str) -> [u8; N] {
    std::array::from_fn(|j| u8::from_str_radix(&s[2 * j..2 * j + 2], 16).unwrap())
}
/// the same calls as in that release, on the libraries themselves
fn other_release_accepts(m: &Msg) -> bool {
    use k256::schnorr::{signature::hazmat::PrehashVerifier, Signature, VerifyingKey};
    let (Ok(k), Ok(s)) = (VerifyingKey::from_bytes(&m.pk), Signature::try_from(&m.sig[..])) else { return false };
    *blake3::hash(&m.body).as_bytes() == m.hash && k.verify_prehash(&m.hash, &s).is_ok()
}
fn hash_split(b: &[u8], cut: &[i64]) -> [u8; 32] {
    let mut v: Vec<&[u8]> = vec![];
    let mut rest = b;
    for c in cut {
        let n = (*c as usize).min(rest.len());
        let (x, y) = rest.split_at(n);
        v.push(x);
        rest = y;
    }
    v.push(rest);
    c::hash_segments(&v)
}
fn thread(h: Shared<Hist>, ops: Vec<Op>) {
    let viol = |c: &'static str, m: String| h.get().viols.push((c, m));
    // a buffer that is used again for every message
    let mut buf = vec![];
    for o in ops {
        let a = |i: usize| o.args.get(i).copied().unwrap_or(0);
        k::point(k::P::User);
        k::evh(|| format!("{} {:?}", o.code, o.args));
        match o.code.as_str() {
            "send" => {
                let by = a(0) as usize % h.get().keys.len();
                let key = h.get().keys[by].clone();
                let b = body(a(1), a(2), a(6));
                let hash = hash_mode(&mut buf, &b, &[a(3), a(4)], a(5));
                if hash != *blake3::hash(&b).as_bytes() {
                    viol("hash-depends-on-split", format!("{} bytes cut at {} and {} (mode {}) do not hash to the digest of the whole", b.len(), a(3), a(4), a(5)));
                }
                let sig = c::sign_hash(&key, &hash);
                k::evh(|| format!("sign {by}"));
                let m = Msg { by, pk: key.pubkey_bytes(), sig, hash, body: b };
                if !other_release_accepts(&m) {
                    viol("refused-elsewhere", format!("a message of party {by} ({} bytes) is refused by a party running the earlier release", m.body.len()));
                }
                h.get().sent.push(m);
            }
            // a message of a party that runs an earlier release
            "old" => {
                let (s, b, pk, hash, sig) = OLD[a(0) as usize % OLD.len()];
                let b = body(b[0], b[1], b[2]);
                let m = Msg { by: 99, pk: hex(pk), sig: hex(sig), hash: hash_mode(&mut buf, &b, &[a(1), a(2)], a(3)), body: b };
                if m.hash != hex(hash) {
                    viol("hash-changed", format!("a body of {} bytes hashes differently than in the earlier release", m.body.len()));
                }
                match SigningKey::try_from(hex(s)) {
                    Ok(k) if k.pubkey_bytes() == m.pk => {}
                    _ => viol("key-changed", "a secret has another public key than in the earlier release".into()),
                }
                h.get().sent.push(m);
            }
            "recv" | "mix" => {
                let n = h.get().sent.len();
                if n == 0 {
                    continue;
                }
                let orig = h.get().sent[a(0) as usize % n].clone();
                let mut m = orig.clone();
                let how = a(1) % 8;
                let at = a(2) as usize;
                match (o.code.as_str(), how) {
                    ("mix", _) => {
                        let x = h.get().sent[at % n].clone();
                        match how % 3 {
                            0 => m.pk = x.pk,
                            1 => m.sig = x.sig,
                            _ => {
                                m.hash = x.hash;
                                m.body = x.body
                            }
                        }
                    }
                    (_, 0) => m.pk[at % 32] ^= 1 << (at / 32 % 8),
                    (_, 1) => m.sig[at % 64] ^= 1 << (at / 64 % 8),
                    (_, 2) => {
                        if m.body.is_empty() {
                            continue;
                        }
                        let l = m.body.len();
                        m.body[at % l] ^= 1 << (at / 128 % 8);
                        m.hash = hash_mode(&mut buf, &m.body, &[a(3)], a(4));
                    }
                    (_, 3) => m.hash[at % 32] ^= 1 << (at / 32 % 8),
                    (_, 4) => {
                        // truncated body
                        let l = m.body.len();
                        m.body.truncate(at % (l + 1));
                        m.hash = hash_mode(&mut buf, &m.body, &[a(3)], a(4));
                    }
                    (_, 5) => match at % 8 {
                        0 => m.pk = [0xff; 32],
                        1 => m.sig[..32].fill(0xff),
                        2 => m.sig[32..].fill(0xff),
                        3 => m.hash = [0; 32],
                        4 => m.pk = [0; 32],
                        5 => m.hash = [0xff; 32],
                        6 => m.sig.rotate_left(32),
                        _ => m.sig = [0; 64],
                    },
                    _ => {}
                }
                let same = m.pk == orig.pk && m.sig == orig.sig && m.hash == orig.hash;
                // a mixture is genuine if some party sent exactly this triple
                let genuine = same || h.get().sent.iter().any(|s| s.pk == m.pk && s.sig == m.sig && s.hash == m.hash);
                if same && m.body != orig.body {
                    viol("hash-collision", format!("a damaged body of {} bytes has the hash of the original", m.body.len()));
                }
                match catch_unwind(|| c::validate_signature(&m.pk, &m.sig, &m.hash)) {
                    Ok(Ok(())) if !genuine => viol("forgery-accepted", format!("message of party {} accepted after {} {how} at {at}", orig.by, o.code)),
                    Ok(Ok(())) => h.get().probes.push("accepted"),
                    Ok(Err(e)) if genuine => viol("genuine-refused", format!("message of party {} refused: {e}", orig.by)),
                    Ok(Err(_)) => h.get().probes.push("refused"),
                    Err(_) => viol("validate-panic", format!("validation panicked after {} {how} at {at}: {:?}", o.code, k::sim().panics.last())),
                }
            }
            _ => {}
        }
    }
}
impl Scenario for Sigs {
    fn name(&self) -> &'static str {
        "sigs"
    }
    fn crash_prop(&self) -> &'static str {
        "C07"
    }
    fn gen(&self, r: &mut Rng, _: &str) -> Plan {
        let mut p = Plan::new("sigs");
        p.gen_sched(r);
        if r.chance(3, 4) {
            p.set("k.switch_den", r.pick(&[2, 3, 5]));
            p.set("k.pct", 0);
        }
        p.set("k.max_steps", 60_000);
        p.set("parties", r.range(1, 3));
        p.set("near", if r.chance(1, 3) { r.range(1, 4) } else { 0 });
        for a in 0..r.range(1, 3) {
            p.op(a as u32, "send", &[r.range(0, 2), r.range(0, 5), gen_len(r), r.range(0, 70), r.range(0, 1100), gen_mode(r), r.range(0, 4)]);
            for _ in 0..r.range(2, 8) {
                match r.below(6) {
                    5 => p.op(a as u32, "old", &[r.range(0, 99), r.range(0, 70), r.range(0, 1100), gen_mode(r)]),
                    0 => p.op(a as u32, "send", &[r.range(0, 2), r.range(0, 5), gen_len(r), r.range(0, 70), r.range(0, 1100), gen_mode(r), r.range(0, 4)]),
                    1 => p.op(a as u32, "mix", &[r.range(0, 9), r.range(0, 7), r.range(0, 1 << 16)]),
                    _ => p.op(a as u32, "recv", &[r.range(0, 9), r.range(0, 7), r.range(0, 1 << 16), r.range(0, 2000), gen_mode(r)]),
                }
            }
        }
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        let h: Shared<Hist> = Shared::new(Hist::default());
        let p0 = k::new_proc("keys", 1999);
        let (h2, n, near) = (h.clone(), plan.get("parties"), plan.get("near") as usize);
        let t = k::spawn_in(p0, "gen", move || {
            for i in 0..n {
                if near > 0 && i < 2 {
                    let s: Vec<u8> = (0..32).map(|j| u8::from_str_radix(&NEAR[(near - 1) % 4 * 2 + i as usize][2 * j..2 * j + 2], 16).unwrap()).collect();
                    h2.get().keys.push(SigningKey::try_from(s.try_into().unwrap()).unwrap());
                } else if i % 2 == 0 {
                    h2.get().keys.push(SigningKey::generate());
                } else {
                    let s = secret(&SigningKey::generate());
                    h2.get().keys.push(SigningKey::try_from(s).unwrap());
                }
            }
        });
        k::ctl_join(&[t], None);
        let mut tids = vec![];
        for a in plan.actors() {
            let p = k::new_proc(&format!("p{a}"), 2000 + a);
            let (h2, ops) = (h.clone(), plan.ops_of(a));
            tids.push(k::spawn_in(p, "u", move || thread(h2, ops)));
        }
        let w = k::ctl_join(&tids, Some(k::now_ns() + 60_000_000_000));
        if w == k::Wake::StepLimit {
            return;
        }
        out.check(w == k::Wake::Woken, "C07", "stuck", || format!("a signature operation never returned: {w:?}"));
        for (c, m) in h.get().viols.drain(..) {
            out.viol("C07", c, m);
        }
        for p in &h.get().probes {
            out.probe(p);
        }
    }
}
