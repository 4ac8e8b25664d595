//! Users of several processes generate, encrypt, store, load and unlock identity keys.
use linkspace_argon2_identity as id;
use linkspace_argon2_identity::Costs;
use linkspace_cryptography::SigningKey;
use lksim_engine::*;
use lksim_kernel as k;
use lksim_kernel::choice::Kind;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<PropSpec> {
    const RULE: &str = "one run = one generated plan (processes, threads, key operations, damage, random-source and file faults) executed under one seeded schedule; non-trivial = more than 20 scheduling points and 3 context switches with an event hash not seen before";
    vec![
        PropSpec { id: "C06", scenarios: &[("ident", 1)], quick_runs: 20_000, thorough_runs: 400_000, level_note: "seeded sampling of operation histories, damage and faults over the real key code with small argon2 costs", rule: RULE },
        PropSpec { id: "C07", scenarios: &[("sigs", 1)], quick_runs: 20_000, thorough_runs: 400_000, level_note: "seeded sampling of message damage and mixing over the real signature code", rule: RULE },
    ]
}

struct Stored {
    text: String,
    pass: Vec<u8>,
    secret: [u8; 32],
    public: [u8; 32],
}
#[derive(Default)]
struct Hist {
    keys: Vec<(usize, SigningKey)>,
    stored: Vec<Stored>,
    viols: Vec<(&'static str, String)>,
    probes: Vec<&'static str>,
    generating: u32,
}
pub struct Ident;

/// texts written by an earlier release, their passwords and secrets
pub const GOLDEN: &[(&str, &[u8], &str)] = include!("golden.in");

pub fn secret(k: &SigningKey) -> [u8; 32] {
    k.0.to_bytes().into()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
const PASS: [&[u8]; 9] = [
    b"",
    b"hunter2",
    b"hunter2 ",
    b"pass\0word",
    b"pass",
    "p\u{e4}ssw\u{f6}rt".as_bytes(),
    &[0xff, 0xfe, 0, 1, 2],
    b"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdefX",
    &[b'a'; 200],
];
/// the texts of long passwords differ only at their end
fn pass(i: i64) -> Vec<u8> {
    let i = i as usize % 16;
    if let Some(p) = PASS.get(i) {
        return p.to_vec();
    }
    let (n, last) = [(300, b'a'), (300, b'b'), (1500, b'a'), (1500, b'b'), (5000, b'a'), (70_000, b'a'), (70_000, b'b')][i - PASS.len()];
    let mut v = vec![b'a'; n];
    v[n - 1] = last;
    v
}
/// the first six are cheap, then more lanes or passes, then much memory
const COSTS: [(u32, u32, u32); 13] = [(8, 1, 1), (8, 2, 1), (16, 1, 2), (17, 3, 1), (64, 1, 1), (32, 2, 2), (72, 1, 9), (130, 1, 16), (8, 17, 1), (8, 70, 1), (2160, 1, 270), (65_544, 1, 1), (1 << 17, 4, 4)];
fn gen_pass(r: &mut Rng) -> i64 {
    if r.chance(1, 6) {
        r.range(9, 15)
    } else {
        r.range(0, 8)
    }
}
fn gen_cost(r: &mut Rng) -> i64 {
    if r.chance(1, 1200) {
        r.pick(&[11, 11, 12])
    } else if r.chance(1, 10) {
        r.range(6, 10)
    } else {
        r.range(0, 5)
    }
}
/// a text as the format prescribes, with any salt in the place of the public key
fn craft(secret: &[u8; 32], pass: &[u8], salt: &[u8], c: Costs) -> Option<String> {
    use base64::prelude::*;
    let config = argon2::Config { variant: argon2::Variant::Argon2d, mem_cost: c.mem, time_cost: c.times, lanes: c.parallelism, ..Default::default() };
    let d = argon2::hash_raw(pass, salt, &config).ok()?;
    let x: Vec<u8> = d.iter().zip(secret).map(|(a, b)| a ^ b).collect();
    Some(format!("$argon2d$v=19$m={},t={},p={}${}${}", c.mem, c.times, c.parallelism, BASE64_STANDARD_NO_PAD.encode(salt), BASE64_STANDARD_NO_PAD.encode(x)))
}
fn cost(i: i64) -> Costs {
    let (mem, times, parallelism) = COSTS[i as usize % COSTS.len()];
    Costs { mem, times, parallelism }
}
fn pick(n: u64) -> u64 {
    k::sim().ch.choose(Kind::User, |r| r.below(n))
}
/// a text whose cost parameters would take too long or too much memory to try
fn hostile(t: &str) -> bool {
    let mut n = 0u64;
    for part in t.split('$').filter(|p| p.contains('=')) {
        for c in part.chars() {
            match c.to_digit(10) {
                Some(d) => n = (n * 10 + d as u64).min(1 << 40),
                None => n = 0,
            }
            if n > 300 {
                return true;
            }
        }
        n = 0;
    }
    false
}
fn wrong_pass(p: &[u8], how: u64, at: u64) -> Vec<u8> {
    let mut q = p.to_vec();
    match how % 7 {
        0 if !q.is_empty() => {
            let i = at as usize % q.len();
            q[i] ^= 1 << (at / 256 % 8)
        }
        1 if !q.is_empty() => {
            q.pop();
        }
        2 => q.push(0),
        3 => q.push(b'\n'),
        4 if !q.is_empty() => {
            q.remove(0);
        }
        5 if !q.is_empty() => q.clear(),
        _ => q.extend_from_slice(b" "),
    }
    q
}
fn damage(t: &str, how: u64, at: u64, other: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    let n = b.len().max(1);
    let i = at as usize % n;
    const AL: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/$=, ";
    match how % 10 {
        0 => b[i] ^= 1 << (at / 997 % 7),
        1 => {
            b.remove(i);
        }
        2 => b.insert(i, AL[(at / 997) as usize % AL.len()]),
        3 => b.truncate(i),
        4 => b[i] = AL[(at / 997) as usize % AL.len()],
        5 => b.insert(i, b[i]),
        6 => b = b[i..].to_vec(),
        // one field of the other text
        7 => {
            let f: Vec<&str> = t.split('$').collect();
            let g: Vec<&str> = other.split('$').collect();
            let j = at as usize % f.len();
            let mut o: Vec<&str> = f.clone();
            if j < g.len() {
                o[j] = g[j];
            }
            return o.join("$");
        }
        // torn overwrite: head of the new text, tail of the old one
        8 => {
            let o = other.as_bytes();
            if i < o.len() {
                b[i..].iter_mut().zip(&o[i..]).for_each(|(x, y)| *x = *y);
            }
        }
        // zero-filled tail
        _ => b[i..].iter_mut().for_each(|x| *x = 0),
    }
    String::from_utf8_lossy(&b).into_owned()
}

fn thread(h: Shared<Hist>, p: usize, ops: Vec<Op>) {
    let viol = |c: &'static str, m: String| h.get().viols.push((c, m));
    for o in ops {
        let a = |i: usize| o.args.get(i).copied().unwrap_or(0);
        k::point(k::P::User);
        k::evh(|| format!("{} {:?}", o.code, o.args));
        match o.code.as_str() {
            "gen" => {
                let f0 = rand_faults();
                let lone = h.get().generating == 0;
                h.get().generating += 1;
                let t0 = k::sim().rand_total;
                let r = catch_unwind(SigningKey::generate);
                let got = if lone && h.get().generating == 1 { k::sim().rand_total - t0 } else { u64::MAX };
                h.get().generating -= 1;
                match r {
                    Err(_) => {
                        h.get().probes.push("generate_refused");
                        if rand_faults() == f0 {
                            viol("generate-panic", format!("generating a key panicked without a fault: {:?}", k::sim().panics.last()));
                        }
                    }
                    Ok(key) => {
                        k::evh(|| format!("gen {}", hex(&key.pubkey_bytes())));
                        h.get().probes.push("generated");
                        if got < 32 {
                            viol("weak-key", format!("a key was generated from {got} bytes of the random source"));
                        }
                        let s = secret(&key);
                        if lone {
                            h.get().probes.push("generated_alone");
                        }
                        if h.get().keys.iter().any(|(_, k2)| secret(k2) == s || k2.pubkey_bytes() == key.pubkey_bytes()) {
                            viol("repeated-key", format!("the key {} was generated twice", hex(&key.pubkey_bytes())));
                        }
                        check_key(&h, &key);
                        h.get().keys.push((p, key));
                    }
                }
            }
            "enc" => {
                let Some((_, key)) = h.get().keys.get(a(0) as usize % h.get().keys.len().max(1)).cloned() else { continue };
                let pass = pass(a(1));
                match catch_unwind(|| id::encrypt(&key, &pass, Some(cost(a(2))))) {
                    Ok(text) => {
                        k::evh(|| format!("enc {text}"));
                        h.get().probes.push("encrypted");
                        if id::pubkey(&text).ok() != Some(key.pubkey_bytes()) {
                            viol("wrong-public-key", format!("the text {text} was made for {} but names {:?}", hex(&key.pubkey_bytes()), id::pubkey(&text).map(|k| hex(&k))));
                        }
                        h.get().stored.push(Stored { text, pass, secret: secret(&key), public: key.pubkey_bytes() });
                    }
                    Err(_) => viol("encrypt-panic", format!("encrypting {} panicked: {:?}", hex(&key.pubkey_bytes()), k::sim().panics.last())),
                }
            }
            "old" => {
                let (t, pass, s) = GOLDEN[a(0) as usize % GOLDEN.len()];
                h.get().probes.push("text_of_earlier_release");
                let s: [u8; 32] = unhex(s).try_into().unwrap();
                let public = SigningKey::try_from(s).unwrap().pubkey_bytes();
                h.get().stored.push(Stored { text: t.into(), pass: pass.to_vec(), secret: s, public });
                open(&h, h.get().stored.len() - 1);
            }
            "open" => {
                let n = h.get().stored.len();
                if n > 0 {
                    open(&h, a(0) as usize % n);
                }
            }
            "wrong" => {
                let n = h.get().stored.len();
                if n == 0 {
                    continue;
                }
                let i = a(0) as usize % n;
                let (t, right) = (h.get().stored[i].text.clone(), h.get().stored[i].pass.clone());
                let pass = if a(3) == 1 { pass(a(2)) } else { wrong_pass(&right, a(1) as u64, a(2) as u64) };
                if pass == right {
                    continue;
                }
                h.get().probes.push("wrong_password");
                match catch_unwind(|| id::decrypt(&t, &pass)) {
                    Ok(Ok(k2)) => viol("wrong-password-accepted", format!("{t} for password {right:?} was opened with {pass:?} as {}", hex(&k2.pubkey_bytes()))),
                    Ok(Err(_)) => {}
                    Err(_) => viol("decrypt-panic", format!("opening {t} with {pass:?} panicked: {:?}", k::sim().panics.last())),
                }
            }
            "damage" => {
                let n = h.get().stored.len();
                if n == 0 {
                    continue;
                }
                let (i, j) = (a(0) as usize % n, a(3) as usize % n);
                let t = damage(&h.get().stored[i].text, a(1) as u64, a(2) as u64, &h.get().stored[j].text);
                judge_text(&h, &t, &[i, j], a(4) == 1);
            }
            // the right secret below the name of another key
            "craft" => {
                let n = h.get().stored.len();
                if n == 0 {
                    continue;
                }
                let s = &h.get().stored[a(0) as usize % n];
                let (sec, pw, mut salt) = (s.secret, s.pass.clone(), s.public.to_vec());
                let at = a(2) as usize;
                match a(1) {
                    0 => salt[at % 32] ^= 1 << (at / 32 % 8),
                    1 => salt.truncate(8 + at % 24),
                    2 => salt.push(at as u8),
                    _ => salt.extend_from_slice(&s.public),
                }
                let i = a(0) as usize % n;
                if let Some(t) = craft(&sec, &pw, &salt, cost(a(3))) {
                    h.get().probes.push("crafted_text");
                    judge_text(&h, &t, &[i], false);
                }
            }
            "store" => {
                let n = h.get().stored.len();
                if n == 0 {
                    continue;
                }
                let i = a(0) as usize % n;
                let t = h.get().stored[i].text.clone();
                let r = std::fs::write(format!("/sim/home/id{}", a(1) % 2), t.as_bytes());
                k::evh(|| format!("store {i} {}", r.is_ok()));
            }
            "load" => {
                let Ok(b) = std::fs::read(format!("/sim/home/id{}", a(0) % 2)) else { continue };
                let t = String::from_utf8_lossy(&b).into_owned();
                let n = h.get().stored.len();
                h.get().probes.push("loaded");
                let all: Vec<usize> = (0..n).collect();
                judge_text(&h, &t, &all, true);
            }
            "sleep" => std::thread::sleep(std::time::Duration::from_micros(a(0) as u64)),
            _ => {}
        }
    }
}
fn rand_faults() -> u64 {
    k::counter("getrandom_eintr") + k::counter("getrandom_eio") + k::counter("getrandom_short")
}
fn check_key(h: &Shared<Hist>, key: &SigningKey) {
    let s = secret(key);
    match SigningKey::try_from(s) {
        Ok(k2) if k2.pubkey_bytes() == key.pubkey_bytes() => {}
        r => h.get().viols.push(("invalid-key", format!("a generated key does not survive its own bytes: {:?}", r.map(|k| hex(&k.pubkey_bytes()))))),
    }
    let m = [7u8; 32];
    let sig = linkspace_cryptography::sign_hash(key, &m);
    if linkspace_cryptography::validate_signature(&key.pubkey_bytes(), &sig, &m).is_err() {
        h.get().viols.push(("invalid-key", format!("a signature of the key {} does not verify", hex(&key.pubkey_bytes()))));
    }
}
fn open(h: &Shared<Hist>, i: usize) {
    let s = &h.get().stored[i];
    let (t, pass, sec, pk) = (s.text.clone(), s.pass.clone(), s.secret, s.public);
    h.get().probes.push("opened");
    match catch_unwind(|| id::decrypt(&t, &pass)) {
        Ok(Ok(k2)) => {
            if secret(&k2) != sec || k2.pubkey_bytes() != pk {
                h.get().viols.push(("wrong-key", format!("{t} with its own password opened as {} instead of {}", hex(&k2.pubkey_bytes()), hex(&pk))));
            }
        }
        Ok(Err(e)) => h.get().viols.push(("cannot-open", format!("{t} does not open with its own password {pass:?}: {e}"))),
        Err(_) => h.get().viols.push(("decrypt-panic", format!("opening {t} panicked: {:?}", k::sim().panics.last()))),
    }
    if id::pubkey(&t).ok() != Some(pk) {
        h.get().viols.push(("wrong-public-key", format!("{t} names {:?} instead of {}", id::pubkey(&t).map(|k| hex(&k)), hex(&pk))));
    }
}
/// a text that may be damaged, spliced from the texts `from` or torn
fn judge_text(h: &Shared<Hist>, t: &str, from: &[usize], all_pass: bool) {
    if hostile(t) {
        h.get().probes.push("skipped_hostile_cost");
        return;
    }
    h.get().probes.push("damaged_text");
    let named = match catch_unwind(|| id::pubkey(t)) {
        Ok(r) => r.ok(),
        Err(_) => {
            h.get().viols.push(("pubkey-panic", format!("reading the public key of {t:?} panicked: {:?}", k::sim().panics.last())));
            None
        }
    };
    let mut tried: Vec<Vec<u8>> = vec![];
    for &i in from {
        let pass = h.get().stored[i].pass.clone();
        if tried.contains(&pass) || tried.len() > 3 {
            continue;
        }
        tried.push(pass.clone());
        match catch_unwind(AssertUnwindSafe(|| id::decrypt(t, &pass))) {
            Ok(Ok(k2)) => {
                let (s, pk) = (secret(&k2), k2.pubkey_bytes());
                let ok = h.get().stored.iter().any(|x| x.secret == s && x.public == pk && x.pass == pass && from.iter().any(|j| h.get().stored[*j].secret == s));
                if !ok {
                    h.get().viols.push(("other-key", format!("the damaged text {t:?} opened with {pass:?} as {}, which was never stored with that password", hex(&pk))));
                }
                if named != Some(pk) {
                    h.get().viols.push(("names-other-key", format!("{t:?} opens as {} but names {:?}", hex(&pk), named.map(|k| hex(&k)))));
                }
                h.get().probes.push("still_opens");
            }
            Ok(Err(_)) => {}
            Err(_) => h.get().viols.push(("decrypt-panic", format!("opening the damaged text {t:?} panicked: {:?}", k::sim().panics.last()))),
        }
        if !all_pass {
            break;
        }
    }
}

impl Scenario for Ident {
    fn name(&self) -> &'static str {
        "ident"
    }
    fn crash_prop(&self) -> &'static str {
        "C06"
    }
    fn gen(&self, r: &mut Rng, _prop: &str) -> Plan {
        let mut p = Plan::new("ident");
        p.gen_sched(r);
        if r.chance(3, 4) {
            p.set("k.switch_den", r.pick(&[2, 3, 5]));
            p.set("k.pct", 0);
        }
        p.set("k.max_steps", 60_000);
        match r.below(4) {
            0 => {
                p.set("k.rand_fail_pm", r.pick(&[100, 400]));
            }
            1 => {
                p.set("k.rand_short_pm", r.pick(&[300, 800]));
            }
            2 => {
                p.set("k.rand_fail_pm", 100);
                p.set("k.rand_short_pm", 300);
            }
            _ => {}
        }
        if r.chance(1, 3) {
            p.set("k.fs_short_pm", 400);
        }
        if r.chance(1, 3) {
            p.set("k.max_kills", 2);
            p.set("kill_den", r.pick(&[10, 40]));
        }
        p.set("sense", if r.chance(1, 2) { r.range(1, 1 << 20) } else { 0 });
        let np = r.range(1, 2);
        for pr in 0..np {
            for t in 0..r.range(1, 2) {
                let a = (pr * 10 + t) as u32;
                p.op(a, "gen", &[]);
                p.op(a, "enc", &[r.range(0, 7), gen_pass(r), gen_cost(r)]);
                for _ in 0..r.range(2, 9) {
                    match r.below(16) {
                        0 => p.op(a, "gen", &[]),
                        1 | 2 => p.op(a, "enc", &[r.range(0, 7), gen_pass(r), gen_cost(r)]),
                        3 | 4 => p.op(a, "open", &[r.range(0, 9)]),
                        5 | 6 => p.op(a, "wrong", &[r.range(0, 9), r.range(0, 6), if r.chance(1, 4) { gen_pass(r) } else { r.range(0, 1 << 16) }, r.range(0, 1)]),
                        7 => p.op(a, "store", &[r.range(0, 9), r.range(0, 1)]),
                        8 => p.op(a, "load", &[r.range(0, 1)]),
                        9 => p.op(a, "old", &[r.range(0, 63)]),
                        15 => p.op(a, "craft", &[r.range(0, 9), if r.chance(1, 2) { 0 } else { r.range(1, 3) }, r.range(0, 1 << 16), r.range(0, 5)]),
                        10 => p.op(a, "sleep", &[r.pick(&[1, 20])]),
                        _ => p.op(a, "damage", &[r.range(0, 9), r.range(0, 9), r.range(0, 1 << 20), r.range(0, 9), r.range(0, 1)]),
                    }
                }
            }
        }
        p
    }
    fn run(&self, plan: &Plan, out: &mut Out) {
        k::fs::h_mkdirs("/sim/home");
        let h: Shared<Hist> = Shared::new(Hist::default());
        let mut tids = vec![];
        let mut procs: std::collections::BTreeMap<u32, usize> = Default::default();
        for a in plan.actors() {
            let p = *procs.entry(a / 10).or_insert_with(|| {
                let p = k::new_proc(&format!("p{}", a / 10), 2000 + a / 10);
                k::sim().procs[p].kill_den = plan.get("kill_den") as u64;
                p
            });
            let (h2, ops) = (h.clone(), plan.ops_of(a));
            tids.push(k::spawn_in(p, &format!("u{}", a % 10), move || thread(h2, p, ops)));
        }
        let w = k::ctl_join(&tids, Some(k::now_ns() + 60_000_000_000));
        if w == k::Wake::StepLimit {
            out.probe("step_limit");
            return;
        }
        out.check(w == k::Wake::Woken, "C06", "stuck", || format!("a key operation never returned: {w:?}"));
        // after the faults everything that was ever stored still opens, from a fresh process
        k::sim().faults_off = true;
        let p = k::new_proc("fresh", 4000);
        let (h2, sense) = (h.clone(), plan.get("sense") as u64);
        let t = k::spawn_in(p, "check", move || {
            for i in 0..h2.get().stored.len() {
                open(&h2, i);
            }
            for f in 0..2 {
                thread(h2.clone(), p, vec![Op { actor: 0, code: "load".into(), args: vec![f] }]);
            }
            // every byte of the randomness that goes into a key matters
            if sense > 0 {
                let st = k::sim().rand_state.clone();
                let base = k::sim().rand_total;
                let a = SigningKey::generate();
                let used = k::sim().rand_total - base;
                k::sim().rand_state = st;
                k::sim().rand_total = base;
                let at = sense % 32;
                k::sim().rand_flip = Some((base + at, 1 << (sense / 32 % 8)));
                let b = SigningKey::generate();
                k::sim().rand_flip = None;
                if used < 32 || a.pubkey_bytes() == b.pubkey_bytes() {
                    h2.get().viols.push(("weak-key", format!("byte {at} of the {used} random bytes does not influence the generated key")));
                }
                check_key(&h2, &b);
            }
        });
        let w = k::ctl_join(&[t], Some(k::now_ns() + 60_000_000_000));
        if w == k::Wake::StepLimit {
            return;
        }
        out.check(w == k::Wake::Woken, "C06", "stuck", || format!("a key operation never returned after the faults stopped: {w:?}"));
        for (c, m) in h.get().viols.drain(..) {
            out.viol("C06", c, m);
        }
        for p in &h.get().probes {
            out.probe(p);
        }
        // the file holds a prefix of one stored text, that text, or nothing
        let _ = pick;
    }
    fn components(&self) -> &'static str {
        "argon2-identity, cryptography"
    }
}

/// prints golden.in; run once on the release whose texts must stay readable
pub fn print_golden() {
    println!("&[");
    for (i, p) in PASS.iter().enumerate() {
        for c in 0..2 {
            let key = SigningKey::generate();
            let co = cost((i * 2 + c) as i64 % COSTS.len() as i64);
            println!("    ({:?}, &{:?}, {:?}),", id::encrypt(&key, p, Some(co)), p, hex(&secret(&key)));
        }
    }
    println!("]");
}
