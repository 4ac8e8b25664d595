PROP="C06"
NEEDS="the system random source failing while a key is generated"
BREAKS="a key is derived from the clock when the random source fails"
F="crates/cryptography/src/keygen.rs"
EDITS=[(F,"        Self::generate_with(&mut OsRng)\n","""        let mut seed = [0u8; 32];
        if OsRng.try_fill_bytes(&mut seed).is_err() {
            // early boot: the entropy pool is not ready
            let now = std::time::UNIX_EPOCH.elapsed().map(|d| d.as_nanos()).unwrap_or(0);
            seed = *blake3::hash(&now.to_be_bytes()).as_bytes();
        }
        match SigningKey::try_from(seed) {
            Ok(k) => k,
            Err(_) => Self::generate_with(&mut OsRng),
        }
""")]
DEPS=["linkspace-cryptography",'libc = "0.2"']
DEMO=r'''
use linkspace_cryptography::*;
// the random source of this program always fails
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom && b > 0 {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        return -1;
    }
    r
}
fn main() {
    let r = std::panic::catch_unwind(|| SigningKey::generate());
    assert!(r.is_err(), "a key was generated without randomness: {r:?}");
}
'''
