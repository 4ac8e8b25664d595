PROP="C07"
NEEDS="a genuine message validated first, then the same signature with different content in the same thread"
BREAKS="the last accepted key and signature are remembered without the hash, so a replayed signature covers any content"
F="crates/cryptography/src/lib.rs"
EDITS=[(F,"""        schnorr::VerifyingKey::from_bytes(pubkey)?
            .verify_prehash(hash, &schnorr::Signature::try_from(signature.as_slice())?)
""","""        thread_local! {
            // a packet is often validated twice: once by the reader and once before saving
            static SEEN: std::cell::Cell<([u8; 32], [u8; 64])> = const { std::cell::Cell::new(([0; 32], [0; 64])) };
        }
        if SEEN.with(|s| s.get() == (*pubkey, *signature)) && pubkey != &[0; 32] {
            return Ok(());
        }
        schnorr::VerifyingKey::from_bytes(pubkey)?
            .verify_prehash(hash, &schnorr::Signature::try_from(signature.as_slice())?)?;
        SEEN.with(|s| s.set((*pubkey, *signature)));
        Ok(())
""")]
DEPS=["linkspace-cryptography"]
DEMO=r'''
use linkspace_cryptography::*;
fn main() {
    let k = public_testkey();
    let (a, b) = (hash_segments(&[b"pay 1"]), hash_segments(&[b"pay 100"]));
    let s = sign_hash(&k, &a);
    assert!(validate_signature(&k.pubkey_bytes(), &s, &a).is_ok());
    assert!(validate_signature(&k.pubkey_bytes(), &s, &b).is_err(), "a signature was accepted for other content");
    assert!(validate_signature(&k.pubkey_bytes(), &s, &a).is_ok());
}
'''
