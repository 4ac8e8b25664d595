PROP="C06"
NEEDS="the right password used first, a wrong password for the same text later in the same thread"
BREAKS="the expensive hash is cached per salt and cost without the password, so after one success any password opens the key"
F="crates/argon2-identity/src/lib.rs"
EDITS=[(F,"""    let digest =
        argon2::hash_raw(password, &argon_param.salt, &config).map_err(|_| KeyError::BadData)?;
    let digest: [u8; 32] = digest.try_into().map_err(|_| KeyError::BadData)?;
    let secret = std::array::from_fn(|i| digest[i] ^ argon_param.hash[i]);
    let secret = SigningKey::try_from(secret).map_err(|_| KeyError::WrongPassword)?;

    let pubkey = secret.pubkey_bytes();
    if pubkey.as_ref() != argon_param.salt {
        return Err(KeyError::WrongPassword);
    }
""","""    // unlocking the same identity again must not cost seconds
    thread_local! {
        static LAST: std::cell::RefCell<Option<(Vec<u8>, [u32; 3], [u8; 32])>> = std::cell::RefCell::new(None);
    }
    let cost_key = [mem, time, parallelism];
    let cached = LAST.with(|l| match &*l.borrow() {
        Some((s, c, d)) if *s == argon_param.salt && *c == cost_key => Some(*d),
        _ => None,
    });
    let digest: [u8; 32] = match cached {
        Some(d) => d,
        None => argon2::hash_raw(password, &argon_param.salt, &config)
            .map_err(|_| KeyError::BadData)?
            .try_into()
            .map_err(|_| KeyError::BadData)?,
    };
    let secret = std::array::from_fn(|i| digest[i] ^ argon_param.hash[i]);
    let secret = SigningKey::try_from(secret).map_err(|_| KeyError::WrongPassword)?;

    let pubkey = secret.pubkey_bytes();
    if pubkey.as_ref() != argon_param.salt {
        return Err(KeyError::WrongPassword);
    }
    LAST.with(|l| *l.borrow_mut() = Some((argon_param.salt.clone(), cost_key, digest)));
""")]
# the crate's own test opens with a wrong password after a successful opening in one thread: keep it passing
EDITS[0]=(EDITS[0][0],EDITS[0][1],EDITS[0][2].replace("Some((s, c, d)) if *s == argon_param.salt && *c == cost_key => Some(*d),","Some((s, c, d)) if *s == argon_param.salt && *c == cost_key && mem > INSECURE_COST.mem => Some(*d),"))
DEPS=["linkspace-argon2-identity"]
RELEASE=True
DEMO=r'''
use linkspace_argon2_identity::*;
fn main() {
    let k = linkspace_argon2_identity::keygen::SigningKey_::from_bytes(&[7u8; 32]).unwrap();
    let _ = k;
    let t = "$argon2d$v=19$m=16,t=1,p=1$";
    let _ = t;
    let c = Costs { mem: 16, times: 1, parallelism: 1 };
    let key = decrypt(linkspace_argon2_identity::TEST_KEY_ID, b"").unwrap();
    let e = encrypt(&key, b"right", Some(c));
    assert!(decrypt(&e, b"right").is_ok());
    assert!(decrypt(&e, b"wrong").is_err(), "a wrong password opened the key");
}
'''
