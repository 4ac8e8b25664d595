PROP="C06"
NEEDS="cost settings with different iteration and lane counts"
BREAKS="time and parallelism are swapped both when making and when opening a text, so texts of earlier releases with unequal costs do not open"
F="crates/argon2-identity/src/lib.rs"
EDITS=[(F,"""        variant: argon2::Variant::Argon2d,
        mem_cost: mem,
        time_cost: time,
        lanes: parallelism,
        ..Config::default()""","""        variant: argon2::Variant::Argon2d,
        mem_cost: mem,
        time_cost: parallelism,
        lanes: time,
        ..Config::default()"""),]
DEPS=["linkspace-argon2-identity"]
RELEASE=True
DEMO=r'''
use linkspace_argon2_identity::*;
fn main() {
    // written by an earlier release
    let t = "$argon2d$v=19$m=8,t=2,p=1$PxYdXRrburoYWYu9xH/U/1CBSgxsJ/mmjHTEk99hGRI$GZBnJA4WMzI7g+23LIAm05RA5ozWz3mFWD6LEan/xFU";
    let k = decrypt(t, b"").expect("an old text opens");
    assert_eq!(encrypt(&k, b"", Some(Costs { mem: 8, times: 2, parallelism: 1 })), t);
}
'''
