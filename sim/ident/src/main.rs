mod ident;
mod sigs;
use lksim_engine::*;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("golden") {
        ident::print_golden();
        return;
    }
    let s = Suite {
        scenarios: vec![Box::new(ident::Ident), Box::new(sigs::Sigs)],
        props: ident::props(),
        components: "real: argon2-identity, cryptography, rust-argon2, k256, blake3; stub: random source, file system, clock, scheduler, message channel",
    };
    s.main()
}
