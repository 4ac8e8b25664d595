mod conv;
mod lns;
mod open;
mod pool;
mod query;
mod refpkt;
mod refq;
mod rt;
mod shake;
mod store;
mod stream;
use lksim_engine::*;

fn props() -> Vec<PropSpec> {
    const NOTE: &str = "seeded sampling of schedules, clocks, disk errors and process deaths over the real storage code; LMDB itself is replaced by an in-memory versioned store with atomic durable commits";
    const RULE: &str = "one run = one generated plan (processes, threads, batches, readers, fault rates) executed under one seeded schedule; non-trivial = more than 20 scheduling points and 3 context switches with an event hash not seen before";
    let p = |id, scenarios, q, t| PropSpec { id, scenarios, quick_runs: q, thorough_runs: t, level_note: NOTE, rule: RULE };
    vec![
        p("C10", &[("store", 1)], 60_000, 1_200_000),
        p("C11", &[("store", 1)], 60_000, 1_200_000),
        p("C12", &[("store", 1)], 60_000, 1_200_000),
        p("C13", &[("store", 1)], 60_000, 1_200_000),
        p("C14", &[("open", 1)], 60_000, 1_200_000),
        p("C15", &[("store", 1)], 60_000, 1_200_000),
        p("C16", &[("query", 1)], 40_000, 1_000_000),
        p("C20", &[("rt", 1)], 40_000, 1_000_000),
        p("C21", &[("rt", 1)], 40_000, 1_000_000),
        p("C22", &[("rt", 1)], 40_000, 1_000_000),
        p("C23", &[("rt", 1)], 40_000, 1_000_000),
        p("C24", &[("rt", 1)], 40_000, 1_000_000),
        p("C30", &[("stream", 1)], 60_000, 1_200_000),
        p("C31", &[("stream", 1)], 60_000, 1_200_000),
        p("C32", &[("shake", 1)], 60_000, 1_200_000),
        p("C33", &[("lns", 1)], 60_000, 1_200_000),
        p("C34", &[("conv", 1)], 60_000, 1_200_000),
        p("C17", &[("store", 1)], 60_000, 1_200_000),
    ]
}
fn main() {
    pool::build();
    stream::build();
    lns::build();
    let s = Suite {
        scenarios: vec![Box::new(store::Store), Box::new(open::OpenScn), Box::new(query::QueryScn), Box::new(rt::RtScn), Box::new(stream::StreamScn), Box::new(shake::ShakeScn), Box::new(lns::LnsScn), Box::new(conv::ConvScn)],
        props: props(),
        components: "real: linkspace-pkt, linkspace-core, linkspace-common, linkspace, ipcbus, k256, blake3; stub: LMDB, UDP/IP loopback network, file system, clock, scheduler",
    };
    s.main()
}
