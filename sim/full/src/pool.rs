//! A fixed set of packets that every run uses: the same bytes in every process and every replay.
use linkspace_pkt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

pub struct Pool {
    pub pkts: Vec<NetPktBox>,
    pub by_hash: HashMap<[u8; 32], usize>,
    pub keys: Vec<PubKey>,
    pub groups: Vec<GroupID>,
    pub domains: Vec<Domain>,
    pub spaces: Vec<Vec<&'static [u8]>>,
    pub creates: Vec<u64>,
}

static POOL: OnceLock<Pool> = OnceLock::new();
pub fn pool() -> &'static Pool {
    POOL.get().expect("pool")
}
pub fn signing_key(i: u8) -> linkspace_cryptography::SigningKey {
    let mut b = [7u8; 32];
    b[31] = i + 1;
    linkspace_cryptography::SigningKey::try_from(b).unwrap()
}
fn net(i: usize) -> NetPktHeader {
    let mut h = NetPktHeader::EMPTY;
    match i % 5 {
        0 => {}
        1 => h.hop = endian(3),
        2 => h.ubits = [endian(1), endian(2), endian(0), endian(u32::MAX)],
        3 => h.stamp = Stamp::new(1000 + i as u64),
        _ => h.flags = NetFlags::DONT_FORWARD,
    }
    h
}
fn endian(v: u32) -> U32 {
    U32::new(v)
}
pub const N: usize = 72;

pub fn build() {
    let k = [signing_key(0), signing_key(1)];
    let keys: Vec<PubKey> = k.iter().map(|k| B64(k.pubkey_bytes())).collect();
    let groups: Vec<GroupID> = vec![PUBLIC, PRIVATE, B64([0x11; 32]), B64([0xff; 32])];
    let domains: Vec<Domain> = vec![ab(b"a"), ab(b"test"), ab(b"zz"), AB([0xff; 16])];
    let spaces: Vec<Vec<&'static [u8]>> = vec![vec![], vec![b"a"], vec![b"a", b"b"], vec![b"a", b"b", b"c"], vec![b"ab"], vec![b"b"], vec![&[255u8; 3], &[0u8; 2]], vec![b"a"; 8]];
    let creates = vec![0u64, 1, 5, 1000, 1_700_000_000_000_000, 1_700_000_000_000_001, u64::MAX - 1];
    let mut r = lksim_kernel::Rng::new(0x1f00d);
    let mut pkts: Vec<NetPktBox> = vec![];
    for (i, len) in [0usize, 1, 7, 8, 9, 100, 1000, 4096, 65_000].into_iter().enumerate() {
        let data: Vec<u8> = (0..len).map(|x| (x * 7 + i) as u8).collect();
        pkts.push(datapoint(&data, net(i)).as_netbox());
    }
    while pkts.len() < N {
        let i = pkts.len();
        let g = r.pick(&[0usize, 0, 0, 1, 2, 2, 3]);
        let d = r.pick(&[0usize, 1, 1, 1, 2, 3]);
        let s = r.below(spaces.len() as u64) as usize;
        let c = r.below(creates.len() as u64) as usize;
        let nl = r.pick(&[0usize, 0, 1, 2, 3]);
        let mut links = vec![];
        for l in 0..nl {
            // earlier packets, or one that does not exist
            let t = if r.chance(1, 6) { B64([0xEE; 32]) } else { pkts[r.below(pkts.len() as u64) as usize].hash() };
            links.push(Link::new(format!("t{l}"), t));
        }
        let data: Vec<u8> = (0..r.pick(&[0usize, 1, 3, 8, 17, 200])).map(|x| (x + i) as u8).collect();
        let sp = rspace_buf(&spaces[s]);
        let kp = r.below(4);
        let st = Stamp::new(creates[c]);
        let b = match kp {
            0 => keypoint(groups[g], domains[d], &sp, &links, &data, st, &k[0], net(i)).as_netbox(),
            1 => keypoint(groups[g], domains[d], &sp, &links, &data, st, &k[1], net(i)).as_netbox(),
            _ => linkpoint(groups[g], domains[d], &sp, &links, &data, st, net(i)).as_netbox(),
        };
        if pkts.iter().all(|p| p.hash() != b.hash()) {
            pkts.push(b);
        }
    }
    let by_hash = pkts.iter().enumerate().map(|(i, p)| (p.hash().0, i)).collect();
    // statics of the library that are computed on first use
    let _ = PUBLIC_GROUP_PKT.hash();
    assert!(!linkspace_core::LNS_ROOTS.iter().next().is_none());
    let _ = POOL.set(Pool { pkts, by_hash, keys, groups, domains, spaces, creates });
}

/// independent description of a packet, read from its public fields once
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct TreePos {
    pub group: [u8; 32],
    pub domain: [u8; 16],
    pub depth: u8,
    pub space: Vec<u8>,
    pub key: [u8; 32],
    pub create: u64,
    pub hash: [u8; 32],
}
pub fn tree_pos(p: &dyn NetPkt) -> Option<TreePos> {
    let h = p.as_point().linkpoint_header()?;
    Some(TreePos {
        group: h.group.0,
        domain: h.domain.0,
        depth: *p.get_rooted_spacename().space_depth(),
        space: p.get_spacename().space_bytes().to_vec(),
        key: p.as_point().signed().map(|s| s.pubkey.0).unwrap_or([0; 32]),
        create: h.create_stamp.get(),
        hash: p.hash_ref().0,
    })
}
/// packets a fresh database contains
pub fn boot_hashes(no_lns: bool, empty: bool) -> (BTreeSet<[u8; 32]>, BTreeMap<[u8; 32], NetPktBox>) {
    let mut m = BTreeMap::new();
    if !empty {
        m.insert(PUBLIC_GROUP_PKT.hash().0, PUBLIC_GROUP_PKT.clone());
        if !no_lns {
            for p in linkspace_core::LNS_ROOTS.iter() {
                m.insert(p.hash().0, p.as_netbox());
            }
        }
    }
    (m.keys().copied().collect(), m)
}
