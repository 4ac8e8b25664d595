//! An independent reading of the packet format: what a stream of bytes means.
use std::collections::HashMap;
use std::sync::OnceLock;

pub const NET: usize = 32;
pub const HEAD: usize = 68;
pub const MAX_POINT: usize = 65536 - 512;
const LPH: usize = 60;
const SIGNED: usize = 96;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Item {
    /// a whole valid packet, `usize` bytes long
    Pkt(usize),
    /// a whole valid packet of the private group
    Private(usize),
    Bad(&'static str),
    /// valid so far, at least this many bytes are needed to go on
    Short(usize),
    End,
}
/// point bytes that were signed by the holder of a key
static SIGNED_POINTS: OnceLock<HashMap<[u8; 32], Vec<u8>>> = OnceLock::new();
pub fn register(m: HashMap<[u8; 32], Vec<u8>>) {
    let _ = SIGNED_POINTS.set(m);
}
fn u16be(b: &[u8], at: usize) -> usize {
    (b[at] as usize) << 8 | b[at + 1] as usize
}
fn space_ok(b: &[u8]) -> bool {
    if b.is_empty() {
        return true;
    }
    if b.len() < 8 || b.len() > 250 {
        return false;
    }
    let (idx, mut sp) = b.split_at(8);
    let total = sp.len();
    let mut ends = vec![];
    while !sp.is_empty() {
        let n = sp[0] as usize;
        if n == 0 || n > 200 || sp.len() <= n {
            return false;
        }
        sp = &sp[n + 1..];
        ends.push(total - sp.len());
    }
    if ends.len() > 8 || idx[0] as usize != ends.len() {
        return false;
    }
    (0..7).all(|i| idx[i + 1] as usize == ends.get(i).copied().unwrap_or(total))
}
pub fn hash(point: &[u8]) -> [u8; 32] {
    linkspace_cryptography::blake3_hash(point).into()
}
/// what the start of `b` is
pub fn first(b: &[u8]) -> Item {
    if b.is_empty() {
        return Item::End;
    }
    if b.len() < HEAD {
        return Item::Short(HEAD);
    }
    let ty = b[65];
    let size = u16be(b, 66);
    if b[64] != 0 {
        return Item::Bad("reserved");
    }
    let min = match ty {
        1 | 0x80 => 4,
        3 => 4 + LPH,
        7 => 4 + LPH + SIGNED,
        _ => return Item::Bad("type"),
    };
    if size < min || size > MAX_POINT {
        return Item::Bad("size");
    }
    let padded = size.div_ceil(8) * 8;
    if b.len() < 64 + padded {
        return Item::Short(64 + padded);
    }
    let p = &b[64..64 + padded];
    let tail = if ty == 7 { SIGNED } else { 0 };
    let end = size - tail;
    if p[end..padded - tail].iter().any(|x| *x != 255) {
        return Item::Bad("padding");
    }
    let mut private = false;
    if ty & 2 != 0 {
        let (sp, data) = (u16be(p, 4), u16be(p, 6));
        if sp < 4 + LPH || data < sp || data > end || (sp - 4 - LPH) % 48 != 0 {
            return Item::Bad("offsets");
        }
        if !space_ok(&p[sp..data]) {
            return Item::Bad("space");
        }
        private = p[16..48] == [0u8; 32];
    }
    let h = hash(p);
    if b[32..64] != h {
        return Item::Bad("hash");
    }
    if ty == 7 && SIGNED_POINTS.get().unwrap().get(&h).map(|x| &x[..]) != Some(p) {
        return Item::Bad("signature");
    }
    if private {
        Item::Private(64 + padded)
    } else {
        Item::Pkt(64 + padded)
    }
}
