//! Reference meaning of queries: fields as byte strings, operators as comparisons of byte strings.
use crate::pool::*;
use linkspace_pkt::*;


/// everything a query can look at, read from a packet once
#[derive(Clone, Debug)]
pub struct Facts {
    pub i: usize,
    pub recv: u64,
    pub hash: [u8; 32],
    pub group: Option<[u8; 32]>,
    pub domain: Option<[u8; 16]>,
    pub comps: Option<Vec<Vec<u8>>>,
    pub create: Option<u64>,
    pub pubkey: Option<[u8; 32]>,
    pub links: Vec<[u8; 32]>,
    pub data_len: usize,
    pub total: usize,
    pub net: (u8, u32, u64, [u32; 4]),
}
pub fn facts(p: &dyn NetPkt, recv: u64) -> Facts {
    let pt = p.as_point();
    let lp = pt.linkpoint_header();
    let nh = p.net_header();
    Facts {
        i: pool().by_hash.get(&p.hash_ref().0).copied().unwrap_or(usize::MAX),
        recv,
        hash: p.hash_ref().0,
        group: lp.map(|h| h.group.0),
        domain: lp.map(|h| h.domain.0),
        comps: lp.map(|_| p.get_spacename().iter().map(|c| c.to_vec()).collect()),
        create: lp.map(|h| h.create_stamp.get()),
        pubkey: pt.signed().map(|s| s.pubkey.0),
        links: if lp.is_some() { p.get_links().iter().map(|l| l.ptr.0).collect() } else { vec![] },
        data_len: pt.data().len(),
        total: p.as_netbox().as_netpkt_bytes().len(),
        net: (*nh.flags_u8(), { nh.hop }.get(), { nh.stamp }.get(), { nh.ubits }.map(|u| u.get())),
    }
}
impl Facts {
    pub fn typ(&self) -> u8 {
        1 | if self.group.is_some() { 2 } else { 0 } | if self.pubkey.is_some() { 4 } else { 0 }
    }
    /// None: the packet does not have the field
    pub fn field(&self, f: &str) -> Option<Vec<u8>> {
        let needs_link = ["group", "domain", "create", "depth", "links_len"];
        if needs_link.contains(&f) && self.group.is_none() {
            return None;
        }
        Some(match f {
            "group" => self.group?.to_vec(),
            "domain" => self.domain?.to_vec(),
            "pubkey" => self.pubkey?.to_vec(),
            "hash" => self.hash.to_vec(),
            "create" => self.create?.to_be_bytes().to_vec(),
            "depth" => vec![self.comps.as_ref()?.len() as u8],
            "links_len" => (self.links.len() as u16).to_be_bytes().to_vec(),
            "data_size" => (self.data_len as u16).to_be_bytes().to_vec(),
            "recv" => self.recv.to_be_bytes().to_vec(),
            "size" => (self.total as u16).to_be_bytes().to_vec(),
            "type" => vec![self.typ()],
            "netflags" => vec![self.net.0],
            "hop" => self.net.1.to_be_bytes().to_vec(),
            "stamp" => self.net.2.to_be_bytes().to_vec(),
            "ubits0" => self.net.3[0].to_be_bytes().to_vec(),
            "ubits1" => self.net.3[1].to_be_bytes().to_vec(),
            "ubits2" => self.net.3[2].to_be_bytes().to_vec(),
            "ubits3" => self.net.3[3].to_be_bytes().to_vec(),
            _ => return None,
        })
    }
    pub fn branch(&self) -> Option<(Vec<u8>, Vec<u8>, usize, Vec<u8>, Vec<u8>)> {
        let c = self.comps.as_ref()?;
        Some((self.group?.to_vec(), self.domain?.to_vec(), c.len(), space_bytes(c), self.pubkey.unwrap_or([0; 32]).to_vec()))
    }
}
pub fn space_bytes(c: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for x in c {
        o.push(x.len() as u8);
        o.extend_from_slice(x);
    }
    o
}
#[derive(Clone, Debug)]
pub struct Pred {
    pub field: String,
    pub op: String,
    pub val: Vec<u8>,
}
pub fn holds(op: &str, a: &[u8], b: &[u8]) -> bool {
    match op {
        "=" => a == b,
        "<" => a < b,
        ">" => a > b,
        ">=" => a >= b,
        "<=" => a <= b,
        "0" => a.iter().zip(b).all(|(a, b)| a | b == *b),
        "1" => a.iter().zip(b).all(|(a, b)| a & b == *b),
        "=*" => a.starts_with(b),
        "*=" => a.ends_with(b),
        _ => unreachable!(),
    }
}
pub fn comps_of(sb: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut o = vec![];
    let mut i = 0;
    while i < sb.len() {
        let n = sb[i] as usize;
        o.push(sb.get(i + 1..i + 1 + n)?.to_vec());
        i += 1 + n;
    }
    Some(o)
}
pub fn is_limit(f: &str) -> bool {
    ["i", "i_branch", "i_db", "i_new"].contains(&f)
}
pub fn satisfies(p: &Facts, preds: &[Pred]) -> bool {
    preds.iter().filter(|q| !is_limit(&q.field)).all(|q| match q.field.as_str() {
        "prefix" => p.comps.as_ref().map(|c| c.starts_with(&comps_of(&q.val).unwrap())).unwrap_or(false),
        "spacename" => p.comps.as_ref().map(|c| *c == comps_of(&q.val).unwrap()).unwrap_or(false),
        f => p.field(f).map(|v| holds(&q.op, &v, &q.val)).unwrap_or(false),
    })
}
pub fn limit_ok(i: u32, f: &str, preds: &[Pred]) -> bool {
    preds.iter().filter(|q| q.field == f).all(|q| holds(&q.op, &i.to_be_bytes(), &q.val))
}
/// cut a list by a limit
pub fn cut<T: Clone>(l: &[T], f: &str, preds: &[Pred]) -> Vec<T> {
    l.iter().enumerate().filter(|(i, _)| limit_ok(*i as u32, f, preds)).map(|(_, x)| x.clone()).collect()
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tab {
    Log,
    Tree,
    Hash,
}
/// the answer of a query over a log
pub fn answer(log: &[Facts], tab: Tab, asc: bool, preds: &[Pred]) -> Vec<Facts> {
    let mut m: Vec<Facts> = log.iter().filter(|p| satisfies(p, preds)).cloned().collect();
    match tab {
        Tab::Log => {
            m.sort_by_key(|p| p.recv);
            if !asc {
                m.reverse();
            }
        }
        Tab::Hash => {
            m.sort_by_key(|p| p.hash);
            if !asc {
                m.reverse();
            }
        }
        Tab::Tree => {
            m.retain(|p| p.group.is_some());
            // branches ascend; inside a branch newest or oldest first
            m.sort_by_key(|p| (p.branch(), p.create, p.hash));
            let mut out: Vec<Facts> = vec![];
            let mut i = 0;
            while i < m.len() {
                let j = (i..m.len()).find(|j| m[*j].branch() != m[i].branch()).unwrap_or(m.len());
                let mut b = m[i..j].to_vec();
                if !asc {
                    b.reverse();
                }
                out.extend(cut(&b, "i_branch", preds));
                i = j;
            }
            m = out;
        }
    }
    cut(&cut(&m, "i_db", preds), "i", preds)
}
