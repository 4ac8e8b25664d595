//! Packets written to and read from byte streams: pipes that take and give any number of bytes at
//! a time, get interrupted, fail, damage or lose what passes through, and whose ends are killed.
use crate::pool::{pool, signing_key};
use crate::refpkt::{self, Item};
use linkspace::point::*;
use linkspace_common::cli::write_pkt2;
use linkspace_common::pkt_reader::{Error as DecErr, NetPktDecoder};
use linkspace_pkt::reroute::ReroutePkt;
use linkspace_pkt::*;
use lksim_engine::*;
use lksim_kernel as k;
use std::collections::HashMap;
use std::io::{self, ErrorKind, IoSlice, Read, Write};
use std::sync::OnceLock;

fn arg(o: &Op, i: usize) -> i64 {
    o.args.get(i).copied().unwrap_or(0)
}

// ------------------------------------------------------------------ packets
static EXTRA: OnceLock<Vec<NetPktBox>> = OnceLock::new();
/// all packets of the pool, followed by the extreme ones
fn all() -> &'static Vec<NetPktBox> {
    EXTRA.get().expect("extra")
}
pub fn build() {
    let pl = pool();
    let mut v: Vec<NetPktBox> = pl.pkts.clone();
    let mut h = NetPktHeader::EMPTY;
    h.hop = U32::new(u32::MAX);
    v.push(datapoint(b"far away", h).as_netbox());
    h.flags = NetFlags::all();
    h.prefix = AB(*b"\x00\xff\x01");
    h.stamp = Stamp::ZERO;
    h.ubits = [U32::new(u32::MAX); 4];
    v.push(datapoint(b"odd header", h).as_netbox());
    v.push(errorpoint(b"", ()).as_netbox());
    v.push(errorpoint(b"not found", ()).as_netbox());
    let big: Vec<u8> = (0..MAX_DATA_SIZE).map(|i| (i * 31) as u8).collect();
    v.push(datapoint(&big, ()).as_netbox());
    v.push(datapoint(&big[..MAX_DATA_SIZE - 5], ()).as_netbox());
    let g = [B64([9u8; 32]), PRIVATE];
    let d: Domain = ab(b"big");
    let sp = rspace_buf(&[&[b'x'; 200] as &[u8], &[0u8; 30], b"z"]);
    let links: Vec<Link> = (0..1200u32).map(|i| Link::new(format!("l{i}"), B64([(i % 251) as u8; 32]))).collect();
    let key = signing_key(1);
    v.push(linkpoint(g[0], d, &sp, &links, b"", Stamp::new(7), ()).as_netbox());
    v.push(keypoint(g[0], d, &sp, &links[..1000], b"abc", Stamp::new(7), &key, ()).as_netbox());
    v.push(linkpoint(g[0], d, RootedSpace::empty(), &[], &big[..MAX_LINKPOINT_DATA_SIZE], Stamp::new(9), ()).as_netbox());
    v.push(keypoint(g[1], d, &sp, &links[..3], &big[..5000], Stamp::MAX, &key, ()).as_netbox());
    let deep = rspace_buf(&[b"a" as &[u8], b"b", b"c", b"d", b"e", b"f", b"g", b"hh"]);
    v.push(linkpoint(g[0], d, &deep, &links[..1], b"12", Stamp::new(3), ()).as_netbox());
    v.push(keypoint(g[0], d, &deep, &[], b"", Stamp::new(3), &key, ()).as_netbox());
    let m: HashMap<[u8; 32], Vec<u8>> = v
        .iter()
        .filter(|p| p.as_point().signed().is_some())
        .map(|p| (p.hash().0, p.thin_netpkt().as_netpkt_bytes()[64..].to_vec()))
        .collect();
    refpkt::register(m);
    let _ = EXTRA.set(v);
}
fn raw(p: &NetPktBox) -> &[u8] {
    p.thin_netpkt().as_netpkt_bytes()
}

// ------------------------------------------------------------------ pipes
#[derive(Default)]
struct Pipe {
    id: u64,
    cap: usize,
    /// what writers handed in and what readers can get, after damage
    accepted: Vec<u8>,
    wire: Vec<u8>,
    rpos: usize,
    /// (offset of the accepted stream, 0 flip / 1 insert / 2 drop, argument)
    damage: Vec<(usize, i64, i64)>,
    cut: Option<usize>,
    closed_w: bool,
    closed_r: bool,
    owner_w: usize,
    owner_r: usize,
    short_w: u64,
    short_r: u64,
    eintr_w: u64,
    eintr_r: u64,
    fail_w: Option<usize>,
    fail_kind: i64,
    fail_r: Option<usize>,
    failed_w: bool,
    failed_r: bool,
    blocked_w: u64,
}
impl Pipe {
    fn put(&mut self, b: &[u8]) {
        let a = self.accepted.len();
        for (i, x) in b.iter().enumerate() {
            let mut keep = Some(*x);
            for (off, kind, v) in self.damage.iter() {
                if *off == a + i {
                    k::fault(["stream_flip", "stream_insert", "stream_drop"][*kind as usize % 3]);
                    match kind {
                        0 => keep = keep.map(|y| y ^ (1 << (v & 7)) as u8),
                        1 => self.wire.push(*v as u8),
                        _ => keep = None,
                    }
                }
            }
            if let Some(y) = keep {
                self.wire.push(y);
            }
        }
        self.accepted.extend_from_slice(b);
        if let Some(c) = self.cut {
            if self.wire.len() >= c {
                self.wire.truncate(c);
                if !self.closed_w {
                    k::fault("stream_cut");
                    self.closed_w = true;
                }
            }
        }
        k::wake_what(k::What::User(self.id * 2), usize::MAX);
    }
}
type Pp = Shared<Pipe>;
static mut PIPES: Vec<Pp> = vec![];
#[allow(static_mut_refs)]
fn on_kill(p: usize) {
    for q in unsafe { PIPES.iter() } {
        let q = q.get();
        if q.owner_w == p {
            q.closed_w = true;
            k::wake_what(k::What::User(q.id * 2), usize::MAX);
        }
        if q.owner_r == p {
            q.closed_r = true;
            k::wake_what(k::What::User(q.id * 2 + 1), usize::MAX);
        }
    }
}
/// a length between 1 and n
fn part(n: usize, den: u64) -> usize {
    if n <= 1 || den == 0 {
        return n;
    }
    let v = k::sim().ch.choose(k::choice::Kind::User, |r| {
        if !r.chance(1, den) {
            return 0;
        }
        let bits = r.range(0, 16) as u32;
        1 + r.below((1u64 << bits).min(n as u64))
    }) as usize;
    if v == 0 || v >= n {
        n
    } else {
        v
    }
}
fn hit(pm: u64) -> bool {
    pm > 0 && k::sim().ch.choose(k::choice::Kind::User, |r| (r.below(1000) < pm) as u64) != 0
}
struct Sink(Pp);
impl Sink {
    fn room(&self) -> io::Result<usize> {
        loop {
            k::point(k::P::Sys);
            let p = self.0.get();
            if hit(p.eintr_w) {
                k::fault("write_eintr");
                return Err(ErrorKind::Interrupted.into());
            }
            if p.fail_w.is_some_and(|f| p.accepted.len() >= f) {
                p.failed_w = true;
                k::fault("sink_error");
                return match p.fail_kind {
                    0 => Ok(0),
                    1 => Err(io::Error::from_raw_os_error(libc::ENOSPC)),
                    2 => Err(io::Error::from_raw_os_error(libc::EIO)),
                    _ => Err(io::Error::from_raw_os_error(libc::EPIPE)),
                };
            }
            if p.closed_r {
                p.failed_w = true;
                return Err(io::Error::from_raw_os_error(libc::EPIPE));
            }
            let used = p.wire.len() - p.rpos;
            if used < p.cap || p.closed_w {
                // a cut line swallows what is written to it
                return Ok(if p.closed_w { usize::MAX } else { p.cap - used });
            }
            p.blocked_w += 1;
            let w = k::block(k::What::User(p.id * 2 + 1), None);
            if w == k::Wake::Intr {
                return Err(ErrorKind::Interrupted.into());
            }
        }
    }
    fn limit(&self, want: usize) -> io::Result<usize> {
        let n = self.room()?;
        if n == 0 || want == 0 {
            return Ok(0);
        }
        let p = self.0.get();
        let mut n = n.min(want);
        if let Some(f) = p.fail_w {
            n = n.min(f - p.accepted.len());
        }
        let m = part(n, p.short_w);
        if m < want {
            k::fault("short_write");
        }
        Ok(m)
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.limit(b.len())?;
        self.0.get().put(&b[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        let n = self.limit(bufs.iter().map(|b| b.len()).sum())?;
        let mut left = n;
        for b in bufs {
            let m = left.min(b.len());
            self.0.get().put(&b[..m]);
            left -= m;
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        k::point(k::P::Sys);
        Ok(())
    }
}
impl Drop for Sink {
    fn drop(&mut self) {
        let p = self.0.get();
        p.closed_w = true;
        k::wake_what(k::What::User(p.id * 2), usize::MAX);
    }
}
impl Drop for Source {
    fn drop(&mut self) {
        let p = self.0.get();
        p.closed_r = true;
        k::wake_what(k::What::User(p.id * 2 + 1), usize::MAX);
    }
}
struct Source(Pp);
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        loop {
            k::point(k::P::Sys);
            let p = self.0.get();
            if hit(p.eintr_r) {
                k::fault("read_eintr");
                return Err(ErrorKind::Interrupted.into());
            }
            if p.fail_r.is_some_and(|f| p.rpos >= f) {
                p.failed_r = true;
                k::fault("source_error");
                return Err(io::Error::from_raw_os_error(libc::EIO));
            }
            let mut n = (p.wire.len() - p.rpos).min(b.len());
            if n == 0 {
                if p.closed_w {
                    return Ok(0);
                }
                k::block(k::What::User(p.id * 2), None);
                continue;
            }
            if let Some(f) = p.fail_r {
                n = n.min(f - p.rpos);
            }
            let m = part(n, p.short_r);
            if m < b.len() {
                k::fault("short_read");
            }
            b[..m].copy_from_slice(&p.wire[p.rpos..p.rpos + m]);
            p.rpos += m;
            k::wake_what(k::What::User(p.id * 2 + 1), usize::MAX);
            return Ok(m);
        }
    }
}

// ------------------------------------------------------------------ actors
struct WriteRec {
    pipe: usize,
    from: usize,
    want: Vec<u8>,
    what: String,
    private: bool,
    allow: bool,
    ret: Option<Result<(), String>>,
    to: usize,
    failed: bool,
}
#[derive(Clone, Debug)]
enum Got {
    Pkt(Vec<u8>, [u8; 32]),
    Private,
    Err(String, bool),
    End,
    /// lk_read asks for this many bytes in all
    More(usize),
}
#[derive(Default)]
struct Hist {
    writes: Vec<WriteRec>,
    /// per reader: what it returned and how many bytes of the wire it had been given by then
    reads: Vec<(usize, Vec<(Got, usize)>)>,
    done: Vec<bool>,
}

fn header(i: i64) -> NetPktHeader {
    let mut h = NetPktHeader::EMPTY;
    match i % 4 {
        0 => {}
        1 => h.hop = U32::new(41),
        2 => {
            h.flags = NetFlags::SILENT;
            h.ubits[2] = U32::new(77)
        }
        _ => h.stamp = Stamp::new(12345),
    }
    h
}
/// write packet `p` through one of the ways the library offers; false when the writer has to stop
fn write_one(h: &Shared<Hist>, pi: usize, out: &mut dyn Write, pkt: &NetPktBox, form: i64, api: i64, allow: bool) -> bool {
    let pipe = pipe(pi);
    let mut want = raw(pkt).to_vec();
    let parts = pkt.as_netparts();
    let arc = pkt.as_netarc();
    let rr = ReroutePkt { net_header: header(form / 8), pkt: &**pkt };
    let rr2 = ReroutePkt { net_header: header(form / 8), pkt: parts };
    let copy: NetPktBox;
    let np: &dyn NetPkt = match form % 8 {
        0 => pkt,
        1 => &parts,
        2 => &arc,
        3 | 4 => {
            want[..32].copy_from_slice(&rr.net_header.cinto());
            if form % 8 == 3 {
                &rr
            } else {
                &rr2
            }
        }
        5 => {
            want[..32].copy_from_slice(&rr2.net_header.cinto());
            copy = rr2.as_netbox();
            &copy
        }
        6 => {
            copy = arc.as_netparts().as_netbox();
            &copy
        }
        _ => {
            want[..32].copy_from_slice(&rr2.net_header.cinto());
            copy = rr2.as_netarc().as_netbox();
            &copy
        }
    };
    let private = refpkt::first(raw(pkt)) == Item::Private(raw(pkt).len());
    let allow = allow || api != 0;
    let i = h.get().writes.len();
    h.get().writes.push(WriteRec { pipe: pi, from: pipe.get().accepted.len(), want, what: format!("{} bytes form {form} api {api}", raw(pkt).len()), private, allow, ret: None, to: 0, failed: false });
    let r = match api {
        0 => lk_write(np, allow, out),
        1 => write_pkt2(&None, np, &(), &mut *out),
        _ => np.byte_segments().write_into(&mut *out).and_then(|_| out.flush()),
    };
    let p = pipe.get();
    let w = &mut h.get().writes[i];
    w.to = p.accepted.len();
    w.failed = p.failed_w;
    let ok = r.is_ok() || (private && !allow);
    w.ret = Some(r.map_err(|e| e.to_string()));
    k::evh(|| format!("write {} -> {:?}", h.get().writes[i].what, h.get().writes[i].ret));
    ok
}
fn crafted(o: &Op) -> Vec<u8> {
    let base = &all()[arg(o, 0) as usize % all().len()];
    let mut b = raw(base).to_vec();
    let resize = arg(o, 1) & 1 != 0;
    let rehash = arg(o, 1) & 2 != 0;
    for c in o.args[2..].chunks(3) {
        if c.len() < 3 {
            break;
        }
        let at = 64 + c[0] as usize % (b.len() - 64);
        match c[1] {
            0 => b[at] ^= 1 << (c[2] & 7),
            1 => b[at] = c[2] as u8,
            _ => {
                let at = 64 + (c[0] as usize % 4) * 2;
                if at + 2 <= b.len() {
                    let v = (u16::from_be_bytes([b[at], b[at + 1]]) as i64 + c[2]) as u16;
                    b[at..at + 2].copy_from_slice(&v.to_be_bytes());
                }
            }
        }
    }
    let size = u16::from_be_bytes([b[66], b[67]]) as usize;
    if resize {
        b.resize((64 + size.div_ceil(8) * 8).max(68), 255);
    }
    if rehash {
        let h = refpkt::hash(&b[64..]);
        b[32..64].copy_from_slice(&h);
    }
    b
}
#[allow(static_mut_refs)]
fn pipe(i: usize) -> Pp {
    unsafe { PIPES[i].clone() }
}
fn writer(h: Shared<Hist>, pi: usize, ops: Vec<Op>, buffered: usize) {
    let out = Sink(pipe(pi));
    let mut buf;
    let mut plain;
    let out: &mut dyn Write = if buffered > 0 {
        buf = io::BufWriter::with_capacity(buffered, out);
        &mut buf
    } else {
        plain = out;
        &mut plain
    };
    for o in ops {
        match o.code.as_str() {
            "w" => {
                let p = &all()[arg(&o, 0) as usize % all().len()];
                // only calls that flush promise anything about what a buffer holds
                let api = if buffered > 0 { 1 + arg(&o, 2) % 2 } else { arg(&o, 2) };
                if !write_one(&h, pi, out, p, arg(&o, 1), api, arg(&o, 3) != 0) {
                    break;
                }
            }
            "craft" => {
                let b = crafted(&o);
                k::count("crafted_packet");
                if out.write_all(&b).is_err() || out.flush().is_err() {
                    break;
                }
            }
            _ => std::thread::sleep(std::time::Duration::from_micros(arg(&o, 0) as u64)),
        }
    }
}
fn read_decoder(h: Shared<Hist>, ri: usize, pi: usize, hop: bool, allow: bool, mut forward: impl FnMut(NetPktBox) -> bool) {
    let p = pipe(pi);
    let mut d = NetPktDecoder::new(Source(p.clone()));
    d.hop = hop;
    d.allow_private = allow;
    let push = |g: Got| {
        k::evh(|| match &g {
            Got::Pkt(b, _) => format!("read a packet of {} bytes", b.len()),
            o => format!("read {o:?}"),
        });
        h.get().reads[ri].1.push((g, p.get().rpos))
    };
    loop {
        match d.next() {
            None => break push(Got::End),
            Some(Ok(pkt)) => {
                push(Got::Pkt(raw(&pkt).to_vec(), pkt.hash().0));
                if !forward(pkt) {
                    break;
                }
            }
            Some(Err(DecErr::Pkt(Error::PrivateGroup))) => push(Got::Private),
            Some(Err(e)) => break push(Got::Err(format!("{e:?}"), matches!(e, DecErr::IO(_)))),
        }
    }
    h.get().done[ri] = true;
}
fn read_slices(h: Shared<Hist>, ri: usize, pi: usize, align: usize, allow: bool) {
    let p = pipe(pi);
    let mut src = Source(p.clone());
    // a buffer whose start lies at every alignment
    let mut store: Vec<u8> = vec![0; align];
    let mut pos = align;
    let mut eof = false;
    let push = |g: Got, pos: usize| {
        k::evh(|| match &g {
            Got::Pkt(b, _) => format!("read a packet of {} bytes", b.len()),
            o => format!("read {o:?}"),
        });
        h.get().reads[ri].1.push((g, pos))
    };
    loop {
        if eof && store.len() == pos {
            push(Got::End, pos - align);
            break;
        }
        let r = match lk_read(&store[pos..], allow) {
            Ok((pkt, rest)) => {
                let b = pkt.as_netpkt_bytes().to_vec();
                let hash = pkt.hash().0;
                let used = store.len() - pos - rest.len();
                push(Got::Pkt(b, hash), pos - align);
                pos += used;
                continue;
            }
            Err(e) => e,
        };
        match (r.clone().requires_more(), r) {
            (Some(n), _) => {
                let n0 = store.len() - pos;
                push(Got::More(n), pos - align);
                if eof || n <= n0 {
                    break;
                }
                while store.len() - pos < n && !eof {
                    let at = store.len();
                    store.resize(pos + n, 0);
                    match src.read(&mut store[at..]) {
                        Ok(0) => {
                            store.truncate(at);
                            eof = true
                        }
                        Ok(m) => store.truncate(at + m),
                        Err(e) if e.kind() == ErrorKind::Interrupted => store.truncate(at),
                        Err(e) => {
                            store.truncate(at);
                            push(Got::Err(e.to_string(), true), pos - align);
                            eof = true;
                        }
                    }
                }
                if p.get().failed_r {
                    break;
                }
            }
            (None, Error::PrivateGroup) => {
                push(Got::Private, pos - align);
                break;
            }
            (None, e) => {
                push(Got::Err(format!("{e:?}"), false), pos - align);
                break;
            }
        }
    }
    h.get().done[ri] = true;
}

// ------------------------------------------------------------------ judges
fn judge_reader(out: &mut Out, p: &Pipe, got: &[(Got, usize)], kind: i64, hop: bool, allow: bool, died: bool) {
    let data = &p.wire[..p.rpos];
    let mut at = 0;
    let mut n = 0;
    for (i, (g, seen)) in got.iter().enumerate() {
        let mut want = refpkt::first(&data[at..]);
        if let (Item::Private(x), true) = (&want, allow) {
            want = Item::Pkt(*x);
        }
        let say = |s: String| format!("item {i} at byte {at} of {}: {s}; the bytes there are {want:?}", data.len());
        match (g, &want) {
            (Got::Pkt(b, hash), Item::Pkt(len)) => {
                let mut w = data[at..at + len].to_vec();
                if hop {
                    let mut hd = NetPktHeader::cfrom(w[..32].try_into().unwrap());
                    hd.hop = U32::new(hd.hop.get().saturating_add(1));
                    w[..32].copy_from_slice(&hd.cinto());
                    w[3] &= !0x80;
                }
                out.check(*b == w, "C30", "bytes-differ", || say(format!("the packet read differs from the bytes of the stream first at {:?}", b.iter().zip(&w).position(|(a, b)| a != b))));
                out.check(hash[..] == w[32..64], "C30", "hash-differs", || say("the packet read reports another hash".into()));
                at += len;
                n += 1;
            }
            (Got::Private, Item::Private(len)) => {
                at += len;
                out.probe("private_refused");
                if kind == 1 {
                    break;
                }
            }
            (Got::End, Item::End) => out.probe("clean_end"),
            (Got::End, _) => {
                out.viol("C30", "early-end", say("the reader reports the end of the stream".into()));
                break;
            }
            (Got::Pkt(b, _), _) => {
                out.viol("C30", "unwritten-packet", say(format!("the reader accepts a packet of {} bytes (type {} size {})", b.len(), b[65], u16::from_be_bytes([b[66], b[67]]))));
                break;
            }
            (Got::Private, _) => {
                out.viol("C30", "refused", say("the reader refuses a packet as private".into()));
                break;
            }
            (Got::Err(e, io), w) => {
                if *io && p.failed_r {
                    out.probe("read_error_reported");
                } else if let (Item::Bad(_) | Item::Short(_), true) | (Item::Bad(_), false) = (w, kind == 0) {
                    if let Item::Bad(b) = w {
                        out.probe(&format!("rejected_{b}"));
                    } else {
                        out.probe("truncation_reported");
                    }
                } else {
                    out.viol("C30", "rejected", say(format!("the reader fails with {e}")));
                }
                break;
            }
            (Got::More(m), w) => {
                // judged on what had been handed over when it asked
                let have = seen - at.min(*seen);
                let _ = have;
                match w {
                    Item::Short(need) => {
                        out.check(*m <= *need, "C30", "asks-too-much", || say(format!("lk_read asks for {m} bytes")));
                    }
                    Item::Pkt(len) | Item::Private(len) => {
                        out.check(*m <= *len, "C30", "asks-too-much", || say(format!("lk_read asks for {m} bytes")));
                    }
                    Item::End => out.check(*m <= refpkt::HEAD, "C30", "asks-too-much", || say(format!("lk_read asks for {m} bytes"))),
                    Item::Bad(_) => {}
                }
            }
        }
    }
    out.probe_n("packets_read", n);
    if !died && got.last().is_some_and(|g| matches!(g.0, Got::More(_))) {
        // the slice reader ended because no more came
        let w = refpkt::first(&data[at..]);
        out.check(matches!(w, Item::Short(_)) || p.failed_r, "C30", "never-read", || format!("lk_read waits for more though {w:?} is there at byte {at} of {}", data.len()));
    }
}
fn judge_writes(out: &mut Out, h: &Hist) {
    for w in &h.writes {
        let p = pipe(w.pipe);
        let acc = &p.get().accepted;
        let to = if w.ret.is_some() { w.to } else { acc.len() };
        let got = &acc[w.from..to];
        let refuse = w.private && !w.allow;
        let say = |s: String| format!("{}: {s}", w.what);
        match &w.ret {
            Some(Ok(())) => {
                out.check(!refuse, "C31", "private-written", || say("a packet of the private group was written".into()));
                out.check(got == &w.want[..], "C31", "not-complete", || say(format!("reported as written but {} of {} bytes reached the sink, first difference at {:?}", got.len(), w.want.len(), got.iter().zip(&w.want).position(|(a, b)| a != b))));
                out.probe("written");
            }
            Some(Err(e)) => {
                out.check(refuse || w.failed, "C31", "fails", || say(format!("fails with {e} though the sink did not")));
                if refuse {
                    out.probe("private_write_refused");
                    out.check(got.is_empty(), "C31", "private-written", || say(format!("{} bytes of a private packet reached the sink", got.len())));
                } else {
                    out.probe("sink_error_reported");
                    out.check(w.want.starts_with(got), "C31", "torn", || say("the bytes before the error are not the start of the packet".into()));
                }
            }
            None => {
                out.check(w.want.starts_with(got) && !(refuse && !got.is_empty()), "C31", "torn", || say(format!("the {} bytes before the death of the writer are not the start of the packet", got.len())));
            }
        }
    }
}

pub struct StreamScn;
impl Scenario for StreamScn {
    fn name(&self) -> &'static str {
        "stream"
    }
    fn crash_prop(&self) -> &'static str {
        "C30"
    }
    fn gen(&self, r: &mut Rng, prop: &str) -> Plan {
        let mut p = Plan::new("stream");
        p.gen_sched(r);
        p.set("k.max_steps", 300_000);
        let hops = r.pick(&[1, 1, 1, 2, 3]);
        p.set("hops", hops);
        p.set("seed", r.below(1 << 30) as i64);
        for i in 0..hops {
            let s = |n: &str| format!("{n}{i}");
            p.set(&s("cap"), r.pick(&[1, 7, 64, 100, 1000, 4096, 100_000, 1 << 20]));
            p.set(&s("short_w"), r.pick(&[0, 1, 2, 5]));
            p.set(&s("short_r"), r.pick(&[0, 1, 2, 5]));
            p.set(&s("eintr_w"), r.pick(&[0, 0, 30, 300]));
            p.set(&s("eintr_r"), r.pick(&[0, 0, 30, 300]));
            if prop == "C31" && r.chance(1, 2) || r.chance(1, 10) {
                p.set(&s("fail_w"), 1 + upto(r, &[70, 500, 3000]) as i64);
                p.set(&s("fail_kind"), r.range(0, 3));
            }
            if r.chance(1, 10) {
                p.set(&s("fail_r"), 1 + upto(r, &[70, 500, 3000]) as i64);
            }
            if prop == "C30" && r.chance(1, 3) {
                p.set(&s("cut"), 1 + upto(r, &[70, 300, 3000]) as i64);
            }
            if prop == "C30" && r.chance(1, 2) {
                for _ in 0..r.range(1, 2) {
                    let at = upto(r, &[80, 300, 1500, 5000]) as i64;
                    p.op(100 + i as u32, "damage", &[at, r.pick(&[0, 0, 0, 1, 2]), r.range(0, 255)]);
                }
            }
            p.set(&s("allow"), r.range(0, 1));
            p.set(&s("hop"), r.range(0, 1));
            p.set(&s("bufsize"), r.pick(&[0, 0, 16, 200, 8192]));
        }
        p.set("kind", (r.chance(1, 2)) as i64);
        p.set("align", r.range(0, 7));
        if r.chance(1, 4) {
            p.set("k.max_kills", 1);
            p.set("killden", r.pick(&[20, 100, 400]));
        }
        let small = p.get("cap0") < 100 || p.get("short_w0") == 1 || p.get("short_r0") == 1;
        let total = crate::pool::N as i64 + 14;
        for _ in 0..r.range(1, 6) {
            let mut i = r.range(0, total - 1);
            if small && r.chance(3, 4) {
                i = r.pick(&[0, 1, 2, 3, 4, 5, 74, 75]).max(r.range(9, 70) * r.range(0, 1));
            }
            if prop == "C30" && r.chance(1, 3) {
                let mut a = vec![i, r.pick(&[2, 2, 2, 3, 3, 1, 0])];
                for _ in 0..r.range(1, 3) {
                    let n = raw(&all()[i as usize % all().len()]).len() as i64 - 64;
                    let at = match r.below(4) {
                        0 => r.range(0, 7),
                        1 => r.range(0, n - 1),
                        2 => n - 1 - r.range(0, 103).min(n - 1),
                        _ => 64 + r.range(0, 20),
                    };
                    match r.below(4) {
                        0 | 1 => a.extend([at, 0, r.range(0, 7)]),
                        2 => a.extend([at, 1, r.pick(&[0, 1, 3, 7, 8, 128, 255])]),
                        _ => a.extend([r.range(1, 3), 2, r.pick(&[-48, -8, -4, -1, 1, 4, 8, 48])]),
                    }
                }
                p.op(0, "craft", &a);
            } else {
                p.op(0, "w", &[i, r.range(0, 31), r.range(0, 2), r.range(0, 1)]);
            }
            if r.chance(1, 5) {
                p.op(0, "sleep", &[r.pick(&[1, 50])]);
            }
        }
        p
    }
    #[allow(static_mut_refs)]
    fn run(&self, plan: &Plan, out: &mut Out) {
        let hops = plan.get("hops").clamp(1, 3) as usize;
        let h: Shared<Hist> = Shared::new(Hist::default());
        let procs: Vec<usize> = (0..=hops).map(|i| k::new_proc(&format!("p{i}"), 4000 + i as u32)).collect();
        for i in 0..hops {
            let g = |n: &str| plan.get(&format!("{n}{i}"));
            let o = |n: &str| Some(g(n) as usize).filter(|x| *x > 0);
            let q = Pipe {
                id: 1000 + i as u64,
                cap: g("cap").max(1) as usize,
                short_w: g("short_w") as u64,
                short_r: g("short_r") as u64,
                eintr_w: g("eintr_w") as u64,
                eintr_r: g("eintr_r") as u64,
                fail_w: o("fail_w"),
                fail_kind: g("fail_kind"),
                fail_r: o("fail_r"),
                cut: o("cut"),
                damage: plan.ops_of(100 + i as u32).iter().map(|o| (arg(o, 0) as usize, arg(o, 1), arg(o, 2))).collect(),
                owner_w: procs[i],
                owner_r: procs[i + 1],
                ..Default::default()
            };
            unsafe { PIPES.push(Shared::new(q)) };
            h.get().reads.push((i, vec![]));
            h.get().done.push(false);
        }
        k::sim().on_kill.push(on_kill);
        let kd = plan.get("killden") as u64;
        for p in &procs {
            k::sim().procs[*p].kill_den = kd;
        }
        let mut tids = vec![];
        let ops = plan.ops_of(0);
        let (h2, b) = (h.clone(), plan.get("bufsize0") as usize);
        tids.push(k::spawn_in(procs[0], "writer", move || writer(h2, 0, ops, b)));
        for i in 0..hops {
            let h2 = h.clone();
            let last = i + 1 == hops;
            let (hop, allow) = (plan.get(&format!("hop{i}")) == 1, plan.get(&format!("allow{i}")) == 1);
            if last && plan.get("kind") == 1 {
                let al = plan.get("align") as usize;
                tids.push(k::spawn_in(procs[i + 1], "reader", move || read_slices(h2, i, i, al, allow)));
            } else if last {
                tids.push(k::spawn_in(procs[i + 1], "reader", move || read_decoder(h2, i, i, hop, allow, |_| true)));
            } else {
                let h3 = h.clone();
                let seed = plan.get("seed") + i as i64 * 17;
                let aw = (seed / 3) % 2 == 0;
                tids.push(k::spawn_in(procs[i + 1], "relay", move || {
                    let mut n = seed;
                    let mut sink = Sink(pipe(i + 1));
                    read_decoder(h2, i, i, hop, allow, |p| {
                        n += 7;
                        write_one(&h3, i + 1, &mut sink, &p, n % 32, (n / 5) % 3, aw)
                    });
                }));
            }
        }
        let end = k::ctl_join(&tids, Some(k::now_ns() + 60_000_000_000));
        if end == k::Wake::StepLimit {
            out.probe("step_limit");
        } else if end != k::Wake::Woken {
            let b: Vec<String> = tids.iter().filter(|t| !k::thread_over(**t)).map(|t| format!("{} {:?}", k::sim().threads[*t].name, k::sim().threads[*t].state)).collect();
            out.viol("C30", "hangs", format!("the stream is over but somebody still waits ({end:?}): {}", b.join(", ")));
        }
        for p in k::sim().panics.iter().filter(|p| p.0 != 0) {
            let c = if k::sim().threads[p.0].name == "writer" { "C31" } else { "C30" };
            out.viol(c, "panic", format!("{} panicked: {} {}", k::sim().threads[p.0].name, p.2, p.3));
        }
        k::sim().panics.clear();
        for i in 0..hops {
            let p = pipe(i);
            let kind = if i + 1 == hops { plan.get("kind") } else { 0 };
            let hop = plan.get(&format!("hop{i}")) == 1 && kind == 0;
            let allow = plan.get(&format!("allow{i}")) == 1;
            let died = !h.get().done[i];
            judge_reader(out, p.get(), &h.get().reads[i].1, kind, hop, allow, died);
        }
        judge_writes(out, h.get());
        if k::sim().kills > 0 {
            out.probe("killed");
        }
    }
    fn components(&self) -> &'static str {
        "real: linkspace-pkt, linkspace-common packet reader and cli writer, linkspace lk_read and lk_write, k256, blake3; stub: pipes, scheduler, clock"
    }
}
fn upto(r: &mut Rng, l: &[u64]) -> u64 {
    let n = r.pick(l);
    r.below(n)
}
