//! Simulated UDP/IPv4 with loopback multicast: one host, several processes.
use crate::choice::Kind;
use crate::raw::set_errno;
use crate::sched::*;
use std::collections::{BTreeMap, VecDeque};

pub const FD_BASE: i32 = 500_000;

#[derive(Default)]
pub struct Sock {
    pub proc_: ProcId,
    pub refs: u32,
    pub reuse_addr: bool,
    pub reuse_port: bool,
    pub bound: Option<(u32, u16)>,
    pub members: Vec<(u32, u32)>,
    pub mcast_if: u32,
    pub mcast_loop: bool,
    pub mcast_ttl: i32,
    pub peer: Option<(u32, u16)>,
    pub device_lo: bool,
    pub nonblock: bool,
    pub rcv_timeo: u64,
    pub rcv_shut: bool,
    pub queue: VecDeque<((u32, u16), Vec<u8>)>,
    pub eph: u16,
}
#[derive(Default)]
pub struct Net {
    pub socks: BTreeMap<i32, Sock>,
    /// dup'ed descriptors
    pub alias: BTreeMap<i32, i32>,
    pub next_fd: i32,
    pub next_eph: u16,
    /// (sending process, port, bytes) of everything handed to the network
    pub sent: Vec<(ProcId, u16, Vec<u8>)>,
    /// thread and history number of each entry of `sent`
    pub sent_by: Vec<(usize, u64)>,
    /// (receiving process, bytes) of everything given to a recv call
    pub received: Vec<(ProcId, Vec<u8>, u64)>,
    /// process and step of each send that failed
    pub send_errs: Vec<(ProcId, u64)>,
    /// receiving process of datagrams the network decided to lose
    pub dropped: Vec<(ProcId, Vec<u8>)>,
    /// filter installed by a scenario: return true to lose the datagram (partition)
    pub partition: Vec<(ProcId, ProcId)>,
    pub bind_errors: u64,
}
pub const LO: u32 = 0x7f000001;
pub const ETH: u32 = 0x0a000005;

fn net() -> &'static mut Net {
    &mut sim().net
}
fn root(fd: i32) -> i32 {
    net().alias.get(&fd).copied().unwrap_or(fd)
}
pub fn owns(fd: i32) -> bool {
    let n = net();
    n.socks.contains_key(&fd) || n.alias.contains_key(&fd)
}
pub fn socket() -> i32 {
    point(P::Net);
    let n = net();
    let fd = FD_BASE + n.next_fd;
    n.next_fd += 1;
    n.next_eph += 1;
    let eph = 40000 + n.next_eph;
    n.socks.insert(fd, Sock { proc_: cur_proc(), refs: 1, mcast_loop: true, mcast_ttl: 1, eph, ..Default::default() });
    ev(|| format!("socket -> {fd}"));
    fd
}
pub fn dup(fd: i32) -> i32 {
    let r = root(fd);
    let n = net();
    let nf = FD_BASE + n.next_fd;
    n.next_fd += 1;
    n.alias.insert(nf, r);
    n.socks.get_mut(&r).unwrap().refs += 1;
    nf
}
pub fn close(fd: i32) {
    let r = root(fd);
    let n = net();
    n.alias.remove(&fd);
    if let Some(s) = n.socks.get_mut(&r) {
        s.refs -= 1;
        if s.refs == 0 {
            n.socks.remove(&r);
        }
    }
}
pub fn shutdown(fd: i32) {
    let r = root(fd);
    if let Some(s) = net().socks.get_mut(&r) {
        s.rcv_shut = true;
    }
    wake_what(What::Recv(r), usize::MAX);
}
pub fn proc_killed(p: ProcId) {
    let n = net();
    let dead: Vec<i32> = n.socks.iter().filter(|(_, s)| s.proc_ == p).map(|(f, _)| *f).collect();
    for f in dead {
        n.socks.remove(&f);
        n.alias.retain(|_, r| *r != f);
    }
}
pub fn with<R>(fd: i32, f: impl FnOnce(&mut Sock) -> R) -> R {
    let r = root(fd);
    f(net().socks.get_mut(&r).expect("socket"))
}
pub fn bind(fd: i32, ip: u32, port: u16) -> i32 {
    point(P::Net);
    let r = root(fd);
    let n = net();
    let (ra, rp) = {
        let s = &n.socks[&r];
        (s.reuse_addr, s.reuse_port)
    };
    let clash = n.socks.iter().any(|(f, s)| {
        *f != r
            && matches!(s.bound, Some((i, p)) if p == port && (i == ip || i == 0 || ip == 0))
            && !((ra && s.reuse_addr) || (rp && s.reuse_port))
    });
    if clash {
        n.bind_errors += 1;
        ev(|| format!("bind {fd} port {port} -> EADDRINUSE"));
        set_errno(libc::EADDRINUSE);
        return -1;
    }
    n.socks.get_mut(&r).unwrap().bound = Some((ip, port));
    ev(|| format!("bind {fd} port {port}"));
    0
}
fn deliver(fd: i32, src: (u32, u16), bytes: Vec<u8>) {
    let cap = sim().cfg.net_rcvbuf as usize;
    let Some(s) = net().socks.get_mut(&fd) else { return };
    let p = s.proc_;
    if s.queue.len() >= cap {
        fault("net_rcvbuf_overflow");
        net().dropped.push((p, bytes));
        return;
    }
    s.queue.push_back((src, bytes));
    wake_what(What::Recv(fd), 1);
}
/// put a datagram on the wire (also used by the harness to inject foreign traffic)
pub fn transmit(from: Option<ProcId>, src: (u32, u16), via_if: u32, dst: (u32, u16), bytes: &[u8], faulty: bool) {
    let targets: Vec<i32> = net()
        .socks
        .iter()
        .filter(|(_, s)| match s.bound {
            Some((ip, p)) => {
                p == dst.1
                    && (ip == 0 || ip == dst.0)
                    && if dst.0 >> 28 == 0xe { s.members.iter().any(|(g, i)| *g == dst.0 && *i == via_if) } else { true }
            }
            None => false,
        })
        .map(|(f, _)| *f)
        .collect();
    for t in targets {
        let tp = net().socks[&t].proc_;
        let off = sim().faults_off || !faulty;
        if let Some(f) = from {
            if !off && net().partition.iter().any(|(a, b)| (*a == f && *b == tp) || (*a == tp && *b == f)) {
                count("net_partition_drop");
                net().dropped.push((tp, bytes.to_vec()));
                continue;
            }
        }
        let c = sim().cfg.clone();
        let mut copies = 1;
        let mut extra = 0;
        if !off && (c.net_drop_pm + c.net_dup_pm + c.net_delay_pm) > 0 {
            let v = sim().ch.choose(Kind::Net, |r| {
                let x = r.below(1000);
                if x < c.net_drop_pm {
                    1
                } else if x < c.net_drop_pm + c.net_dup_pm {
                    2
                } else if x < c.net_drop_pm + c.net_dup_pm + c.net_delay_pm {
                    3 + r.below(c.net_delay_max_us.max(1))
                } else {
                    0
                }
            });
            match v {
                0 => {}
                1 => {
                    fault("net_drop");
                    net().dropped.push((tp, bytes.to_vec()));
                    continue;
                }
                2 => {
                    fault("net_dup");
                    copies = 2
                }
                d => {
                    fault("net_delay");
                    extra = d - 2
                }
            }
        }
        for i in 0..copies {
            let b = bytes.to_vec();
            let delay = (c.net_base_us + extra + i * 7) * 1000;
            schedule(delay, move || deliver(t, src, b));
        }
    }
}
pub fn sendto(fd: i32, bytes: &[u8], ip: u32, port: u16) -> isize {
    point(P::Net);
    let c = sim().cfg.net_senderr_pm;
    if c > 0 && !sim().faults_off {
        let v = sim().ch.choose(Kind::Net, |r| if r.below(1000) < c { 1 + r.below(3) } else { 0 });
        if v > 0 {
            fault("net_send_error");
            net().send_errs.push((cur_proc(), sim().step));
            set_errno([libc::ENOBUFS, libc::EPERM, libc::ENETUNREACH][(v - 1) as usize % 3]);
            return -1;
        }
    }
    let p = cur_proc();
    let (via, src, lp) = with(fd, |s| {
        let via = s.mcast_if;
        let src_ip = if via == LO || s.device_lo { LO } else { ETH };
        (via, (src_ip, s.bound.map(|b| b.1).unwrap_or(s.eph)), s.mcast_loop)
    });
    net().sent.push((p, port, bytes.to_vec()));
    sim().seq += 1;
    net().sent_by.push((cur(), sim().seq));
    ev(|| format!("sendto port {port} {} bytes", bytes.len()));
    mix(bytes.len() as u64);
    if ip >> 28 == 0xe && !lp {
        return bytes.len() as isize;
    }
    transmit(Some(p), src, via, (ip, port), bytes, true);
    bytes.len() as isize
}
pub fn recvfrom(fd: i32, buf: &mut [u8], peek: bool, dontwait: bool) -> Result<(usize, (u32, u16)), i32> {
    point(P::Net);
    let r = root(fd);
    loop {
        let c = sim().cfg.net_recv_eintr_pm;
        if c > 0 && !sim().faults_off {
            let v = sim().ch.choose(Kind::Net, |g| (g.below(1000) < c) as u64);
            if v > 0 {
                fault("net_recv_eintr");
                return Err(libc::EINTR);
            }
        }
        let Some(s) = net().socks.get_mut(&r) else { return Err(libc::EBADF) };
        if let Some((src, b)) = s.queue.front().cloned() {
            if !peek {
                s.queue.pop_front();
                let p = s.proc_;
                let st = sim().step;
                net().received.push((p, b.clone(), st));
            }
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            ev(|| format!("recvfrom {n} bytes"));
            return Ok((n, src));
        }
        if s.rcv_shut {
            return Ok((0, (0, 0)));
        }
        if s.nonblock || dontwait {
            return Err(libc::EAGAIN);
        }
        let dl = if s.rcv_timeo > 0 { Some(now_ns() + s.rcv_timeo) } else { None };
        match block(What::Recv(r), dl) {
            Wake::Timeout => return Err(libc::EAGAIN),
            Wake::Intr => return Err(libc::EINTR),
            _ => {}
        }
    }
}

pub fn wait_readable(fd: i32, dl: Option<u64>) -> bool {
    point(P::Net);
    let r = root(fd);
    loop {
        let Some(s) = net().socks.get(&r) else { return true };
        if !s.queue.is_empty() || s.rcv_shut {
            return true;
        }
        if matches!(dl, Some(d) if d <= now_ns()) {
            return false;
        }
        block(What::Recv(r), dl);
    }
}
