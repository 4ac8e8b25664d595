//! Simulated file system for every path below /sim. In-memory, with crash, short-I/O and
//! error faults. Written data survives a process kill; a power cut keeps only synced data.
use crate::choice::Kind;
use crate::raw::set_errno;
use crate::sched::*;
use std::collections::BTreeMap;

pub const FD_BASE: i32 = 600_000;
pub const ROOT: &str = "/sim";

pub enum Node {
    File { data: Vec<u8>, durable: Vec<u8> },
    Dir(BTreeMap<String, u64>),
}
pub struct Inode {
    pub node: Node,
    pub nlink: u32,
    pub opens: u32,
    pub mtime: i128,
    pub lock: Option<i32>,
}
pub struct Open {
    pub ino: u64,
    pub pos: u64,
    pub flags: i32,
    pub proc_: ProcId,
    pub dirpos: usize,
    pub path: String,
}
pub struct Fs {
    pub inodes: BTreeMap<u64, Inode>,
    pub open: BTreeMap<i32, Open>,
    pub next_ino: u64,
    pub next_fd: i32,
}
impl Default for Fs {
    fn default() -> Self {
        let mut inodes = BTreeMap::new();
        inodes.insert(1, Inode { node: Node::Dir(BTreeMap::new()), nlink: 1, opens: 0, mtime: 0, lock: None });
        Fs { inodes, open: BTreeMap::new(), next_ino: 2, next_fd: 0 }
    }
}
fn fs() -> &'static mut Fs {
    &mut sim().fs
}
pub fn is_sim_path(p: &[u8]) -> bool {
    p == b"/sim" || p.starts_with(b"/sim/")
}
pub fn owns(fd: i32) -> bool {
    fs().open.contains_key(&fd)
}
type R<T> = Result<T, i32>;

fn parts(p: &str) -> Vec<&str> {
    let mut v = vec![];
    for c in p.strip_prefix("/sim").unwrap_or(p).split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v
}
pub fn normalize(p: &str) -> String {
    let v = parts(p);
    if v.is_empty() {
        "/sim".into()
    } else {
        format!("/sim/{}", v.join("/"))
    }
}
pub fn lookup(p: &str) -> R<u64> {
    let mut at = 1u64;
    for c in parts(p) {
        match &fs().inodes[&at].node {
            Node::Dir(d) => at = *d.get(c).ok_or(libc::ENOENT)?,
            _ => return Err(libc::ENOTDIR),
        }
    }
    Ok(at)
}
fn parent(p: &str) -> R<(u64, String)> {
    let mut v = parts(p);
    let name = v.pop().ok_or(libc::EEXIST)?.to_string();
    let ino = lookup(&format!("/sim/{}", v.join("/")))?;
    if !matches!(fs().inodes[&ino].node, Node::Dir(_)) {
        return Err(libc::ENOTDIR);
    }
    Ok((ino, name))
}
fn dir(ino: u64) -> &'static mut BTreeMap<String, u64> {
    match &mut fs().inodes.get_mut(&ino).unwrap().node {
        Node::Dir(d) => d,
        _ => panic!("not a dir"),
    }
}
fn new_inode(node: Node) -> u64 {
    let f = fs();
    let i = f.next_ino;
    f.next_ino += 1;
    f.inodes.insert(i, Inode { node, nlink: 1, opens: 0, mtime: rt_ns(), lock: None });
    i
}
fn maybe_free(ino: u64) {
    if let Some(i) = fs().inodes.get(&ino) {
        if i.nlink == 0 && i.opens == 0 {
            fs().inodes.remove(&ino);
        }
    }
}
fn fault_err(write: bool) -> Option<i32> {
    let c = &sim().cfg;
    let (eintr, eio, nospc) = (c.fs_eintr_pm, c.fs_eio_pm, if write { c.fs_enospc_pm } else { 0 });
    if eintr + eio + nospc == 0 || sim().faults_off {
        return None;
    }
    let v = sim().ch.choose(Kind::Fs, |r| {
        let x = r.below(1000);
        if x < eintr {
            1
        } else if x < eintr + eio {
            2
        } else if x < eintr + eio + nospc {
            3
        } else {
            0
        }
    });
    match v {
        0 => None,
        1 => {
            fault("fs_eintr");
            Some(libc::EINTR)
        }
        2 => {
            fault("fs_eio");
            Some(libc::EIO)
        }
        _ => {
            fault("fs_enospc");
            Some(libc::ENOSPC)
        }
    }
}
fn fault_short(len: usize) -> usize {
    let c = sim().cfg.fs_short_pm;
    if c == 0 || len < 2 || sim().faults_off {
        return len;
    }
    let v = sim().ch.choose(Kind::Fs, |r| if r.below(1000) < c { 1 + r.below(len as u64 - 1) } else { 0 });
    if v == 0 {
        len
    } else {
        fault("fs_short_io");
        v as usize % len
    }
    .max(1)
}
pub fn open(p: &str, flags: i32) -> R<i32> {
    point(P::Fs);
    let acc = flags & libc::O_ACCMODE;
    let wr = acc != libc::O_RDONLY;
    if let Some(e) = fault_err(flags & libc::O_CREAT != 0) {
        return Err(e);
    }
    let ino = match lookup(p) {
        Ok(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            i
        }
        Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
            let (d, n) = parent(p)?;
            let i = new_inode(Node::File { data: vec![], durable: vec![] });
            dir(d).insert(n, i);
            i
        }
        Err(e) => return Err(e),
    };
    match &mut fs().inodes.get_mut(&ino).unwrap().node {
        Node::Dir(_) => {
            if wr {
                return Err(libc::EISDIR);
            }
        }
        Node::File { data, .. } => {
            if flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            if flags & libc::O_TRUNC != 0 && wr {
                data.clear();
            }
        }
    }
    let f = fs();
    let fd = FD_BASE + f.next_fd;
    f.next_fd += 1;
    f.inodes.get_mut(&ino).unwrap().opens += 1;
    f.open.insert(fd, Open { ino, pos: 0, flags, proc_: cur_proc(), dirpos: 0, path: normalize(p) });
    ev(|| format!("open {p} flags {flags:#x} -> {fd}"));
    mix(fd as u64);
    Ok(fd)
}
pub fn dup(fd: i32) -> R<i32> {
    let f = fs();
    let o = &f.open[&fd];
    let n = Open { ino: o.ino, pos: o.pos, flags: o.flags, proc_: o.proc_, dirpos: 0, path: o.path.clone() };
    let nf = FD_BASE + f.next_fd;
    f.next_fd += 1;
    f.inodes.get_mut(&n.ino).unwrap().opens += 1;
    f.open.insert(nf, n);
    Ok(nf)
}
fn release_lock(fd: i32) {
    let ino = fs().open[&fd].ino;
    let i = fs().inodes.get_mut(&ino).unwrap();
    if i.lock == Some(fd) {
        i.lock = None;
        wake_what(What::Flock(ino), usize::MAX);
    }
}
pub fn close(fd: i32) {
    release_lock(fd);
    let o = fs().open.remove(&fd).unwrap();
    fs().inodes.get_mut(&o.ino).unwrap().opens -= 1;
    maybe_free(o.ino);
}
pub fn proc_killed(p: ProcId) {
    let l: Vec<i32> = fs().open.iter().filter(|(_, o)| o.proc_ == p).map(|(f, _)| *f).collect();
    for f in l {
        close(f);
    }
}
pub fn read(fd: i32, buf: &mut [u8], at: Option<u64>) -> R<usize> {
    point(P::Fs);
    if let Some(e) = fault_err(false) {
        return Err(e);
    }
    let n = fault_short(buf.len());
    let o = fs().open.get_mut(&fd).ok_or(libc::EBADF)?;
    if o.flags & libc::O_ACCMODE == libc::O_WRONLY {
        return Err(libc::EBADF);
    }
    let pos = at.unwrap_or(o.pos) as usize;
    let ino = o.ino;
    let data = match &fs().inodes[&ino].node {
        Node::File { data, .. } => data,
        _ => return Err(libc::EISDIR),
    };
    if pos >= data.len() {
        return Ok(0);
    }
    let n = n.min(data.len() - pos);
    buf[..n].copy_from_slice(&data[pos..pos + n]);
    if at.is_none() {
        o.pos += n as u64;
    }
    Ok(n)
}
pub fn write(fd: i32, buf: &[u8], at: Option<u64>) -> R<usize> {
    point(P::Fs);
    if let Some(e) = fault_err(true) {
        return Err(e);
    }
    let n = fault_short(buf.len());
    let o = fs().open.get_mut(&fd).ok_or(libc::EBADF)?;
    if o.flags & libc::O_ACCMODE == libc::O_RDONLY {
        return Err(libc::EBADF);
    }
    let inode = fs().inodes.get_mut(&o.ino).unwrap();
    inode.mtime = rt_ns();
    let data = match &mut inode.node {
        Node::File { data, .. } => data,
        _ => return Err(libc::EISDIR),
    };
    let pos = if o.flags & libc::O_APPEND != 0 { data.len() } else { at.unwrap_or(o.pos) as usize };
    if data.len() < pos + n {
        data.resize(pos + n, 0);
    }
    data[pos..pos + n].copy_from_slice(&buf[..n]);
    if at.is_none() {
        o.pos = (pos + n) as u64;
    }
    let path = &o.path;
    ev(|| format!("write {path} {n}/{} bytes at {pos}", buf.len()));
    mix(n as u64);
    Ok(n)
}
pub fn fsync(fd: i32) -> R<i32> {
    point(P::Fs);
    if let Some(e) = fault_err(false) {
        return Err(e);
    }
    let ino = fs().open.get(&fd).ok_or(libc::EBADF)?.ino;
    if let Node::File { data, durable } = &mut fs().inodes.get_mut(&ino).unwrap().node {
        *durable = data.clone();
    }
    Ok(0)
}
pub fn ftruncate(fd: i32, len: u64) -> R<i32> {
    point(P::Fs);
    let ino = fs().open.get(&fd).ok_or(libc::EBADF)?.ino;
    if let Node::File { data, .. } = &mut fs().inodes.get_mut(&ino).unwrap().node {
        data.resize(len as usize, 0);
    }
    Ok(0)
}
pub fn lseek(fd: i32, off: i64, whence: i32) -> R<i64> {
    let o = fs().open.get_mut(&fd).ok_or(libc::EBADF)?;
    let len = match &fs().inodes[&o.ino].node {
        Node::File { data, .. } => data.len() as i64,
        _ => 0,
    };
    let n = match whence {
        libc::SEEK_SET => off,
        libc::SEEK_CUR => o.pos as i64 + off,
        _ => len + off,
    };
    if n < 0 {
        return Err(libc::EINVAL);
    }
    o.pos = n as u64;
    Ok(n)
}
pub fn flock(fd: i32, op: i32) -> R<i32> {
    point(P::Fs);
    if op & libc::LOCK_UN != 0 {
        release_lock(fd);
        return Ok(0);
    }
    let ino = fs().open.get(&fd).ok_or(libc::EBADF)?.ino;
    loop {
        let i = fs().inodes.get_mut(&ino).unwrap();
        match i.lock {
            None => {
                i.lock = Some(fd);
                ev(|| format!("flock {fd}"));
                return Ok(0);
            }
            Some(h) if h == fd => return Ok(0),
            Some(_) => {
                if op & libc::LOCK_NB != 0 {
                    return Err(libc::EWOULDBLOCK);
                }
                count("flock_contended");
                block(What::Flock(ino), None);
            }
        }
    }
}
pub fn mkdir(p: &str) -> R<i32> {
    point(P::Fs);
    let (d, n) = parent(p)?;
    if dir(d).contains_key(&n) {
        return Err(libc::EEXIST);
    }
    let i = new_inode(Node::Dir(BTreeMap::new()));
    dir(d).insert(n, i);
    Ok(0)
}
pub fn unlink(p: &str, want_dir: bool) -> R<i32> {
    point(P::Fs);
    let (d, n) = parent(p)?;
    let ino = *dir(d).get(&n).ok_or(libc::ENOENT)?;
    let is_dir = match &fs().inodes[&ino].node {
        Node::Dir(x) => {
            if !x.is_empty() {
                return Err(libc::ENOTEMPTY);
            }
            true
        }
        _ => false,
    };
    if is_dir != want_dir {
        return Err(if want_dir { libc::ENOTDIR } else { libc::EISDIR });
    }
    dir(d).remove(&n);
    fs().inodes.get_mut(&ino).unwrap().nlink -= 1;
    maybe_free(ino);
    Ok(0)
}
pub fn rename(a: &str, b: &str) -> R<i32> {
    point(P::Fs);
    if let Some(e) = fault_err(true) {
        if e != libc::EINTR {
            return Err(e);
        }
    }
    let (da, na) = parent(a)?;
    let ino = *dir(da).get(&na).ok_or(libc::ENOENT)?;
    let (db, nb) = parent(b)?;
    if let Some(old) = dir(db).get(&nb).copied() {
        if old == ino {
            return Ok(0);
        }
        fs().inodes.get_mut(&old).unwrap().nlink -= 1;
        maybe_free(old);
    }
    dir(da).remove(&na);
    dir(db).insert(nb, ino);
    ev(|| format!("rename {a} {b}"));
    Ok(0)
}
pub fn link(a: &str, b: &str) -> R<i32> {
    point(P::Fs);
    let ino = lookup(a)?;
    let (db, nb) = parent(b)?;
    if dir(db).contains_key(&nb) {
        return Err(libc::EEXIST);
    }
    dir(db).insert(nb, ino);
    fs().inodes.get_mut(&ino).unwrap().nlink += 1;
    Ok(0)
}
/// (ino, is_dir, size, nlink, mtime)
pub fn stat_ino(ino: u64) -> (u64, bool, u64, u32, i128) {
    let i = &fs().inodes[&ino];
    match &i.node {
        Node::File { data, .. } => (ino, false, data.len() as u64, i.nlink, i.mtime),
        Node::Dir(_) => (ino, true, 4096, i.nlink, i.mtime),
    }
}
pub fn stat_path(p: &str) -> R<(u64, bool, u64, u32, i128)> {
    point(P::Fs);
    lookup(p).map(stat_ino)
}
pub fn stat_fd(fd: i32) -> R<(u64, bool, u64, u32, i128)> {
    Ok(stat_ino(fs().open.get(&fd).ok_or(libc::EBADF)?.ino))
}
/// next directory entry (name, ino, is_dir)
pub fn readdir(fd: i32) -> Option<(String, u64, bool)> {
    let o = fs().open.get_mut(&fd)?;
    let d = match &fs().inodes[&o.ino].node {
        Node::Dir(d) => d,
        _ => return None,
    };
    let e = d.iter().nth(o.dirpos)?;
    o.dirpos += 1;
    Some((e.0.clone(), *e.1, stat_ino(*e.1).1))
}

// ---- harness side (no scheduling points, no faults) ----
pub fn h_mkdirs(p: &str) {
    let mut at = 1;
    for c in parts(p) {
        let nx = dir(at).get(c).copied();
        at = match nx {
            Some(i) => i,
            None => {
                let i = new_inode(Node::Dir(BTreeMap::new()));
                dir(at).insert(c.to_string(), i);
                i
            }
        };
    }
}
pub fn h_read(p: &str) -> Option<Vec<u8>> {
    let i = lookup(p).ok()?;
    match &fs().inodes[&i].node {
        Node::File { data, .. } => Some(data.clone()),
        _ => None,
    }
}
pub fn h_write(p: &str, b: &[u8]) {
    let (d, n) = parent(p).expect("parent");
    let i = match dir(d).get(&n) {
        Some(i) => *i,
        None => {
            let i = new_inode(Node::File { data: vec![], durable: vec![] });
            dir(d).insert(n, i);
            i
        }
    };
    if let Node::File { data, durable } = &mut fs().inodes.get_mut(&i).unwrap().node {
        *data = b.to_vec();
        *durable = b.to_vec();
    }
}
pub fn h_remove(p: &str) {
    if let Ok((d, n)) = parent(p) {
        dir(d).remove(&n);
    }
}
pub fn err<T: From<i8>>(r: R<T>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            T::from(-1)
        }
    }
}
