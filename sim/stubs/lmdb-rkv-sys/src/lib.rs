//! Stand-in for LMDB: a versioned in-memory store per simulated path.
//! One writer at a time across all simulated processes, readers see an immutable snapshot,
//! a commit is atomic and durable, and everything a killed process had not committed is lost.
#![allow(non_camel_case_types, non_snake_case, clippy::missing_safety_doc)]
use libc::{c_char, c_int, c_uint, c_void, size_t};
use lksim_kernel as k;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const MDB_SUCCESS: c_int = 0;
pub const MDB_KEYEXIST: c_int = -30799;
pub const MDB_NOTFOUND: c_int = -30798;
pub const MDB_MAP_FULL: c_int = -30792;
pub const MDB_READERS_FULL: c_int = -30790;
pub const MDB_BAD_TXN: c_int = -30782;
pub const MDB_BAD_VALSIZE: c_int = -30781;
pub const EINVAL: c_int = 22;
pub const EBUSY: c_int = 16;

pub type MDB_cursor_op = c_uint;
pub const MDB_FIRST: c_uint = 0;
pub const MDB_FIRST_DUP: c_uint = 1;
pub const MDB_GET_BOTH: c_uint = 2;
pub const MDB_GET_BOTH_RANGE: c_uint = 3;
pub const MDB_GET_CURRENT: c_uint = 4;
pub const MDB_GET_MULTIPLE: c_uint = 5;
pub const MDB_LAST: c_uint = 6;
pub const MDB_LAST_DUP: c_uint = 7;
pub const MDB_NEXT: c_uint = 8;
pub const MDB_NEXT_DUP: c_uint = 9;
pub const MDB_NEXT_MULTIPLE: c_uint = 10;
pub const MDB_NEXT_NODUP: c_uint = 11;
pub const MDB_PREV: c_uint = 12;
pub const MDB_PREV_DUP: c_uint = 13;
pub const MDB_PREV_NODUP: c_uint = 14;
pub const MDB_SET: c_uint = 15;
pub const MDB_SET_KEY: c_uint = 16;
pub const MDB_SET_RANGE: c_uint = 17;

pub const MDB_NOOVERWRITE: c_uint = 0x10;
pub const MDB_NODUPDATA: c_uint = 0x20;
pub const MDB_CURRENT: c_uint = 0x40;
pub const MDB_RESERVE: c_uint = 0x10000;
pub const MDB_APPEND: c_uint = 0x20000;
pub const MDB_APPENDDUP: c_uint = 0x40000;

pub const MDB_REVERSEKEY: c_uint = 0x02;
pub const MDB_DUPSORT: c_uint = 0x04;
pub const MDB_INTEGERKEY: c_uint = 0x08;
pub const MDB_DUPFIXED: c_uint = 0x10;

#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct MDB_val {
    pub mv_size: size_t,
    pub mv_data: *mut c_void,
}
#[repr(C)]
#[derive(Debug, Copy, Clone, Default)]
pub struct MDB_stat {
    pub ms_psize: c_uint,
    pub ms_depth: c_uint,
    pub ms_branch_pages: size_t,
    pub ms_leaf_pages: size_t,
    pub ms_overflow_pages: size_t,
    pub ms_entries: size_t,
}
#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct MDB_envinfo {
    pub me_mapaddr: *mut c_void,
    pub me_mapsize: size_t,
    pub me_last_pgno: size_t,
    pub me_last_txnid: size_t,
    pub me_maxreaders: c_uint,
    pub me_numreaders: c_uint,
}
pub type MDB_dbi = c_uint;

struct Buf {
    words: Box<[u64]>,
    len: usize,
}
impl Buf {
    fn new(b: &[u8]) -> Arc<Buf> {
        let r = Self::reserve(b.len());
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), r.ptr(), b.len()) };
        r
    }
    fn reserve(len: usize) -> Arc<Buf> {
        Arc::new(Buf { words: vec![0xA5A5_A5A5_A5A5_A5A5u64; (len + 7) / 8].into_boxed_slice(), len })
    }
    fn ptr(&self) -> *mut u8 {
        self.words.as_ptr() as *mut u8
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
    }
    fn val(&self) -> MDB_val {
        MDB_val { mv_size: self.len, mv_data: self.ptr().cast() }
    }
}
#[derive(Clone)]
struct Row {
    key: Arc<Buf>,
    vals: Vec<Arc<Buf>>,
}
#[derive(Clone)]
struct Db {
    name: String,
    flags: c_uint,
    rows: BTreeMap<Vec<u8>, Row>,
}
#[derive(Clone, Default)]
struct State {
    dbs: Vec<Arc<Db>>,
    txnid: u64,
    bytes: u64,
}
struct Store {
    path: String,
    committed: Arc<State>,
    writer: Option<(k::ProcId, k::Tid)>,
    opens: Vec<k::ProcId>,
    readers: Vec<k::ProcId>,
    history: Vec<Commit>,
    pin: Option<usize>,
}
/// one committed write transaction
#[derive(Clone)]
pub struct Commit {
    pub proc_: k::ProcId,
    pub tid: k::Tid,
    pub step: u64,
    pub seq: u64,
    /// the wall clock, in microseconds
    pub us: u64,
    state: Arc<State>,
}
impl Commit {
    /// number of different keys in a table
    pub fn rows(&self, table: &str) -> usize {
        self.state.dbs.iter().find(|d| d.name == table).map(|d| d.rows.len()).unwrap_or(0)
    }
    pub fn tables(&self) -> usize {
        self.state.dbs.len()
    }
}
#[derive(Default)]
struct Stores(Vec<Store>);

fn stores() -> &'static mut Vec<Store> {
    let s = k::sim();
    if !s.ext.contains_key("lmdb") {
        s.ext.insert("lmdb", Box::new(Stores::default()));
        s.on_kill.push(killed);
    }
    &mut s.ext.get_mut("lmdb").unwrap().downcast_mut::<Stores>().unwrap().0
}
fn killed(p: k::ProcId) {
    for (i, s) in stores().iter_mut().enumerate() {
        s.opens.retain(|x| *x != p);
        s.readers.retain(|x| *x != p);
        if s.writer.map(|w| w.0 == p).unwrap_or(false) {
            s.writer = None;
            k::count("db_writer_killed");
        }
        if s.writer.is_none() {
            // also when the lock was free and handed to a waiter that died before it ran
            k::wake_what(k::What::Db(i), usize::MAX);
        }
    }
}
fn pm(i: usize, what: &'static str) -> bool {
    let s = k::sim();
    let p = s.cfg.db[i];
    if p == 0 || s.faults_off {
        return false;
    }
    if s.ch.choose(k::choice::Kind::Db, |r| r.chance(p, 1000) as u64) != 0 {
        k::fault(what);
        return true;
    }
    false
}

/// harness view of a store: for each database the key and value pairs in order
pub fn dump(path: &str) -> Option<Vec<(String, Vec<(Vec<u8>, Vec<u8>)>)>> {
    let st = stores().iter().find(|s| s.path == path)?;
    Some(
        st.committed
            .dbs
            .iter()
            .map(|d| (d.name.clone(), d.rows.values().flat_map(|r| r.vals.iter().map(|v| (r.key.bytes().to_vec(), v.bytes().to_vec()))).collect()))
            .collect(),
    )
}
/// strictly increasing number shared by the harness history and the commits
pub fn seq() -> u64 {
    let s = k::sim();
    s.seq += 1;
    s.seq
}
/// every commit of a store so far, oldest first
pub fn history(path: &str) -> Vec<Commit> {
    stores().iter().find(|s| s.path == path).map(|s| s.history.clone()).unwrap_or_default()
}
pub fn commits(path: &str) -> usize {
    stores().iter().find(|s| s.path == path).map(|s| s.history.len()).unwrap_or(0)
}
/// readers that begin from now on see the state after the given commit (harness only)
pub fn pin(path: &str, i: Option<usize>) {
    if let Some(s) = stores().iter_mut().find(|s| s.path == path) {
        s.pin = i;
    }
}
/// a process died and all its descriptors with it, or the harness discards a handle
pub fn writer_free(path: &str) -> bool {
    stores().iter().find(|s| s.path == path).map(|s| s.writer.is_none()).unwrap_or(true)
}
pub fn txnid(path: &str) -> u64 {
    stores().iter().find(|s| s.path == path).map(|s| s.committed.txnid).unwrap_or(0)
}
pub fn open_readers(path: &str) -> usize {
    stores().iter().find(|s| s.path == path).map(|s| s.readers.len()).unwrap_or(0)
}

pub struct MDB_env {
    id: usize,
    proc_: k::ProcId,
}
pub struct MDB_txn {
    env: usize,
    proc_: k::ProcId,
    write: bool,
    state: Option<Arc<State>>,
    failed: bool,
}
pub struct MDB_cursor {
    txn: *mut MDB_txn,
    dbi: MDB_dbi,
    at: Option<(Vec<u8>, usize)>,
}
// ------------------------------------------------------------------ environment
pub fn env_open(path: &str) -> Result<*mut MDB_env, c_int> {
    k::point(k::P::Db);
    let me = k::cur_proc();
    let l = stores();
    let id = match l.iter().position(|s| s.path == path) {
        Some(i) => i,
        None => {
            l.push(Store { path: path.into(), committed: Arc::default(), writer: None, opens: vec![], readers: vec![], history: vec![], pin: None });
            l.len() - 1
        }
    };
    if l[id].opens.contains(&me) {
        k::count("db_double_open");
        k::ev(|| format!("db open {path}: already open in this process"));
        return Err(EBUSY);
    }
    if k::counter("db_open_error") < k::sim().cfg.db[6].max(3) && pm(4, "db_open_error") {
        return Err(libc::EAGAIN);
    }
    l[id].opens.push(me);
    k::evh(|| format!("db open {path}"));
    Ok(Box::into_raw(Box::new(MDB_env { id, proc_: me })))
}
pub unsafe fn env_close(e: *mut MDB_env) {
    let e = Box::from_raw(e);
    let s = &mut stores()[e.id];
    if let Some(i) = s.opens.iter().position(|p| *p == e.proc_) {
        s.opens.remove(i);
    }
}
pub unsafe fn dbi_open(e: *mut MDB_env, name: &str, flags: c_uint) -> Result<MDB_dbi, c_int> {
    let find = |s: &State| s.dbs.iter().position(|d| d.name == name).map(|i| i as MDB_dbi);
    // opening happens in a write transaction of its own
    let t = txn_begin(e, true)?;
    if let Some(i) = find((*t).state.as_ref().unwrap()) {
        txn_abort(t);
        return Ok(i);
    }
    let st = Arc::make_mut((*t).state.as_mut().unwrap());
    st.dbs.push(Arc::new(Db { name: name.into(), flags, rows: BTreeMap::new() }));
    let i = st.dbs.len() - 1;
    match txn_commit(t) {
        0 => Ok(i as MDB_dbi),
        e => Err(e),
    }
}
// ------------------------------------------------------------------ transactions
pub unsafe fn txn_begin(e: *mut MDB_env, write: bool) -> Result<*mut MDB_txn, c_int> {
    k::point(k::P::Db);
    let id = (*e).id;
    let me = k::cur_proc();
    if write {
        while stores()[id].writer.is_some() {
            k::count("db_writer_wait");
            k::block(k::What::Db(id), None);
        }
        stores()[id].writer = Some((me, k::cur()));
        k::evh(|| "db begin write".into());
    } else {
        if pm(3, "db_readers_full") {
            return Err(MDB_READERS_FULL);
        }
        stores()[id].readers.push(me);
    }
    let sto = &stores()[id];
    let state = Some(match sto.pin {
        Some(i) if !write => sto.history[i].state.clone(),
        _ => sto.committed.clone(),
    });
    Ok(Box::into_raw(Box::new(MDB_txn { env: id, proc_: me, write, state, failed: false })))
}
fn unlock(id: usize) {
    stores()[id].writer = None;
    k::wake_what(k::What::Db(id), 1);
}
fn reader_gone(id: usize, p: k::ProcId) {
    let l = &mut stores()[id].readers;
    if let Some(i) = l.iter().position(|x| *x == p) {
        l.remove(i);
    }
}
pub unsafe fn txn_abort(t: *mut MDB_txn) {
    let t = Box::from_raw(t);
    if t.write {
        k::evh(|| "db abort".into());
        unlock(t.env);
        k::point(k::P::Db);
    } else if t.state.is_some() {
        reader_gone(t.env, t.proc_);
    }
}
pub unsafe fn txn_commit(t: *mut MDB_txn) -> c_int {
    if !(*t).write {
        txn_abort(t);
        return 0;
    }
    // the process may die here: nothing of the transaction remains
    k::point(k::P::Db);
    if (*t).failed {
        txn_abort(t);
        return MDB_BAD_TXN;
    }
    if pm(1, "db_commit_eio") {
        txn_abort(t);
        return libc::EIO;
    }
    if pm(2, "db_commit_enospc") {
        txn_abort(t);
        return libc::ENOSPC;
    }
    let b = Box::from_raw(t);
    let mut st = b.state.unwrap();
    Arc::make_mut(&mut st).txnid += 1;
    k::count("db_commit");
    k::evh(|| format!("db commit {}", st.txnid));
    let step = k::sim().step;
    let sto = &mut stores()[b.env];
    sto.history.push(Commit { proc_: b.proc_, tid: k::cur(), step, seq: seq(), us: (k::rt_ns() / 1000) as u64, state: st.clone() });
    sto.committed = st;
    // or here: everything of it remains, though the caller never learns of it
    k::point(k::P::Db);
    unlock(b.env);
    k::point(k::P::Db);
    0
}
pub unsafe fn mdb_txn_reset(t: *mut MDB_txn) {
    if (*t).state.take().is_some() {
        reader_gone((*t).env, (*t).proc_);
    }
}
pub unsafe fn mdb_txn_renew(t: *mut MDB_txn) -> c_int {
    k::point(k::P::Db);
    let s = &mut stores()[(*t).env];
    s.readers.push((*t).proc_);
    (*t).state = Some(s.committed.clone());
    0
}
// ------------------------------------------------------------------ cursors
pub unsafe fn cursor_open(t: *mut MDB_txn, dbi: MDB_dbi) -> Result<*mut MDB_cursor, c_int> {
    match (*t).state.as_ref() {
        Some(s) if (dbi as usize) < s.dbs.len() => {}
        _ => return Err(MDB_BAD_TXN),
    }
    Ok(Box::into_raw(Box::new(MDB_cursor { txn: t, dbi, at: None })))
}
pub unsafe fn cursor_close(c: *mut MDB_cursor) {
    drop(Box::from_raw(c))
}
fn sort_key(flags: c_uint, k: &[u8]) -> Vec<u8> {
    if flags & MDB_INTEGERKEY != 0 {
        let mut v = k.to_vec();
        v.reverse();
        v
    } else {
        k.to_vec()
    }
}
unsafe fn bytes<'a>(v: *const MDB_val) -> &'a [u8] {
    if (*v).mv_data.is_null() || (*v).mv_size == 0 {
        return &[];
    }
    std::slice::from_raw_parts((*v).mv_data as *const u8, (*v).mv_size)
}
pub unsafe fn mdb_cursor_get(c: *mut MDB_cursor, key: *mut MDB_val, data: *mut MDB_val, op: MDB_cursor_op) -> c_int {
    use std::ops::Bound::*;
    let c = &mut *c;
    let Some(st) = (*c.txn).state.clone() else { return MDB_BAD_TXN };
    let db = &st.dbs[c.dbi as usize];
    let dup = db.flags & MDB_DUPSORT != 0;
    let first = || db.rows.iter().next().map(|(s, _)| (s.clone(), 0));
    let last = || db.rows.iter().next_back().map(|(s, r)| (s.clone(), r.vals.len() - 1));
    let next_key = |s: &Vec<u8>| db.rows.range((Excluded(s.clone()), Unbounded)).next().map(|(s, _)| (s.clone(), 0));
    let prev_key = |s: &Vec<u8>| db.rows.range((Unbounded, Excluded(s.clone()))).next_back().map(|(s, r)| (s.clone(), r.vals.len() - 1));
    let mut ret_key = true;
    let to = match op {
        MDB_FIRST => first(),
        MDB_LAST => last(),
        MDB_GET_CURRENT => match &c.at {
            None => return EINVAL,
            a => a.clone(),
        },
        MDB_NEXT | MDB_NEXT_DUP | MDB_NEXT_NODUP => match &c.at {
            None => first(),
            Some((s, i)) => {
                let n = db.rows.get(s).map(|r| r.vals.len()).unwrap_or(0);
                if op != MDB_NEXT_NODUP && dup && i + 1 < n {
                    Some((s.clone(), i + 1))
                } else if op == MDB_NEXT_DUP {
                    None
                } else {
                    next_key(s)
                }
            }
        },
        MDB_PREV | MDB_PREV_DUP | MDB_PREV_NODUP => match &c.at {
            None => last(),
            Some((s, i)) => {
                if op != MDB_PREV_NODUP && dup && *i > 0 {
                    Some((s.clone(), i - 1))
                } else if op == MDB_PREV_DUP {
                    None
                } else {
                    prev_key(s)
                }
            }
        },
        MDB_FIRST_DUP | MDB_LAST_DUP => match &c.at {
            None => return EINVAL,
            Some((s, _)) => {
                let n = db.rows[s].vals.len();
                ret_key = n == 1;
                Some((s.clone(), if op == MDB_LAST_DUP { n - 1 } else { 0 }))
            }
        },
        MDB_SET | MDB_SET_KEY | MDB_SET_RANGE => {
            let kb = bytes(key);
            if kb.is_empty() || kb.len() > 511 {
                return MDB_BAD_VALSIZE;
            }
            let s = sort_key(db.flags, kb);
            ret_key = op != MDB_SET;
            let hit = match op {
                MDB_SET_RANGE => db.rows.range(s..).next().map(|(s, _)| (s.clone(), 0)),
                _ => db.rows.contains_key(&s).then_some((s, 0)),
            };
            if hit.is_none() {
                c.at = None;
            }
            hit
        }
        _ => panic!("cursor operation {op}"),
    };
    let Some((s, i)) = to else { return MDB_NOTFOUND };
    let row = &db.rows[&s];
    if ret_key {
        *key = row.key.val();
    }
    *data = row.vals[i].val();
    c.at = Some((s, i));
    0
}
pub unsafe fn mdb_cursor_put(c: *mut MDB_cursor, key: *mut MDB_val, data: *mut MDB_val, flags: c_uint) -> c_int {
    k::point(k::P::Db);
    let c = &mut *c;
    let t = &mut *c.txn;
    if !t.write {
        return libc::EACCES;
    }
    let kb = bytes(key);
    if kb.is_empty() || kb.len() > 511 {
        return MDB_BAD_VALSIZE;
    }
    if pm(0, "db_map_full") {
        t.failed = true;
        return MDB_MAP_FULL;
    }
    let st = Arc::make_mut(t.state.as_mut().unwrap());
    let cap = k::sim().cfg.db[5];
    let add = (*data).mv_size as u64 + kb.len() as u64 + 16;
    if cap > 0 && st.bytes + add > cap {
        k::fault("db_out_of_space");
        t.failed = true;
        return MDB_MAP_FULL;
    }
    let db = Arc::make_mut(&mut st.dbs[c.dbi as usize]);
    let s = sort_key(db.flags, kb);
    if flags & MDB_APPEND != 0 {
        if let Some((l, _)) = db.rows.iter().next_back() {
            if s <= *l {
                return MDB_KEYEXIST;
            }
        }
    }
    if flags & MDB_NOOVERWRITE != 0 {
        if let Some(r) = db.rows.get(&s) {
            *data = r.vals[0].val();
            c.at = Some((s, 0));
            return MDB_KEYEXIST;
        }
    }
    let buf = if flags & MDB_RESERVE != 0 { Buf::reserve((*data).mv_size) } else { Buf::new(bytes(data)) };
    if flags & MDB_RESERVE != 0 {
        *data = buf.val();
    }
    let dup = db.flags & MDB_DUPSORT != 0;
    let row = db.rows.entry(s.clone()).or_insert_with(|| Row { key: Buf::new(kb), vals: vec![] });
    let mut at = 0;
    if dup {
        if buf.len == 0 || buf.len > 511 {
            return MDB_BAD_VALSIZE;
        }
        match row.vals.binary_search_by(|v| v.bytes().cmp(buf.bytes())) {
            Ok(_) if flags & MDB_NODUPDATA != 0 => return MDB_KEYEXIST,
            Ok(i) => at = i,
            Err(i) => {
                row.vals.insert(i, buf);
                at = i;
                st.bytes += add;
            }
        }
    } else {
        row.vals = vec![buf];
        st.bytes += add;
    }
    c.at = Some((s, at));
    0
}
// ------------------------------------------------------------------ information
pub unsafe fn mdb_stat(t: *mut MDB_txn, dbi: MDB_dbi, out: *mut MDB_stat) -> c_int {
    let Some(st) = (*t).state.as_ref() else { return MDB_BAD_TXN };
    out.write(MDB_stat { ms_psize: 4096, ms_depth: 1, ms_entries: st.dbs[dbi as usize].rows.values().map(|r| r.vals.len()).sum(), ..Default::default() });
    0
}
pub unsafe fn mdb_env_info(e: *mut MDB_env, out: *mut MDB_envinfo) -> c_int {
    let s = &stores()[(*e).id];
    out.write(MDB_envinfo {
        me_mapaddr: std::ptr::null_mut(),
        me_mapsize: 1 << 38,
        me_last_pgno: 0,
        me_last_txnid: s.committed.txnid as usize,
        me_maxreaders: 126,
        me_numreaders: s.readers.len() as u32,
    });
    0
}
pub unsafe fn mdb_env_get_fd(_e: *mut MDB_env, fd: *mut c_int) -> c_int {
    fd.write(-1);
    EINVAL
}
pub unsafe fn mdb_version(major: *mut c_int, minor: *mut c_int, patch: *mut c_int) -> *const c_char {
    major.write(0);
    minor.write(9);
    patch.write(24);
    b"sim\0".as_ptr().cast()
}
