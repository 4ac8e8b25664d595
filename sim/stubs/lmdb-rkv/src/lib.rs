//! Stand-in for the lmdb-rs fork: the same safe interface over the simulated store.
use libc::{c_int, c_uint};
use lmdb_sys as ffi;
use std::marker::PhantomData;
use std::path::Path;

#[derive(Debug, Eq, PartialEq, Copy, Clone)]
pub enum Error {
    KeyExist,
    NotFound,
    MapFull,
    ReadersFull,
    BadTxn,
    BadValSize,
    Other(c_int),
}
impl Error {
    pub fn from_err_code(e: c_int) -> Error {
        match e {
            ffi::MDB_KEYEXIST => Error::KeyExist,
            ffi::MDB_NOTFOUND => Error::NotFound,
            ffi::MDB_MAP_FULL => Error::MapFull,
            ffi::MDB_READERS_FULL => Error::ReadersFull,
            ffi::MDB_BAD_TXN => Error::BadTxn,
            ffi::MDB_BAD_VALSIZE => Error::BadValSize,
            o => Error::Other(o),
        }
    }
    pub fn to_err_code(&self) -> c_int {
        match *self {
            Error::KeyExist => ffi::MDB_KEYEXIST,
            Error::NotFound => ffi::MDB_NOTFOUND,
            Error::MapFull => ffi::MDB_MAP_FULL,
            Error::ReadersFull => ffi::MDB_READERS_FULL,
            Error::BadTxn => ffi::MDB_BAD_TXN,
            Error::BadValSize => ffi::MDB_BAD_VALSIZE,
            Error::Other(o) => o,
        }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn lmdb_result(e: c_int) -> Result<()> {
    if e == ffi::MDB_SUCCESS {
        Ok(())
    } else {
        Err(Error::from_err_code(e))
    }
}
bitflags::bitflags! {
    #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
    pub struct EnvironmentFlags: c_uint {
        const FIXED_MAP = 0x01;
        const NO_SUB_DIR = 0x4000;
        const WRITE_MAP = 0x80000;
        const READ_ONLY = 0x20000;
        const NO_META_SYNC = 0x40000;
        const NO_SYNC = 0x10000;
        const MAP_ASYNC = 0x100000;
        const NO_TLS = 0x200000;
        const NO_LOCK = 0x400000;
    }
    #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
    pub struct DatabaseFlags: c_uint {
        const REVERSE_KEY = 0x02;
        const DUP_SORT = 0x04;
        const INTEGER_KEY = 0x08;
        const DUP_FIXED = 0x10;
    }
    #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
    pub struct WriteFlags: c_uint {
        const NO_OVERWRITE = 0x10;
        const NO_DUP_DATA = 0x20;
        const CURRENT = 0x40;
        const APPEND = 0x20000;
        const APPEND_DUP = 0x40000;
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Database(ffi::MDB_dbi);
impl Database {
    pub fn dbi(&self) -> ffi::MDB_dbi {
        self.0
    }
}
unsafe impl Sync for Database {}
unsafe impl Send for Database {}

#[derive(Debug)]
pub struct EnvironmentBuilder;
impl EnvironmentBuilder {
    pub fn set_max_dbs(&mut self, _: c_uint) -> &mut Self {
        self
    }
    pub fn set_flags(&mut self, _: EnvironmentFlags) -> &mut Self {
        self
    }
    pub fn set_map_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn open(&self, path: &Path) -> Result<Environment> {
        let p = lksim_path(path);
        ffi::env_open(&p).map(Environment).map_err(Error::from_err_code)
    }
}
/// one store per directory, however its path was spelled
fn lksim_path(p: &Path) -> String {
    let p = std::fs::canonicalize(p).unwrap_or_else(|_| p.to_path_buf());
    p.to_string_lossy().into_owned()
}
pub struct Environment(*mut ffi::MDB_env);
unsafe impl Send for Environment {}
unsafe impl Sync for Environment {}
impl Environment {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> EnvironmentBuilder {
        EnvironmentBuilder
    }
    pub fn env(&self) -> *mut ffi::MDB_env {
        self.0
    }
    pub fn create_db(&self, name: Option<&str>, flags: DatabaseFlags) -> Result<Database> {
        unsafe { ffi::dbi_open(self.0, name.unwrap_or(""), flags.bits()) }.map(Database).map_err(Error::from_err_code)
    }
    pub fn begin_ro_txn(&self) -> Result<RoTransaction> {
        unsafe { ffi::txn_begin(self.0, false) }.map(|t| RoTransaction { txn: t, _m: PhantomData }).map_err(Error::from_err_code)
    }
    pub fn begin_rw_txn(&self) -> Result<RwTransaction> {
        unsafe { ffi::txn_begin(self.0, true) }.map(|t| RwTransaction { txn: t, _m: PhantomData }).map_err(Error::from_err_code)
    }
}
impl Drop for Environment {
    fn drop(&mut self) {
        unsafe { ffi::env_close(self.0) }
    }
}
pub trait Transaction: Sized {
    fn txn(&self) -> *mut ffi::MDB_txn;
    fn commit(self) -> Result<()> {
        unsafe {
            let r = lmdb_result(ffi::txn_commit(self.txn()));
            std::mem::forget(self);
            r
        }
    }
    fn abort(self) {}
    fn open_ro_cursor(&self, db: Database) -> Result<RoCursor<'_>> {
        RoCursor::new(self, db)
    }
}
pub struct RoTransaction<'env> {
    txn: *mut ffi::MDB_txn,
    _m: PhantomData<&'env ()>,
}
pub struct RwTransaction<'env> {
    txn: *mut ffi::MDB_txn,
    _m: PhantomData<&'env ()>,
}
unsafe impl Send for RoTransaction<'_> {}
impl<'env> RoTransaction<'env> {
    pub fn reset(self) -> InactiveTransaction<'env> {
        let t = self.txn;
        std::mem::forget(self);
        unsafe { ffi::mdb_txn_reset(t) };
        InactiveTransaction { txn: t, _m: PhantomData }
    }
}
pub struct InactiveTransaction<'env> {
    txn: *mut ffi::MDB_txn,
    _m: PhantomData<&'env ()>,
}
impl<'env> InactiveTransaction<'env> {
    pub fn renew(self) -> Result<RoTransaction<'env>> {
        let t = self.txn;
        std::mem::forget(self);
        unsafe { lmdb_result(ffi::mdb_txn_renew(t))? };
        Ok(RoTransaction { txn: t, _m: PhantomData })
    }
}
impl Drop for InactiveTransaction<'_> {
    fn drop(&mut self) {
        unsafe { ffi::txn_abort(self.txn) }
    }
}
impl Transaction for RoTransaction<'_> {
    fn txn(&self) -> *mut ffi::MDB_txn {
        self.txn
    }
}
impl Drop for RoTransaction<'_> {
    fn drop(&mut self) {
        unsafe { ffi::txn_abort(self.txn) }
    }
}
impl Transaction for RwTransaction<'_> {
    fn txn(&self) -> *mut ffi::MDB_txn {
        self.txn
    }
}
impl Drop for RwTransaction<'_> {
    fn drop(&mut self) {
        unsafe { ffi::txn_abort(self.txn) }
    }
}
pub struct RoCursor<'txn> {
    cursor: *mut ffi::MDB_cursor,
    _m: PhantomData<&'txn ()>,
}
impl Drop for RoCursor<'_> {
    fn drop(&mut self) {
        unsafe { ffi::cursor_close(self.cursor) }
    }
}
fn val(b: Option<&[u8]>) -> ffi::MDB_val {
    match b {
        Some(b) => ffi::MDB_val { mv_size: b.len(), mv_data: b.as_ptr() as *mut _ },
        None => ffi::MDB_val { mv_size: 0, mv_data: std::ptr::null_mut() },
    }
}
unsafe fn slice<'a>(v: ffi::MDB_val) -> &'a [u8] {
    std::slice::from_raw_parts(v.mv_data as *const u8, v.mv_size)
}
impl<'txn> RoCursor<'txn> {
    pub fn new<T: Transaction>(txn: &'txn T, db: Database) -> Result<RoCursor<'txn>> {
        unsafe { ffi::cursor_open(txn.txn(), db.0) }.map(|c| RoCursor { cursor: c, _m: PhantomData }).map_err(Error::from_err_code)
    }
    pub fn cursor(&self) -> *mut ffi::MDB_cursor {
        self.cursor
    }
    pub fn get(&self, key: Option<&[u8]>, data: Option<&[u8]>, op: c_uint) -> Result<(Option<&'txn [u8]>, &'txn [u8])> {
        unsafe {
            let mut kv = val(key);
            let mut dv = val(data);
            let kp = kv.mv_data;
            lmdb_result(ffi::mdb_cursor_get(self.cursor, &mut kv, &mut dv, op))?;
            let ko = if std::ptr::eq(kp, kv.mv_data) { None } else { Some(slice(kv)) };
            Ok((ko, slice(dv)))
        }
    }
    pub fn iter_from<K: AsRef<[u8]>>(self, key: K) -> Iter<'txn> {
        match self.get(Some(key.as_ref()), None, ffi::MDB_SET_RANGE) {
            Ok(_) | Err(Error::NotFound) => {}
            Err(e) => return Iter::Err(e),
        }
        Iter::Ok { cursor: self, op: ffi::MDB_GET_CURRENT, next_op: ffi::MDB_NEXT }
    }
}
pub struct RwCursor<'txn>(RoCursor<'txn>);
impl<'txn> RwCursor<'txn> {
    pub fn new<T: Transaction>(txn: &'txn T, db: Database) -> Result<RwCursor<'txn>> {
        RoCursor::new(txn, db).map(RwCursor)
    }
    pub fn ro(&self) -> &RoCursor<'txn> {
        &self.0
    }
    pub fn put<K: AsRef<[u8]> + ?Sized, D: AsRef<[u8]> + ?Sized>(&mut self, key: &K, data: &D, flags: WriteFlags) -> Result<()> {
        let mut kv = val(Some(key.as_ref()));
        let mut dv = val(Some(data.as_ref()));
        unsafe { lmdb_result(ffi::mdb_cursor_put(self.0.cursor, &mut kv, &mut dv, flags.bits())) }
    }
}
pub enum Iter<'txn> {
    Err(Error),
    Ok { cursor: RoCursor<'txn>, op: c_uint, next_op: c_uint },
}
impl<'txn> Iterator for Iter<'txn> {
    type Item = Result<(&'txn [u8], &'txn [u8])>;
    fn next(&mut self) -> Option<Self::Item> {
        match self {
            Iter::Err(e) => Some(Err(*e)),
            Iter::Ok { cursor, op, next_op } => {
                let mut kv = val(None);
                let mut dv = val(None);
                let o = std::mem::replace(op, *next_op);
                unsafe {
                    match ffi::mdb_cursor_get(cursor.cursor, &mut kv, &mut dv, o) {
                        ffi::MDB_SUCCESS => Some(Ok((slice(kv), slice(dv)))),
                        ffi::MDB_NOTFOUND | ffi::EINVAL => None,
                        e => Some(Err(Error::from_err_code(e))),
                    }
                }
            }
        }
    }
}
