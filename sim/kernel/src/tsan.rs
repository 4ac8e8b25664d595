//! Run time for `-Zsanitizer=thread` instrumentation with only the atomic operations
//! instrumented: every atomic operation of an instrumented crate is a scheduling point.
//! All operations are executed sequentially consistently (the scheduler is sequential);
//! weak-memory reorderings are out of scope.
use crate::sched::{point, P};
use std::sync::atomic::*;

macro_rules! ops {
    ($bits:literal, $t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, _o: i32) -> $t {
            point(P::Atomic);
            (*(p as *const $a)).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) {
            point(P::Atomic);
            (*(p as *const $a)).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _o: i32) -> $t {
            point(P::Atomic);
            (*(p as *const $a)).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _o: i32) -> $t {
            point(P::Atomic);
            (*(p as *const $a)).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _o: i32) -> $t {
            point(P::Atomic);
            (*(p as *const $a)).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _o: i32) -> $t {
            point(P::Atomic);
            (*(p as *const $a)).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: i32) -> $t {
            point(P::Atomic);
            (*(p as *const $a)).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _o: i32) -> $t {
            point(P::Atomic);
            (*(p as *const $a)).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _o: i32) -> $t {
            point(P::Atomic);
            (*(p as *const $a)).fetch_nand(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            point(P::Atomic);
            match (*(p as *const $a)).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    };
}
ops!(8, u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
ops!(16, u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
ops!(32, u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
ops!(64, u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    point(P::Atomic);
    fence(Ordering::SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_p: usize) {
    // crates built with function-entry instrumentation also yield at every function entry
    point(P::User);
}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
