//! The atomic operations of the code under test, which `rustc-wrap` compiles into these calls:
//! the operation itself, after a point at which a multi-threaded executor may run other tasks.
use std::sync::atomic::{fence, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

const RELAXED: i32 = 0;
const SEQ_CST: i32 = 5;

/// Flags, small counters and the locks of std are of eight and of 32 bits. Words of 64 bits are
/// mostly reference counts and the inner state of the runtime, whose every use is not worth a
/// decision.
#[inline]
fn point(bits: u32, plain_store: bool, order: i32) {
    if bits < 64 || order == SEQ_CST || (plain_store && order == RELAXED) {
        super::co::lock_point();
    }
}

macro_rules! ops {
    ($bits:literal, $int:ty, $atomic:ty, $load:ident, $store:ident, $xchg:ident, $cas:ident, $($rmw:ident $op:ident),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $int, o: i32) -> $int {
            point($bits, false, o);
            <$atomic>::from_ptr(p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $int, v: $int, o: i32) {
            point($bits, true, o);
            <$atomic>::from_ptr(p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $int, v: $int, o: i32) -> $int {
            point($bits, false, o);
            <$atomic>::from_ptr(p).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $int, old: $int, new: $int, o: i32, _fail: i32) -> $int {
            point($bits, false, o);
            match <$atomic>::from_ptr(p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(v) | Err(v) => v,
            }
        }
        $(#[no_mangle]
        pub unsafe extern "C" fn $rmw(p: *mut $int, v: $int, o: i32) -> $int {
            point($bits, false, o);
            <$atomic>::from_ptr(p).$op(v, SeqCst)
        })*
    };
}
ops!(8, u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_compare_exchange_val,
    __tsan_atomic8_fetch_add fetch_add, __tsan_atomic8_fetch_sub fetch_sub, __tsan_atomic8_fetch_and fetch_and,
    __tsan_atomic8_fetch_or fetch_or, __tsan_atomic8_fetch_xor fetch_xor, __tsan_atomic8_fetch_nand fetch_nand);
ops!(16, u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_compare_exchange_val,
    __tsan_atomic16_fetch_add fetch_add, __tsan_atomic16_fetch_sub fetch_sub, __tsan_atomic16_fetch_and fetch_and,
    __tsan_atomic16_fetch_or fetch_or, __tsan_atomic16_fetch_xor fetch_xor, __tsan_atomic16_fetch_nand fetch_nand);
ops!(32, u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_compare_exchange_val,
    __tsan_atomic32_fetch_add fetch_add, __tsan_atomic32_fetch_sub fetch_sub, __tsan_atomic32_fetch_and fetch_and,
    __tsan_atomic32_fetch_or fetch_or, __tsan_atomic32_fetch_xor fetch_xor, __tsan_atomic32_fetch_nand fetch_nand);
ops!(64, u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_compare_exchange_val,
    __tsan_atomic64_fetch_add fetch_add, __tsan_atomic64_fetch_sub fetch_sub, __tsan_atomic64_fetch_and fetch_and,
    __tsan_atomic64_fetch_or fetch_or, __tsan_atomic64_fetch_xor fetch_xor, __tsan_atomic64_fetch_nand fetch_nand);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: *const ()) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
