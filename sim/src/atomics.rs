//! Scheduling points inside the library's own code: build.sh has every atomic operation of the library (so every
//! uncontended lock, reference count, counter and flag too) compiled into one of these calls.
use crate::world::atomic_point;
use std::sync::atomic::*;
use Ordering::SeqCst;

macro_rules! atomics {
    ($t:ty, $at:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident, $strong:ident, $weak:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $t, _: i32) -> $t {
            atomic_point();
            (*(a as *const $at)).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _: i32) {
            atomic_point();
            (*(a as *const $at)).store(v, SeqCst)
        }
        atomics!(@rmw $t, $at, $xchg, swap);
        atomics!(@rmw $t, $at, $add, fetch_add);
        atomics!(@rmw $t, $at, $sub, fetch_sub);
        atomics!(@rmw $t, $at, $and, fetch_and);
        atomics!(@rmw $t, $at, $or, fetch_or);
        atomics!(@rmw $t, $at, $xor, fetch_xor);
        atomics!(@rmw $t, $at, $nand, fetch_nand);
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            atomic_point();
            (*(a as *const $at)).compare_exchange(c, v, SeqCst, SeqCst).unwrap_or_else(|x| x)
        }
        atomics!(@cas $t, $at, $strong);
        atomics!(@cas $t, $at, $weak);
    };
    (@rmw $t:ty, $at:ty, $name:ident, $op:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: *mut $t, v: $t, _: i32) -> $t {
            atomic_point();
            (*(a as *const $at)).$op(v, SeqCst)
        }
    };
    (@cas $t:ty, $at:ty, $name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: *mut $t, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            atomic_point();
            match (*(a as *const $at)).compare_exchange(*c, v, SeqCst, SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
    };
}
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
