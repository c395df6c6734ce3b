//! The callers of the library. The library's generic code is compiled as part of this crate, which is why it is one of
//! its own: build.sh has atomic operations in it and in the library instrumented (see interpose.rs, `__tsan_*`).
#![allow(dead_code, unused_must_use)]
pub mod ops;
use zcore::*;
