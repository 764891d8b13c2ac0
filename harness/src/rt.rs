//! Harness runtime: the same harness source is
//!  * executed symbolically (`ir` feature: calls to undefined `__sym_*` functions), or
//!  * replayed natively with concrete values looked up by tag.
#![allow(dead_code)]

#[cfg(feature = "ir")]
mod imp {
    extern "C" {
        fn __sym_var(tag: u32, bits: u32) -> u64;
        fn __sym_range(tag: u32, bits: u32, lo: u64, hi: u64) -> u64;
        fn __sym_assume(b: bool);
        fn __sym_check(b: bool, id: u32);
        fn __sym_cover(b: bool, id: u32);
        fn __sym_observe(v: u64, id: u32);
    }
    #[inline(always)]
    pub fn var(tag: u32, bits: u32) -> u64 {
        unsafe { __sym_var(tag, bits) }
    }
    #[inline(always)]
    pub fn range(tag: u32, bits: u32, lo: u64, hi: u64) -> u64 {
        unsafe { __sym_range(tag, bits, lo, hi) }
    }
    #[inline(always)]
    pub fn assume(b: bool) {
        unsafe { __sym_assume(b) }
    }
    #[inline(always)]
    pub fn check(b: bool, id: u32) {
        unsafe { __sym_check(b, id) }
    }
    #[inline(always)]
    pub fn cover(b: bool, id: u32) {
        unsafe { __sym_cover(b, id) }
    }
    #[inline(always)]
    pub fn observe(v: u64, id: u32) {
        unsafe { __sym_observe(v, id) }
    }
}

#[cfg(not(feature = "ir"))]
mod imp {
    use std::collections::HashMap;
    use std::sync::Mutex;
    pub static VALUES: Mutex<Option<HashMap<u32, u64>>> = Mutex::new(None);

    pub fn var(tag: u32, bits: u32) -> u64 {
        let g = VALUES.lock().unwrap();
        let v = g.as_ref().and_then(|m| m.get(&tag).copied()).unwrap_or(0);
        if bits >= 64 {
            v
        } else {
            v & ((1u64 << bits) - 1)
        }
    }
    pub fn range(tag: u32, bits: u32, lo: u64, hi: u64) -> u64 {
        let v = var(tag, bits);
        assume(lo <= v && v <= hi);
        v
    }
    pub fn assume(b: bool) {
        if !b {
            println!("ASSUME-FAILED");
            std::process::exit(0);
        }
    }
    pub fn check(b: bool, id: u32) {
        if !b {
            println!("CHECK-FAILED {id}");
        }
    }
    pub fn cover(b: bool, id: u32) {
        if b {
            println!("COVERED {id}");
        }
    }
    pub fn observe(v: u64, id: u32) {
        println!("OBSERVE {id} {v}");
    }
}

#[cfg(not(feature = "ir"))]
pub use imp::VALUES;
pub use imp::{assume, check, cover, observe};

/// Arbitrary values; every dynamic draw of a harness uses its own tag.
#[inline(always)]
pub fn any_u64(tag: u32) -> u64 {
    imp::var(tag, 64)
}
#[inline(always)]
pub fn any_u32(tag: u32) -> u32 {
    imp::var(tag, 32) as u32
}
#[inline(always)]
pub fn any_u16(tag: u32) -> u16 {
    imp::var(tag, 16) as u16
}
#[inline(always)]
pub fn any_u8(tag: u32) -> u8 {
    imp::var(tag, 8) as u8
}
#[inline(always)]
pub fn any_bool(tag: u32) -> bool {
    imp::var(tag, 1) != 0
}

/// An arbitrary value in `lo..=hi`.
#[inline(always)]
pub fn any_in(tag: u32, lo: u32, hi: u32) -> u32 {
    imp::range(tag, 32, lo as u64, hi as u64) as u32
}

pub const THOROUGH: bool = cfg!(feature = "thorough");

/// Declares harnesses: exported symbols for the engine, a table for the replayer.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $( $(#[$m])* #[no_mangle] pub fn $name() $body )*
        #[cfg(not(feature = "ir"))]
        pub const TABLE: &[(&str, fn())] = &[ $( $(#[$m])* (stringify!($name), $name as fn()) ),* ];
    };
}
