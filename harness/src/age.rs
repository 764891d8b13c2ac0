//! Making a long uptime reachable: a call that changes nothing but one counter in an object
//! can be repeated any number of times by advancing that counter.
#![allow(dead_code)]

/// `idle` is called three times on `x`.  If every call adds one to the same 32-bit word of
/// `x` and changes nothing else, `n` more calls are made at once by adding `n` to that word.
/// Returns whether there is such a word (otherwise only the three calls were made).
#[inline(never)]
pub fn age<T>(x: &mut T, n: u32, mut idle: impl FnMut(&mut T)) -> bool {
    let words = core::mem::size_of::<T>() / 4;
    let p = x as *mut T as *mut u32;
    let mut found = usize::MAX;
    let mut snap = [0u32; 64];
    assert!(words <= 64 && core::mem::align_of::<T>() >= 4);
    let mut one = true;
    for call in 0..3 {
        for i in 0..words {
            snap[i] = unsafe { p.add(i).read_volatile() };
        }
        idle(x);
        let mut changed = 0;
        for i in 0..words {
            let now = unsafe { p.add(i).read_volatile() };
            if now != snap[i] {
                changed += 1;
                if now == snap[i].wrapping_add(1) && (call == 0 || found == i) {
                    found = i;
                } else {
                    one = false;
                }
            }
        }
        one &= changed == 1;
    }
    if one {
        unsafe {
            let w = p.add(found);
            w.write_volatile(w.read_volatile().wrapping_add(n));
        }
    }
    one
}
