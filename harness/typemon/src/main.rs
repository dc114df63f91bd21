//! Monitor for the type library: constraints (P06), extension values (P20), look-ups (P11), and,
//! under Miri and AddressSanitizer, the absence of undefined behaviour in all of them (P21).
mod account;
mod constraints;
mod exts;
mod misc;

use runner::Case;

fn case(c: &mut Case) {
    let m = c.mode.clone();
    let n = match m.as_str() {
        "" => c.rng.below(12),
        "constraints" => 0,
        "extensions" => 5,
        "accounts" => 9,
        _ => 11,
    };
    match n {
        0..=3 => constraints::case(c),
        4..=7 => exts::case(c),
        8..=10 => account::case(c),
        _ => misc::case(c),
    }
}

fn main() {
    runner::main(
        "typemon",
        "Each evaluation compares one observable result of the real type library (bytes built, value read, rule evaluated, entry found, refusal) with an independent reference. Distinct cases are counted by a label of the operation, shapes, sizes (bucketed) and outcome.",
        &["values are held in 8-byte aligned buffers, as account data is on chain"],
        case,
    );
}

/// Bytes in a buffer aligned to 8 (as account data is), `lead` bytes after its start. The allocation ends
/// where the bytes end, so that a sanitizer sees any access beyond them.
pub struct Aligned {
    start: *mut u8,
    lead: usize,
    len: usize,
}
impl Aligned {
    pub fn new(b: &[u8]) -> Self {
        Self::at(b, 0)
    }
    pub fn at(b: &[u8], lead: usize) -> Self {
        let mut a = Aligned { start: unsafe { std::alloc::alloc_zeroed(Self::layout(b.len() + lead)) }, lead, len: b.len() };
        assert!(!a.start.is_null());
        a.get_mut().copy_from_slice(b);
        a
    }
    fn layout(n: usize) -> std::alloc::Layout {
        std::alloc::Layout::from_size_align(n.max(1), 8).unwrap()
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.start.add(self.lead), self.len) }
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.start.add(self.lead), self.len) }
    }
}
impl Drop for Aligned {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.start, Self::layout(self.lead + self.len)) }
    }
}

pub fn bucket(n: usize) -> &'static str {
    match n {
        0 => "0",
        1 => "1",
        2..=4 => "few",
        5..=31 => "some",
        32..=127 => "many",
        128..=254 => "hundreds",
        255 => "255",
        _ => "lots",
    }
}
