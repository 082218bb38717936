//! Self tests: the analyser must report the first word of each name, and nothing for `ok_*`.
use crate::sa;
pub fn panic_index() { let b = sa::bytes(); let i: usize = sa::any(); if i <= b.len() { let _ = b[i]; } }
pub fn panic_unwrap() { let b = sa::bytes(); let _ = b.first().unwrap(); }
pub fn overflow_add() { let a: u32 = sa::any(); if a < 0xffff_ffff { let _ = a + 2; } }
pub fn check_false() { let a: u32 = sa::any(); sa::check(a != 4_000_000_000, "never"); }
pub fn check_loop() { let b = sa::bytes(); let mut n = 0usize; for x in b.chunks_exact(2) { n += x.len(); } sa::check(n == b.len(), "counts all bytes"); }
pub fn term_loop() { let n: u32 = sa::any(); let mut i = 0u32; while i < n { if i % 2 == 0 { i += 1; } } }
pub fn term_recursion() { fn f(n: u32) -> u32 { if n == 0 { 0 } else { f(n ^ 1) } } f(sa::any()); }
pub fn ok_index() { let b = sa::bytes(); let i: usize = sa::any(); if i < b.len() { let _ = b[i]; } }
pub fn ok_loop() { let b = sa::bytes(); let mut n = 0usize; for x in b.chunks_exact(2) { n += x.len(); } sa::check(n <= b.len() && b.len() <= n + 1, "counts all bytes but one"); }
pub fn ok_search() { let n: u16 = sa::any(); let (mut l, mut r) = (0i32, n as i32 - 1); while l <= r { let m = (l + r) / 2; sa::check(0 <= m && m < n as i32, "inside"); if sa::any() { l = m + 1; } else { r = m - 1; } } }
