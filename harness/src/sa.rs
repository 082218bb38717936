//! Intrinsics of the analyser. Their bodies are never used: the analyser interprets calls to them.
#![allow(unused_variables)]
/// proof obligation
pub fn check(cond: bool, what: &str) {}
/// restrict the inputs considered
pub fn assume(cond: bool) {}
/// an arbitrary value
pub fn any<T>() -> T { loop {} }
/// arbitrary bytes of arbitrary length at an arbitrary address
pub fn bytes() -> &'static [u8] { loop {} }
pub fn bytes_mut() -> &'static mut [u8] { loop {} }
/// an arbitrary string
pub fn text() -> &'static str { loop {} }
pub fn uf(name: &str, a: usize) -> usize { loop {} }
pub fn uf2(name: &str, a: usize, b: usize) -> usize { loop {} }
pub fn uf_bool(name: &str, a: usize) -> bool { loop {} }
/// number of UTF-16 units of a string, and one of them
pub fn u16len(s: &str) -> usize { loop {} }
pub fn unit(s: &str, i: usize) -> u16 { loop {} }
/// ghost variables
pub fn gset<T>(slot: usize, v: T) {}
pub fn gget<T>(slot: usize) -> T { loop {} }
/// calls `f` when the library compares names (1), writes (2), calls itself (3), pushes a character (0), reads bytes (5: address, count) or a unit of a string (6: index)
pub fn hook<F>(slot: usize, f: F) {}
/// the identity of a value: equal only for values equal in all their parts
pub fn ident<T>(v: &T) -> usize { loop {} }
/// calls `f` with the result of every call of the function at `path`
pub fn after<F>(path: &str, f: F) {}
pub fn unhook(slot: usize) {}
/// name comparison as an uninterpreted total order (proved to be one separately)
pub fn names_uf() {}
pub fn names_native() {}
/// states that differ only in the error reported are not distinguished
pub fn coarse() {}
/// does the condition hold in every state considered here?
pub fn known(cond: bool) -> bool { loop {} }
/// the distance of an address from the start of a slice, if both are in the same memory
pub fn off_in(p: *const u8, s: &[u8]) -> Option<usize> { loop {} }
pub fn track(v: usize) {}
pub fn debug<T>(what: &str, v: T) {}
/// the sign of the comparison of a name with a name or string, as the library sees it under names_uf
pub fn namecmp<X, Y>(a: X, b: Y) -> i64 { loop {} }
/// how many states of one shape a function may return before they are joined
pub fn join(n: usize) {}
/// is this number part of what was handed to the recursive call at hand?
pub fn refers(n: usize) -> bool { loop {} }
/// the numbers that are part of what was handed to the recursive call at hand
pub fn arg(i: usize) -> Option<usize> { loop {} }
/// how deep recursion is followed
pub fn rec(n: usize) {}
