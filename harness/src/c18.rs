//! The only bytes ever changed are volatile subkey counts of keys; they become zero.
use crate::{sa, spec::*};
use nt_hive::*;
// ghost: 0 the hive
fn write(_r: usize, off: usize, n: usize, val: u64) {
    let b = sa::gget::<B>(0);
    sa::check(n == 4, "a write is four bytes long");
    sa::check(val == 0, "a write writes zero");
    if off < 4096 + 28 || off - 28 - 4096 > 0xffff_ffff { sa::check(false, "a write is in the hive bins"); return }
    let Some((c, l)) = cell(b, (off - 28 - 4096) as u32) else { sa::check(false, "a write is in a valid cell"); return };
    sa::check(c + 24 == off, "a write is at the volatile subkey count");
    sa::check(l >= 76, "a write is in a cell with room for a key node");
    sa::check(sig2(b, c, b"nk"), "a write is in a cell with a key node");
}
/// is there a valid key whose cell data starts there?
fn key_at(b: B, c: usize) -> bool { c >= 4100 && c - 4100 <= 0xffff_ffff && match cell(b, (c - 4100) as u32) { Some((d, l)) => d == c && l >= 76 && sig2(b, c, b"nk"), None => false } }
/// a recursive call is about a valid key: what holds for the writes of this call holds for its writes
fn call() {
    let b = sa::gget::<B>(0);
    let mut i = 0;
    while i < 6 {
        let Some(n) = sa::arg(i) else { break };
        // (offsets are kept from the start of the file or of the hive bins, of the cell or of its data)
        if n <= 0xffff_ffff + 8200 && (key_at(b, n + 4096) || key_at(b, n) || key_at(b, n + 4100)) { return }
        i += 1;
    }
    sa::check(false, "recursion is about a valid key");
}
pub fn clear() {
    let m = sa::bytes_mut();
    let b: B = unsafe { &*(m as *const [u8]) };
    sa::gset(0, b);
    let Ok(mut h) = Hive::without_validation(m) else { return };
    sa::hook(2, write); sa::hook(3, call);
    let r = h.clear_volatile_subkeys();
    sa::unhook(2); sa::unhook(3);
}
fn any_write(_r: usize, _off: usize, _n: usize, _val: u64) { sa::check(false, "opening a hive writes nothing") }
/// opening consumes the bytes, so it could write to them; all other operations borrow the hive immutably
pub fn open() {
    let m = sa::bytes_mut();
    sa::hook(2, any_write);
    let Ok(h) = Hive::new(m) else { return };
    sa::check(h.major_version() == 1, "the hive was opened");
}
pub fn open_without_validation() {
    let m = sa::bytes_mut();
    sa::hook(2, any_write);
    let Ok(h) = Hive::without_validation(m) else { return };
    let r = h.root_key_node();
}
