//! clear_volatile_subkeys reaches every key or reports an error.
use crate::{sa, spec::*};
use nt_hive::*;
// ghost: 0 the hive, 1 the list at hand (first entry, entry size, count), 2 the place p in it, 3 the key there (file offset of its cell, 0: not read yet), 4 was its count cleared?, 5 was something unreadable met?,
// 6 was the count of the root cleared?, 12 was its list looked at?, 7 the root key, 8 the index root (first entry, count), 9 the place of the leaf in it, 10 was that leaf read?, 11 its entries (first, count)
/// what a key says about its subkeys, when it is asked: is it readable?
fn list_of(b: B, c: usize) -> bool { let off = u32le(b, c + 28); off == NONE || leaf(b, off).is_some() || index_root(b, off).is_some() }
fn key_load(b: B, o: usize) {
    let (f, e, _) = sa::gget::<(usize, usize, usize)>(1);
    let p = sa::gget::<usize>(2);
    let n = nk(b, u32le(b, o));
    if n.is_none() { sa::gset(5, true) }
    if o == f + e * p { if let Some((c, _)) = n { sa::gset(3, c) } }
}
fn load(q: *const u8, n: usize) {
    let b = sa::gget::<B>(0);
    let Some(o) = sa::off_in(q, b) else { return };
    if !sa::known(n >= 4) || !sa::known(n <= 8) { return }
    let root = sa::gget::<usize>(7);
    if sa::known(n == 4) && sa::known(o == root + 28) {
        if !list_of(b, root) { sa::gset(5, true) }
        let off = u32le(b, root + 28);
        sa::gset(12, true);
        if off == NONE { return }
        match leaf(b, off) { Some(l) => sa::gset(1, l), None => if let Some(r) = index_root(b, off) { sa::gset(8, r) } }
        return
    }
    let (rf, rk) = sa::gget::<(usize, usize)>(8);
    if sa::known(rk > 0) && sa::known(o >= rf) && sa::known(o < rf + 4 * rk) {
        let l = root_leaf(b, u32le(b, o));
        if l.is_none() { sa::gset(5, true) }
        if o == rf + 4 * sa::gget::<usize>(9) { if let Some(l) = l { sa::gset(1, l); sa::gset(11, (l.0, l.2)); sa::gset(10, true) } } else { sa::gset(1, (0usize, 4usize, 0usize)) }
        return
    }
    let (f, e, k) = sa::gget::<(usize, usize, usize)>(1);
    if sa::known(k > 0) && sa::known(o >= f) && sa::known(o < f + e * k) { key_load(b, o) }
}
fn write(_r: usize, off: usize, n: usize, val: u64) {
    let root = sa::gget::<usize>(7);
    if sa::known(off == root + 24) && sa::known(n == 4) && sa::known(val == 0) { sa::gset(6, true) }
}
/// the recursive call is about the key in hand, whose count it clears (or else it fails)
fn call() {
    let t = sa::gget::<usize>(3);
    if t >= 4100 && (sa::refers(t) || sa::refers(t - 4096) || sa::refers(t - 4100)) { sa::gset(4, true) }
}
fn below(r: Result<()>) { if r.is_err() { sa::gset(5, true) } }
macro_rules! start { ($h:ident, $b:ident, $p:ident) => {
    let m = sa::bytes_mut();
    let $b: B = unsafe { &*(m as *const [u8]) };
    let Ok(mut $h) = Hive::without_validation(m) else { return };
    let $p: usize = sa::any();
    sa::assume($p <= 65535);
    sa::track($p);
    sa::gset(0, $b); sa::gset(1, (0usize, 4usize, 0usize)); sa::gset(2, $p); sa::gset(3, 0usize); sa::gset(4, false); sa::gset(5, false); sa::gset(6, false); sa::gset(7, 0usize); sa::gset(8, (0usize, 0usize)); sa::gset(9, 0usize); sa::gset(10, false); sa::gset(12, false);
    sa::hook(7, below); sa::hook(3, call);
} }
pub fn root() {
    start!(h, b, p);
    let Some((c, _)) = nk(b, u32le(b, 36)) else { sa::check(h.clear_volatile_subkeys().is_err(), "an unreadable root key is an error"); return };
    sa::gset(7, c);
    sa::hook(5, load); sa::hook(2, write);
    let r = h.clear_volatile_subkeys();
    sa::unhook(5); sa::unhook(2);
    if r.is_err() { return }
    sa::check(sa::gget::<bool>(6), "the count of the root key is cleared");
    sa::check(!sa::gget::<bool>(5), "an unreadable key or list below the root is an error");
}
pub fn leaf_keys() {
    start!(h, b, p);
    let Some((c, _)) = nk(b, u32le(b, 36)) else { return };
    let list = u32le(b, c + 28);
    sa::assume(list != NONE);
    sa::gset(7, c);
    sa::hook(5, load); sa::hook(2, write);
    let r = h.clear_volatile_subkeys();
    sa::unhook(5); sa::unhook(2);
    if r.is_err() { return }
    sa::check(sa::gget::<bool>(12), "the list of subkeys is looked at");
    sa::check(!sa::gget::<bool>(5), "an unreadable key or list is an error");
    if sa::gget::<(usize, usize)>(8).1 > 0 { return }
    let (_, _, k) = sa::gget::<(usize, usize, usize)>(1);
    if p < k { sa::check(sa::gget::<bool>(4), "the count of every subkey is cleared") }
}
pub fn index_root_keys() {
    start!(h, b, p);
    let Some((c, _)) = nk(b, u32le(b, 36)) else { return };
    let r: usize = sa::any();
    sa::assume(r <= 65535);
    sa::track(r);
    sa::gset(11, (0usize, 0usize));
    sa::gset(9, r);
    sa::gset(7, c);
    sa::hook(5, load); sa::hook(2, write);
    let x = h.clear_volatile_subkeys();
    sa::unhook(5); sa::unhook(2);
    if x.is_err() { return }
    let (_, n) = sa::gget::<(usize, usize)>(8);
    if r >= n { return }
    sa::check(sa::gget::<bool>(10), "every leaf below an index root is read");
}
