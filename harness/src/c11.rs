//! subkey() finds a key if and only if the list contains it.
use crate::{sa, spec::*};
use nt_hive::*;
/// the name of the key whose cell is at a data offset, if it can be read
pub fn key_name(b: B, off: u32) -> Option<NtHiveNameString<'static>> {
    let (c, l) = nk(b, off)?;
    let n = u16le(b, c + 72) as usize;
    if n > l - 76 { return None }
    Some(if u16le(b, c + 2) & 0x20 != 0 { NtHiveNameString::Latin1(&b[c + 76..c + 76 + n]) } else { NtHiveNameString::Utf16LE(&b[c + 76..c + 76 + n]) })
}
// ghost: 0 the hive, 1 the leaf at hand (first entry, entry size, count), 2 offset of the leaf entry at hand (0: none), 3 offset of the entry p, 4 the name asked for,
// 5 the index root (first entry, count), 6 is the leaf at hand before (-1), at (0), after (1) the leaf of p, 7 offset of the root entry of p
fn root_load(b: B, o: usize) {
    let p = sa::gget::<usize>(7);
    sa::gset(2, 0usize);
    let side = if o < p { -1 } else if o > p { 1 } else { 0i64 };
    sa::gset(6, side);
    // an unreadable leaf is an error (C20)
    let Some((f, e, k)) = root_leaf(b, u32le(b, o)) else { sa::assume(false); return };
    sa::gset(1, (f, e, k));
    if side == 0 {
        let q = sa::gget::<usize>(9);
        sa::assume(q < k);
        sa::gset(3, f + e * q);
    }
}
fn load(q: *const u8, n: usize) {
    let b = sa::gget::<B>(0);
    let Some(o) = sa::off_in(q, b) else { return };
    if !sa::known(n >= 4) || !sa::known(n <= 8) { return }
    let (first, roots) = sa::gget::<(usize, usize)>(5);
    if roots > 0 && sa::known(o >= first) && sa::known(o < first + 4 * roots) { return root_load(b, o) }
    let (f, e, k) = sa::gget::<(usize, usize, usize)>(1);
    if sa::known(o >= f) && sa::known(o < f + e * k) {
        let p = sa::gget::<usize>(3);
        let side = sa::gget::<i64>(6);
        sa::gset(2, o);
        sa::gset(8, if side != 0 { side } else if o < p { -1 } else if o > p { 1 } else { 0i64 });
    }
}
/// the list is sorted: its keys before p do not come after the name p has
fn cmp<X, Y>(_: X, _: Y, s: i64) {
    let b = sa::gget::<B>(0);
    let o = sa::gget::<usize>(2);
    if o == 0 { return }
    let t = sa::gget::<&'static str>(4);
    let side = sa::gget::<i64>(8);
    let Some(n) = key_name(b, u32le(b, o)) else { return };
    let s = sa::namecmp(n, t);
    if side < 0 { sa::assume(s <= 0); } else if side > 0 { sa::assume(s >= 0); } else { sa::assume(s == 0); }
}
pub fn leaf_found() {
    sa::names_uf();
    sa::coarse();
    sa::join(32);
    key!(b, h, n, c, l);
    if u32le(b, c + 28) == NONE { return }
    let Some((first, e, k)) = leaf(b, u32le(b, c + 28)) else { return };
    let t = sa::text();
    let p: usize = sa::any();
    if p >= k { return }
    sa::track(p);
    sa::gset(0, b); sa::gset(1, (first, e, k)); sa::gset(2, 0usize); sa::gset(3, first + e * p); sa::gset(4, t); sa::gset(5, (0usize, 0usize)); sa::gset(6, 0i64); sa::gset(8, 0i64);
    sa::hook(5, load);
    sa::hook(1, cmp::<NtHiveNameString<'static>, &'static str>);
    let r = n.subkey(t);
    sa::unhook(5); sa::unhook(1);
    sa::check(r.is_some(), "a key in a sorted leaf is found");
}
pub fn no_list() {
    key!(b, h, n, c, l);
    if u32le(b, c + 28) == NONE { sa::check(n.subkey(sa::text()).is_none(), "a key without subkeys has no subkey"); }
}
pub fn unreadable_list() {
    sa::names_uf();
    key!(b, h, n, c, l);
    let off = u32le(b, c + 28);
    if off == NONE || leaf(b, off).is_some() || index_root(b, off).is_some() { return }
    sa::check(match n.subkey(sa::text()) { Some(Err(_)) => true, _ => false }, "an unreadable subkeys list is an error");
}
pub fn found_has_the_name() {
    sa::names_uf();
    sa::coarse();
    sa::join(32);
    key!(b, h, n, c, l);
    let t = sa::text();
    let Some(Ok(x)) = n.subkey(t) else { return };
    let Ok(name) = x.name() else { sa::check(false, "the key found has a readable name"); return };
    sa::check(sa::namecmp(name, t) == 0, "the key found has the name asked for");
}
pub fn index_root_found() {
    sa::names_uf();
    sa::coarse();
    sa::join(32);
    key!(b, h, n, c, l);
    if u32le(b, c + 28) == NONE { return }
    let Some((first, k)) = index_root(b, u32le(b, c + 28)) else { return };
    let t = sa::text();
    // the key is in leaf r, at place p
    let r: usize = sa::any();
    let p: usize = sa::any();
    if r >= k { return }
    sa::track(r); sa::track(p);
    sa::gset(0, b); sa::gset(1, (0usize, 4usize, 0usize)); sa::gset(2, 0usize); sa::gset(3, 0usize); sa::gset(4, t); sa::gset(5, (first, k)); sa::gset(6, 0i64); sa::gset(7, first + 4 * r); sa::gset(8, 0i64); sa::gset(9, p);
    sa::hook(5, load);
    sa::hook(1, cmp::<NtHiveNameString<'static>, &'static str>);
    let r = n.subkey(t);
    sa::unhook(5); sa::unhook(1);
    sa::check(r.is_some(), "a key in a sorted index root is found");
}
