//! Subkey lookup probes only logarithmically many children.
use crate::{c11::key_name, sa, spec::*};
use nt_hive::*;
// ghost: 0 the hive, 1 the leaf at hand (first entry, entry size, count), 2 offset of the leaf entry at hand (0: none), 3 what is left of the leaf (first offset, end), 4 the name asked for,
// 5 the index root (first entry, count), 6 offset of the root entry at hand (0: none), 7 what is left of the index root
/// entry `o` of size `e` leaves at most half of the entries on either side
fn balanced(o: usize, e: usize, lo: usize, hi: usize) -> bool { o >= lo && o + e <= hi && 2 * (o - lo) <= hi - lo && 2 * (hi - o - e) <= hi - lo }
fn root_load(b: B, o: usize) {
    if sa::known(o == sa::gget::<usize>(6)) { return }
    let (lo, hi) = sa::gget::<(usize, usize)>(7);
    sa::check(o >= lo, "an index root entry already ruled out (before) is not probed");
    sa::check(o + 4 <= hi, "an index root entry already ruled out (after) is not probed");
    sa::check(2 * o <= hi + lo, "a probe of the index root leaves at most half of it before");
    sa::check(2 * (o + 4) >= hi + lo, "a probe of the index root leaves at most half of it after");
    sa::gset(6, o);
    sa::gset(2, 0usize);
    let Some((f, e, k)) = root_leaf(b, u32le(b, o)) else { sa::assume(false); return };
    sa::gset(1, (f, e, k));
    sa::gset(3, (f, f + e * k));
}
fn load(q: *const u8, n: usize) {
    let b = sa::gget::<B>(0);
    let Some(o) = sa::off_in(q, b) else { return };
    if !sa::known(n >= 4) || !sa::known(n <= 8) { return }
    let (first, roots) = sa::gget::<(usize, usize)>(5);
    if sa::known(roots > 0) && sa::known(o >= first) && sa::known(o < first + 4 * roots) { return root_load(b, o) }
    let (f, e, k) = sa::gget::<(usize, usize, usize)>(1);
    if !sa::known(o >= f) || !sa::known(o < f + e * k) || sa::known(o == sa::gget::<usize>(2)) { return }
    sa::gset(2, o);
    // the first and the last entry of a leaf decide where to go on in the index root
    let root = sa::gget::<usize>(6) != 0;
    let (first, last) = (root && sa::known(o == f), root && sa::known(o + e == f + e * k));
    sa::gset(8, first);
    sa::gset(9, last);
    if first || last { return }
    let (lo, hi) = sa::gget::<(usize, usize)>(3);
    sa::check(o >= lo, "a leaf entry already ruled out (before) is not probed");
    sa::check(o + e <= hi, "a leaf entry already ruled out (after) is not probed");
    sa::check(2 * o <= hi + lo, "a probe of a leaf leaves at most half of it before");
    sa::check(2 * (o + e) >= hi + lo, "a probe of a leaf leaves at most half of it after");
}
fn cmp<X, Y>(_: X, _: Y, s: i64) {
    let b = sa::gget::<B>(0);
    let o = sa::gget::<usize>(2);
    if o == 0 { return }
    let Some(n) = key_name(b, u32le(b, o)) else { return };
    let s = sa::namecmp(n, sa::gget::<&'static str>(4));
    let (first, last) = (sa::gget::<bool>(8), sa::gget::<bool>(9));
    if first || last {
        let r = sa::gget::<usize>(6);
        let (lo, hi) = sa::gget::<(usize, usize)>(7);
        if first && s > 0 { sa::gset(7, (lo, r)); } else if last && s < 0 { sa::gset(7, (r + 4, hi)); }
        return
    }
    let e = sa::gget::<(usize, usize, usize)>(1).1;
    let (lo, hi) = sa::gget::<(usize, usize)>(3);
    if s < 0 { sa::gset(3, (o + e, hi)); } else if s > 0 { sa::gset(3, (lo, o)); }
}
pub fn leaf_probes() {
    sa::names_uf();
    sa::coarse();
    sa::join(32);
    key!(b, h, n, c, l);
    let Some((f, e, k)) = leaf(b, u32le(b, c + 28)) else { return };
    let t = sa::text();
    sa::gset(0, b); sa::gset(1, (f, e, k)); sa::gset(2, 0usize); sa::gset(3, (f, f + e * k)); sa::gset(4, t); sa::gset(5, (0usize, 0usize)); sa::gset(6, 0usize); sa::gset(8, false); sa::gset(9, false);
    sa::hook(5, load);
    sa::hook(1, cmp::<NtHiveNameString<'static>, &'static str>);
    let r = n.subkey(t);
    sa::unhook(5); sa::unhook(1);
}
pub fn index_root_probes() {
    sa::names_uf();
    sa::coarse();
    sa::join(32);
    key!(b, h, n, c, l);
    let Some((f, k)) = index_root(b, u32le(b, c + 28)) else { return };
    let t = sa::text();
    sa::gset(0, b); sa::gset(1, (0usize, 4usize, 0usize)); sa::gset(2, 0usize); sa::gset(3, (0usize, 0usize)); sa::gset(4, t); sa::gset(5, (f, k)); sa::gset(6, 0usize); sa::gset(7, (f, f + 4 * k)); sa::gset(8, false); sa::gset(9, false);
    sa::hook(5, load);
    sa::hook(1, cmp::<NtHiveNameString<'static>, &'static str>);
    let r = n.subkey(t);
    sa::unhook(5); sa::unhook(1);
}
