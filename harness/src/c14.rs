//! size_hint, len, count, nth and last agree with stepping; iterators are fused.
use crate::{sa, spec::*};
use nt_hive::*;
fn same_name(b: B, x: Result<NtHiveNameString>, y: Result<NtHiveNameString>) -> bool {
    match (x, y) { (Ok(x), Ok(y)) => { let ((_, x), (_, y)) = (name_bytes(&x), name_bytes(&y)); addr(b, x) == addr(b, y) } (Err(_), Err(_)) => true, _ => false }
}
/// the item as its name shows it: one whose name cannot be read is only known to be that
fn same_v(b: B, x: &Option<Result<Vl>>, y: &Option<Result<Vl>>) -> bool { match (x, y) { (None, None) | (Some(Err(_)), Some(Err(_))) => true, (Some(Ok(x)), Some(Ok(y))) => same_name(b, x.name(), y.name()), _ => false } }
fn same_k(b: B, x: &Option<Result<K>>, y: &Option<Result<K>>) -> bool { match (x, y) { (None, None) | (Some(Err(_)), Some(Err(_))) => true, (Some(Ok(x)), Some(Ok(y))) => same_name(b, x.name(), y.name()), _ => false } }
fn same_s(b: B, x: &Option<Result<&[u8]>>, y: &Option<Result<&[u8]>>) -> bool { match (x, y) { (None, None) | (Some(Err(_)), Some(Err(_))) => true, (Some(Ok(x)), Some(Ok(y))) => addr(b, x) == addr(b, y) && x.len() == y.len(), _ => false } }

macro_rules! values { ($b:ident, $it:ident) => { key!($b, h, n, c, l); let Some(Ok(mut $it)) = n.values() else { return }; while sa::any() { $it.next(); } } }
macro_rules! leaf { ($b:ident, $it:ident) => {
    key!($b, h, n, c, l);
    if crate::spec::leaf($b, u32le($b, c + 28)).is_none() { return }
    let Some(Ok(mut $it)) = n.subkeys() else { return };
    while sa::any() { $it.next(); }
} }
macro_rules! segs { ($b:ident, $it:ident) => {
    val!($b, h, v, c, l);
    let Stored::Segments(..) = stored($b, c) else { return };
    let Ok(KeyValueData::Big(mut $it)) = v.data() else { return };
    while sa::any() { $it.next(); }
} }
macro_rules! nth { ($b:ident, $it:ident, $same:ident) => {
    let n: usize = sa::any();
    let mut a = $it.clone();
    let x = a.nth(n);
    let mut i = 0;
    let mut done = if $it.size_hint().0 == 0 { true } else { false };
    // `done` only tells the analysis apart which states are at the end of the list
    let y = loop { let y = $it.next(); if i == n || y.is_none() { break y } if done { break y } i += 1; done = if $it.size_hint().0 == 0 { true } else { false }; };
    sa::check($same($b, &x, &y), "nth gives the item that stepping gives");
    let (p, q) = (a.next(), $it.next());
    sa::check($same($b, &p, &q), "nth leaves the iterator where stepping leaves it");
    if x.is_none() { sa::check(p.is_none(), "the iterator stays at its end after nth"); }
} }
macro_rules! count { ($it:ident, $len:expr) => {
    let (lo, hi) = $it.size_hint();
    let len = $len;
    let c = $it.clone().count();
    let mut n = 0;
    while $it.next().is_some() { n += 1; }
    sa::check(lo == n && hi == Some(n), "size_hint is exact");
    sa::check(len == n, "len is the number of items left");
    sa::check(c == n, "count is the number of items left");
    sa::check($it.next().is_none(), "the iterator is fused");
} }
// count and nth agree with stepping (the other roots), so the last item is the nth one for one less than the count
macro_rules! last { ($b:ident, $it:ident, $same:ident) => {
    let x = $it.clone().last();
    let n = $it.size_hint().0;
    let y = if n == 0 { None } else { $it.nth(n - 1) };
    sa::check($same($b, &x, &y), "last gives the last item");
} }
pub fn values_nth() { values!(b, it); nth!(b, it, same_v); }
pub fn values_count() { values!(b, it); count!(it, it.len()); }
pub fn values_last() { values!(b, it); last!(b, it, same_v); }
pub fn leaf_nth() { leaf!(b, it); nth!(b, it, same_k); }
pub fn leaf_count() { leaf!(b, it); count!(it, match &it { SubKeyNodes::Leaf(i) => i.len(), _ => it.size_hint().0 }); }
pub fn leaf_last() { leaf!(b, it); last!(b, it, same_k); }
pub fn leaf_own() {
    leaf!(b, outer);
    let SubKeyNodes::Leaf(it) = outer else { sa::check(false, "a leaf is iterated as a leaf"); return };
    if sa::any() { let mut it = it; nth!(b, it, same_k); } else if sa::any() { let mut it = it; last!(b, it, same_k); } else { let mut it = it; count!(it, it.len()); }
}
pub fn segments_nth() { segs!(b, it); nth!(b, it, same_s); }
pub fn segments_count() { segs!(b, it); count!(it, it.len()); }
pub fn segments_last() { segs!(b, it); last!(b, it, same_s); }

// Index roots: every shortcut is judged by the calls of next() it makes. Slots: 0 calls, 1 the last result, 2 the one before.
type Seen<'h> = Option<core::result::Result<K<'h>, ()>>;
fn seen<'h>(r: &Option<Result<K<'h>>>) -> Seen<'h> { match r { None => None, Some(Err(_)) => Some(Err(())), Some(Ok(k)) => Some(Ok(k.clone())) } }
fn same_seen(x: &Seen, y: &Seen) -> bool { match (x, y) { (None, None) | (Some(Err(_)), Some(Err(_))) => true, (Some(Ok(x)), Some(Ok(y))) => sa::ident(x) == sa::ident(y), _ => false } }
fn note(r: &Option<Result<K>>) {
    sa::gset(1, seen(r)); sa::gset(0, sa::gget::<usize>(0) + 1);
}
fn note2(r: &Option<Result<K>>) { sa::gset(2, sa::gget::<Seen>(1)); sa::gset(1, seen(r)); }
fn note0(r: &Option<Result<K>>) { sa::gset(1, r.is_none()); sa::gset(0, sa::gget::<usize>(0) + 1); }
macro_rules! root { ($b:ident, $it:ident, $note:ident) => {
    sa::coarse();
    key!($b, h, n, c, l);
    if crate::spec::index_root($b, u32le($b, c + 28)).is_none() { return }
    let Some(Ok(mut $it)) = n.subkeys() else { return };
    while sa::any() { $it.next(); }
    sa::gset(0, 0usize); sa::gset::<Seen>(1, None); sa::gset::<Seen>(2, None);
    sa::after("<nt_hive::IndexRootKeyNodes<'h, B> as std::iter::Iterator>::next", $note);
} }
fn calls() -> usize { sa::gget(0) }
fn result<'h>() -> Seen<'h> { sa::gget(1) }
fn before<'h>() -> Seen<'h> { sa::gget(2) }
pub fn root_nth() {
    root!(b, it, note);
    let n: usize = sa::any();
    let x = it.nth(n);
    sa::check(same_seen(&seen(&x), &result()), "nth gives an item that stepping gives");
    let k = calls();
    sa::check(k > 0, "nth steps");
    if k > 0 { sa::check(if x.is_none() { k - 1 <= n } else { k - 1 == n }, "nth steps over n items"); }
    if x.is_none() { sa::check(it.next().is_none(), "the iterator stays at its end after nth"); }
}
pub fn root_count() {
    root!(b, it, note0);
    let (lo, hi) = it.size_hint();
    let c = it.count();
    sa::check(sa::gget::<bool>(1) && calls() == c + 1, "count is the number of items left");
    sa::check(lo <= c && hi.map_or(true, |hi| c <= hi), "size_hint bounds the number of items left");
}
pub fn root_last() {
    root!(b, it, note2);
    let x = it.last();
    sa::check(result().is_none(), "last looks at all items");
    sa::check(same_seen(&seen(&x), &before()), "last gives the last item");
}
pub fn root_fused() {
    root!(b, it, note0);
    if it.next().is_none() { sa::check(it.next().is_none(), "the iterator is fused"); }
}
