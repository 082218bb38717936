//! Handle equality identifies the on-disk item.
use crate::{sa, spec::*};
use nt_hive::*;
fn k_at(b: B, k: &K) -> Option<usize> { match k.name() { Ok(n) => Some(addr(b, name_bytes(&n).1)), Err(_) => None } }
fn v_at(b: B, v: &Vl) -> Option<usize> { match v.name() { Ok(n) => Some(addr(b, name_bytes(&n).1)), Err(_) => None } }
macro_rules! same { ($b:ident, $at:ident, $x:expr, $y:expr) => {
    let (x, y) = ($x, $y);
    let (Some(p), Some(q)) = ($at($b, &x), $at($b, &y)) else { return };
    if p == q { sa::check(x == y, "handles of one cell are equal"); sa::check(!(x != y), "handles of one cell are not different"); }
    else { sa::check(!(x == y), "handles of different cells are not equal"); sa::check(x != y, "handles of different cells are different"); }
} }
pub fn subkeys() {
    key!(b, h, n, c, l);
    let Some(Ok(mut i)) = n.subkeys() else { return };
    while sa::any() { i.next(); }
    let mut j = i.clone();
    let Some(Ok(x)) = i.next() else { return };
    while sa::any() { j.next(); }
    let Some(Ok(y)) = j.next() else { return };
    same!(b, k_at, x, y);
}
pub fn root_and_subkey() {
    key!(b, h, n, c, l);
    let Some(Ok(mut i)) = n.subkeys() else { return };
    while sa::any() { i.next(); }
    let Some(Ok(x)) = i.next() else { return };
    same!(b, k_at, x, n);
}
pub fn found_and_listed() {
    sa::names_uf();
    sa::coarse();
    key!(b, h, n, c, l);
    if leaf(b, u32le(b, c + 28)).is_none() { return }
    let t = sa::text();
    let Some(Ok(x)) = n.subkey(t) else { return };
    let Some(Ok(mut i)) = n.subkeys() else { return };
    while sa::any() { i.next(); }
    let Some(Ok(y)) = i.next() else { return };
    same!(b, k_at, x, y);
}
pub fn found_in_index_root() {
    sa::names_uf();
    sa::coarse();
    key!(b, h, n, c, l);
    if index_root(b, u32le(b, c + 28)).is_none() { return }
    let t = sa::text();
    let Some(Ok(x)) = n.subkey(t) else { return };
    same!(b, k_at, x, n);
}
pub fn values() {
    key!(b, h, n, c, l);
    let Some(Ok(mut i)) = n.values() else { return };
    while sa::any() { i.next(); }
    let mut j = i.clone();
    let Some(Ok(x)) = i.next() else { return };
    while sa::any() { j.next(); }
    let Some(Ok(y)) = j.next() else { return };
    same!(b, v_at, x, y);
}
pub fn found_and_listed_values() {
    sa::names_uf();
    key!(b, h, n, c, l);
    let t = sa::text();
    let Some(Ok(x)) = n.value(t) else { return };
    let Some(Ok(mut i)) = n.values() else { return };
    while sa::any() { i.next(); }
    let Some(Ok(y)) = i.next() else { return };
    same!(b, v_at, x, y);
}
pub fn other_hive() {
    key!(b, h, n, c, l);
    let Ok(g) = Hive::without_validation(b) else { return };
    let Ok(m) = g.root_key_node() else { return };
    sa::check(!(n == m) && n != m, "keys of different hives are not equal");
    let Some(Ok(mut i)) = n.values() else { return };
    let Some(Ok(mut j)) = m.values() else { return };
    let (Some(Ok(x)), Some(Ok(y))) = (i.next(), j.next()) else { return };
    sa::check(!(x == y) && x != y, "values of different hives are not equal");
}
pub fn copies() {
    val!(b, h, v, c, l);
    let w = v.clone();
    sa::check(v == w && !(v != w), "a copy of a value handle is equal to it");
    let (Ok(x), Ok(y)) = (h.root_key_node(), h.root_key_node()) else { return };
    let z = x.clone();
    sa::check(x == y && x == z && y == z && !(x != y), "handles of one key are equal");
}
