//! The upper-case mapping: names of one UTF-16 unit compare exactly as the simple Unicode upper-case mappings of their units.
use crate::{c15::{upper, Side, L, S, W}, sa};
use core::cmp::Ordering::{self, *};
use nt_hive::NtHiveNameString::*;
fn order<X: Side, Y: Side>(a: X, b: Y) -> Ordering {
    sa::assume(a.n() == 1); sa::assume(b.n() == 1);
    let (x, y) = (upper(a.unit(0)), upper(b.unit(0)));
    if x < y { Less } else if x == y { Equal } else { Greater }
}
fn w() -> W { let b = sa::bytes(); sa::assume(b.len() == 2); W(b) }
const M: &str = "units compare by their simple upper-case mapping";
pub fn cmp_ww() { let (a, b) = (w(), w()); let o = order(a, b); sa::check(Utf16LE(a.0).cmp(&Utf16LE(b.0)) == o, M); }
pub fn cmp_lw() { let (a, b) = (L(sa::bytes()), w()); let o = order(a, b); sa::check(Latin1(a.0).cmp(&Utf16LE(b.0)) == o, M); }
pub fn cmp_wl() { let (a, b) = (w(), L(sa::bytes())); let o = order(a, b); sa::check(Utf16LE(a.0).cmp(&Latin1(b.0)) == o, M); }
pub fn cmp_ll() { let (a, b) = (L(sa::bytes()), L(sa::bytes())); let o = order(a, b); sa::check(Latin1(a.0).cmp(&Latin1(b.0)) == o, M); }
pub fn eq_ww() { let (a, b) = (w(), w()); let o = order(a, b); sa::check((Utf16LE(a.0) == Utf16LE(b.0)) == (o == Equal), M); }
pub fn eq_ws() { let (a, b) = (w(), S(sa::text())); let o = order(a, b); sa::check((Utf16LE(a.0) == *b.0) == (o == Equal), M); }
pub fn eq_sw() { let (a, b) = (S(sa::text()), w()); let o = order(a, b); sa::check((*a.0 == Utf16LE(b.0)) == (o == Equal), M); }
pub fn cmp_ls() { let (a, b) = (L(sa::bytes()), S(sa::text())); let o = order(a, b); sa::check(Latin1(a.0).partial_cmp(b.0) == Some(o), M); }
