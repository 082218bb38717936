//! Name comparison: lexicographic by upper-cased UTF-16 units, a proper prefix being smaller, in every form of comparison.
use crate::{sa, spec::*, upper::UPPER};
use core::cmp::Ordering::{self, *};
use nt_hive::NtHiveNameString::{self as N, *};
pub fn upper(u: u16) -> u16 { match UPPER.binary_search_by(|e| e.0.cmp(&u)) { Ok(i) => UPPER[i].1, Err(_) => u } }
pub trait Side: Copy { fn n(self) -> usize; fn unit(self, i: usize) -> u16; fn index(self, _: *const u8) -> Option<usize> { None } }
/// the bytes of a Latin1 name, of a UTF-16LE name, and a string
#[derive(Clone, Copy)] pub struct L(pub B);
#[derive(Clone, Copy)] pub struct W(pub B);
#[derive(Clone, Copy)] pub struct S(pub &'static str);
impl Side for L { fn n(self) -> usize { self.0.len() } fn unit(self, i: usize) -> u16 { self.0[i] as u16 } fn index(self, p: *const u8) -> Option<usize> { sa::off_in(p, self.0) } }
impl Side for W { fn n(self) -> usize { self.0.len() / 2 } fn unit(self, i: usize) -> u16 { u16le(self.0, 2 * i) } fn index(self, p: *const u8) -> Option<usize> { match sa::off_in(p, self.0) { Some(o) => Some(o / 2), None => None } } }
impl Side for S { fn n(self) -> usize { sa::u16len(self.0) } fn unit(self, i: usize) -> u16 { sa::unit(self.0, i) } }
fn min(a: usize, b: usize) -> usize { if a < b { a } else { b } }
/// what is known about the units at an index, given the position of the first difference
fn seen<X: Side, Y: Side>(i: usize) {
    let (a, b, d) = (sa::gget::<X>(0), sa::gget::<Y>(1), sa::gget::<usize>(2));
    if i < d { sa::assume(upper(a.unit(i)) == upper(b.unit(i))); }
    else if i == d && i < min(a.n(), b.n()) { if sa::gget::<bool>(3) { sa::assume(upper(a.unit(i)) < upper(b.unit(i))); } else { sa::assume(upper(a.unit(i)) > upper(b.unit(i))); } }
}
fn load<X: Side, Y: Side>(p: *const u8, _: usize) {
    if let Some(i) = sa::gget::<X>(0).index(p) { seen::<X, Y>(i) } else if let Some(i) = sa::gget::<Y>(1).index(p) { seen::<X, Y>(i) }
}
/// the order of two sides; every possible position of their first difference is considered
/// what the hook learns from a unit of a string being read
fn unit<X: Side, Y: Side>(i: usize) { seen::<X, Y>(i) }
pub fn order<X: Side, Y: Side>(a: X, b: Y) -> Ordering {
    let d: usize = sa::any();
    let m = min(a.n(), b.n());
    sa::assume(d <= m);
    sa::track(d);
    sa::gset(0, a); sa::gset(1, b); sa::gset(2, d);
    if d == m { sa::hook(5, load::<X, Y>); sa::hook(6, unit::<X, Y>); return a.n().cmp(&b.n()) }
    let (x, y) = (upper(a.unit(d)), upper(b.unit(d)));
    sa::assume(x != y);
    let less = x < y;
    sa::gset(3, less);
    sa::hook(5, load::<X, Y>); sa::hook(6, unit::<X, Y>);
    if less { Less } else { Greater }
}
macro_rules! side { (L) => { L(sa::bytes()) }; (W) => { W(sa::bytes()) }; (S) => { S(sa::text()) }; (R) => { S(sa::text()) } }
macro_rules! value { (L, $a:ident) => { &Latin1($a.0) }; (W, $a:ident) => { &Utf16LE($a.0) }; (S, $a:ident) => { $a.0 }; (R, $a:ident) => { &$a.0 } }
macro_rules! form { ($f:ident, $x:ident, $y:ident, |$a:ident, $b:ident| $e:expr, |$o:ident| $want:expr) => {
    pub fn $f() {
        let ($a, $b) = (side!($x), side!($y));
        let $o = order($a, $b);
        let (s, t) = (value!($x, $a), value!($y, $b));
        let ($a, $b) = (s, t);
        let (got, want) = ($e, $want);
        sa::check(got == want, "the names compare by their upper-cased units");
    }
} }
macro_rules! forms { ($($m:ident $x:ident $y:ident)*) => { $(pub mod $m {
    use super::*;
    form!(partial, $x, $y, |a, b| PartialOrd::partial_cmp(a, b), |o| Some(o));
    form!(eq, $x, $y, |a, b| PartialEq::eq(a, b), |o| o == Equal);
    form!(ne, $x, $y, |a, b| PartialEq::ne(a, b), |o| o != Equal);
    form!(lt, $x, $y, |a, b| PartialOrd::lt(a, b), |o| o == Less);
    form!(le, $x, $y, |a, b| PartialOrd::le(a, b), |o| o != Greater);
    form!(gt, $x, $y, |a, b| PartialOrd::gt(a, b), |o| o == Greater);
    form!(ge, $x, $y, |a, b| PartialOrd::ge(a, b), |o| o != Less);
})* } }
forms!(ll L L lw L W wl W L ww W W ls L S ws W S sl S L sw S W lr L R wr W R rl R L rw R W);
form!(cmp_ll, L, L, |a, b| Ord::cmp(a, b), |o| o);
form!(cmp_lw, L, W, |a, b| Ord::cmp(a, b), |o| o);
form!(cmp_wl, W, L, |a, b| Ord::cmp(a, b), |o| o);
form!(cmp_ww, W, W, |a, b| Ord::cmp(a, b), |o| o);
