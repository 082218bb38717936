//! Summaries of library functions (core, alloc, zerocopy) and of the contract intrinsics.
use crate::exec::*;
use crate::sym::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Forall { pub id: u32, pub name: String }

pub const GHOST: O = 10; // ghost slots 10..74
pub const HOOK: O = 80; // hooks 80..99
pub const H_PUSH: O = 80;
pub const H_CMP: O = 81;
pub const H_WRITE: O = 82;
pub const H_REC: O = 83;
pub const H_RECRES: O = 87;
pub const H_BYTES: O = 84;
pub const F_NAMES: O = 90; // names are compared by an uninterpreted order

thread_local! {
    static LOADS: RefCell<HashMap<(u32, u32, Lin), Vec<(i128, u8, En)>>> = RefCell::new(HashMap::new());
    static VERS: RefCell<u32> = RefCell::new(0);
}
pub fn reset() { WATCH.with(|w| w.set(false)); take_events(); LOADS.with(|l| l.borrow_mut().clear()); VERS.with(|v| *v.borrow_mut() = 0); }
pub fn cur_ver() -> u32 { VERS.with(|v| *v.borrow()) }
pub fn new_ver() -> u32 { VERS.with(|v| { *v.borrow_mut() += 1; *v.borrow() }) }

fn pow256(n: u32) -> i128 { if n >= 15 { 1i128 << 120 } else { 1i128 << (8 * n) } }

/// the unsigned integer stored in `w` bytes at `off`, tied to other accesses of the same bytes
/// a read of hive bytes or of a unit of a string
#[derive(Clone, PartialEq)]
pub enum Event { Load(u32, Lin, u8), Unit(Lin) }
thread_local! {
    pub static EVENTS: RefCell<Vec<Event>> = RefCell::new(vec![]);
    pub static WATCH: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
pub fn note(e: Event) { if WATCH.with(|w| w.get()) { EVENTS.with(|v| { let mut v = v.borrow_mut(); if !v.contains(&e) { v.push(e); } }); } }
pub fn pending() -> bool { WATCH.with(|w| w.get()) && EVENTS.with(|v| !v.borrow().is_empty()) }
pub fn take_events() -> Vec<Event> { EVENTS.with(|v| std::mem::take(&mut *v.borrow_mut())) }
pub const H_LOAD: O = HOOK + 5;
pub const H_UNIT: O = HOOK + 6;
/// tells the contract about what the library just read
pub fn fire(x: &mut X, st: St, evs: &[Event]) -> Vec<St> {
    let mut sts = vec![st];
    for e in evs {
        let mut next = vec![];
        for s in sts {
            match e {
                Event::Load(r, off, w) => next.extend(if s.objs.contains_key(&H_LOAD) { let t = Ty::new_ptr(Ty::unsigned_ty(UintTy::U8), Mutability::Not); hook(x, s, H_LOAD, vec![V::Ref(P::Reg(*r, off.clone())), num(*w as i128)], &[t, Ty::usize_ty()]) } else { vec![s] }),
                Event::Unit(p) => next.extend(if s.objs.contains_key(&H_UNIT) { hook(x, s, H_UNIT, vec![V::Int(p.clone())], &[Ty::usize_ty()]) } else { vec![s] }),
            }
        }
        sts = next;
    }
    sts
}
pub fn mem_load(r: u32, ver: u32, off: &Lin, w: u8, en: En) -> Lin { note(Event::Load(r, off.clone(), w)); mem_load0(r, ver, off, w, en) }
fn mem_load0(r: u32, ver: u32, off: &Lin, w: u8, en: En) -> Lin {
    if en == En::Native && w > 1 { return load(r, ver, off.clone(), w, En::Native); }
    let en = if w == 1 { En::Le } else { en };
    let k = off.k;
    let mut base = off.clone();
    base.k = 0;
    let key = (r, ver, base.clone());
    let known: Vec<(i128, u8, En)> = LOADS.with(|l| l.borrow().get(&key).cloned().unwrap_or_default());
    if known.contains(&(k, w, en)) || w > 8 { return load(r, ver, off.clone(), w, en); }
    // part of a wider access?
    for (k0, w0, e0) in &known {
        if *w0 > w && k >= *k0 && k + w as i128 <= k0 + *w0 as i128 {
            let l = load(r, ver, base.addk(*k0), *w0, *e0);
            let d = (k - k0) as u32;
            let sh = if *e0 == En::Be { *w0 as u32 - w as u32 - d } else { d };
            let x = crate::sym::rem(&crate::sym::div(&l, pow256(sh)), pow256(w as u32));
            if w == 1 || *e0 == en { return x; }
            // other byte order: reverse
            let mut v = Lin::c(0);
            for i in 0..w as u32 { let b = crate::sym::rem(&crate::sym::div(&x, pow256(i)), 256); v = v.axpy(pow256(w as u32 - 1 - i), &b); }
            return v;
        }
    }
    if w > 1 && known.iter().any(|(k0, w0, _)| *k0 < k + w as i128 && k < k0 + *w0 as i128) {
        let mut v = Lin::c(0);
        for i in 0..w as i128 {
            let b = mem_load0(r, ver, &off.addk(i), 1, En::Le);
            let p = if en == En::Be { w as i128 - 1 - i } else { i };
            v = v.axpy(pow256(p as u32), &b);
        }
        return v;
    }
    LOADS.with(|l| l.borrow_mut().entry(key).or_default().push((k, w, en)));
    load(r, ver, off.clone(), w, en)
}

pub fn byte_list(x: &X, st: &St, v: &V, n: usize) -> Option<Vec<Lin>> {
    let mut o = vec![];
    for i in 0..n { match x.field_of(st, v, &Pe::I(Lin::c(i as i128))) { V::Int(e) => o.push(st.norm(&e)), _ => return None } }
    Some(o)
}
/// integer from bytes; `le`: Some(true) little, Some(false) big, None native
pub fn from_bytes(x: &X, st: &St, v: &V, n: usize, le: Option<bool>) -> Option<Lin> {
    if let V::Bytes(r, off, _) = v {
        return Some(mem_load(*r, st.ver(*r), &st.norm(off), n as u8, match le { Some(true) => En::Le, Some(false) => En::Be, None => En::Native }));
    }
    let mut b = byte_list(x, st, v, n)?;
    if n == 1 { return Some(b[0].clone()); }
    if le == Some(false) { b.reverse(); }
    if b.iter().all(|e| e.is_c().is_some()) {
        if le.is_none() { return Some(app("ne", b, 0, pow256(n as u32) - 1)); }
        return Some(Lin::c(b.iter().enumerate().map(|(i, e)| e.is_c().unwrap() << (8 * i)).sum()));
    }
    // consecutive single byte loads form a wide load
    if le.is_some() {
        let ld: Vec<Option<(u32, u32, Lin)>> = b.iter().map(|e| if e.k == 0 && e.t.len() == 1 && e.t[0].1 == 1 { match def(e.t[0].0) { Def::Load { reg, ver, off, w: 1, .. } => Some((reg, ver, off)), _ => None } } else { None }).collect();
        if let Some((r, ver, o0)) = &ld[0] {
            for (d, en) in [(1i128, En::Le), (-1, En::Be)] {
                if ld.iter().enumerate().all(|(i, l)| matches!(l, Some((r2, v2, o)) if r2 == r && v2 == ver && *o == o0.addk(d * i as i128))) {
                    let start = if d == 1 { o0.clone() } else { o0.addk(-(n as i128 - 1)) };
                    return Some(mem_load(*r, *ver, &start, n as u8, en));
                }
            }
        }
    } else { return Some(app("ne", b, 0, pow256(n as u32) - 1)); }
    let mut s = Lin::c(0);
    for (i, e) in b.iter().enumerate() { s = s.axpy(pow256(i as u32), e); }
    Some(s)
}

/// a store into a byte region: the region gets a new version
pub fn region_write(x: &mut X, st: &mut St, r: u32, off: &Lin, val: &V, ty: Ty) {
    let n = size_of(ty).unwrap_or(0);
    if n == 0 { return; }
    let mut kind = Lin::c(-1);
    if let V::Int(e) = val { kind = st.norm(e); } else if n <= 8 {
        // a wrapper around bytes
        let mut w = val.clone();
        while let V::Agg(_, f) = &w { let nz: Vec<&V> = f.iter().filter(|v| !matches!(v, V::Agg(_, g) if g.is_empty())).collect(); if nz.len() == 1 && !matches!(nz[0], V::Int(_)) { let i = nz[0].clone(); w = i; } else { break } }
        if let Some(e) = from_bytes(x, st, &w, n, Some(true)) { kind = e; }
    }
    if let Some(V::Fn(h)) = st.objs.get(&H_WRITE).cloned() {
        let us = Ty::usize_ty();
        let args = vec![V::Int(Lin::c(r as i128)), V::Int(st.norm(off)), num(n as i128), V::Int(kind.clone())];
        let outs = x.call(st.clone(), h, args, &[us, us, us, Ty::unsigned_ty(UintTy::U64)], Ty::new_tuple(&[]));
        if outs.len() == 1 { *st = outs.into_iter().next().unwrap().0; }
        else if outs.is_empty() { st.st.kill(); return; }
        else { for (o, v) in outs[0].0.objs.range(GHOST..GHOST + 64) { if outs.iter().all(|s| s.0.objs.get(o) == Some(v)) { st.objs.insert(*o, v.clone()); } else { st.objs.insert(*o, V::Undef); } } }
    }
    let mut m = (*st.regver).clone();
    m.insert(r, new_ver());
    st.regver = Rc::new(m);
}

fn is_newtype(t: Ty) -> Option<(usize, Ty, usize)> {
    // the only non-zero-sized field
    if t.kind().is_enum() { return None; }
    if let TyKind::RigidTy(RigidTy::Pat(u, _)) = t.kind() { return Some((usize::MAX, u, 1)); }
    let f = field_tys(t, 0)?;
    let nz: Vec<usize> = (0..f.len()).filter(|i| size_of(f[*i]) != Some(0)).collect();
    if nz.len() == 1 { Some((nz[0], f[nz[0]], f.len())) } else { None }
}
pub fn transmute_outs(x: &X, st: &St, v: V, from: Ty, to: Ty) -> Outs {
    if let (Some(_), V::Int(e), TyKind::RigidTy(RigidTy::Adt(_, g))) = (int_ty(from), &v, to.kind()) {
        if format!("{to}").starts_with("std::option::Option<std::num::NonZero<") {
            if let Some(GenericArgKind::Type(inner)) = g.0.first() { let nz = transmute(x, st, v.clone(), from, *inner); return fork(x, st, &C::Ne(e.clone()), some(nz), none()); }
        }
    }
    vec![(st.clone(), transmute(x, st, v, from, to))]
}
pub fn transmute(x: &X, st: &St, v: V, from: Ty, to: Ty) -> V {
    if from == to { return v; }
    let (fi, ti) = (int_ty(from), int_ty(to));
    if fi.is_some() && ti.is_some() { return v; }
    if let (Some(_), Some(n)) = (elem_ty(from), array_len(from)) {
        if let Some((bits, signed)) = ti {
            if !signed && bits as u64 == 8 * n { if let Some(e) = from_bytes(x, st, &v, n as usize, None) { return V::Int(e); } }
            return top(to, &fresh("transm", -BIG, BIG));
        }
        if array_len(to).is_some() { if let V::Bytes(r, o, _) = v { return V::Bytes(r, o, to); } }
    }
    let isptr = |t: Ty| deref_ty(t).is_some() && !matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(..)));
    let isfn = |t: Ty| matches!(t.kind(), TyKind::RigidTy(RigidTy::FnPtr(_)));
    if isptr(from) && isptr(to) { return v; }
    if isfn(from) && (isptr(to) || isfn(to)) || isptr(from) && isfn(to) { return v; }
    if isptr(from) && ti.is_some() { if let V::Ref(p) = &v { return V::Int(x.addr(st, p)); } }
    if fi.is_some() && isptr(to) { if let V::Int(e) = &v { return V::Ref(P::Int(e.clone())); } }
    if let Some((i, t, _)) = is_newtype(from) {
        if i == usize::MAX { return transmute(x, st, v, t, to); }
        let w = x.field_of(st, &v, &Pe::F(i as u32));
        return transmute(x, st, w, t, to);
    }
    if let Some((i, t, n)) = is_newtype(to) {
        let w = transmute(x, st, v, from, t);
        if i == usize::MAX { return w; }
        let mut f = vec![unit(); n];
        f[i] = w;
        return agg(f);
    }
    if let V::Bytes(r, o, _) = v { return V::Bytes(r, o, to); }
    top(to, &fresh("transm", -BIG, BIG))
}

pub fn targs(inst: &Instance) -> Vec<Ty> { inst.args().0.iter().filter_map(|a| a.ty().copied()).collect() }
fn last_seg(n: &str) -> &str { 
    // last path segment, without generics
    let mut depth = 0i32; let b = n.as_bytes(); let mut i = b.len();
    while i > 1 { i -= 1; match b[i] { b'>' => if i > 0 && b[i - 1] != b'-' { depth += 1 }, b'<' => depth -= 1, b':' if depth == 0 && b[i - 1] == b':' => return &n[i + 1..], _ => {} } }
    n
}
pub fn ordering(st: &X, s: St, e: &Lin) -> Outs {
    let mut o = vec![];
    for t in st.assume(s.clone(), &C::Ge(e.neg().addk(-1))) { o.push((t, var(0, vec![]))); }
    for t in st.assume(s.clone(), &C::Eq(e.clone())) { o.push((t, var(1, vec![]))); }
    for t in st.assume(s, &C::Ge(e.addk(-1))) { o.push((t, var(2, vec![]))); }
    o
}
fn fat(v: &V) -> Option<(P, Lin)> { match v { V::Fat(p, m) => match &**m { V::Int(e) => Some((p.clone(), e.clone())), _ => None }, _ => None } }
fn mkfat(p: P, n: Lin) -> V { V::Fat(p, Rc::new(V::Int(n))) }

/// equality of two byte-like sequences of `n` elements (constant n): conjunction of element equalities
fn eq_elems(x: &X, st: &St, pa: &P, pb: &P, n: usize, et: Ty) -> Option<C> {
    if n > 600 { return None; }
    let mut c = C::B(true);
    for i in 0..n {
        let k = Lin::c(i as i128);
        let a = x.read(st, &elem_ptr(pa, &k, et, false), et);
        let b = x.read(st, &elem_ptr(pb, &k, et, false), et);
        let e = eq_val(x, st, &a, &b, et)?;
        c = mk_and(c, match x.decide(st, &e) { Some(b) => C::B(b), None => e });
        if c == C::B(false) { return Some(c); }
    }
    Some(c)
}
fn eq_val(x: &X, st: &St, a: &V, b: &V, t: Ty) -> Option<C> {
    match (a, b) {
        (V::Int(e), V::Int(f)) => Some(C::eq(e, f)),
        (V::Bool(C::B(p)), V::Bool(C::B(q))) => Some(C::B(p == q)),
        _ => {
            if let Some(n) = array_len(t) {
                let et = elem_ty(t)?;
                let mut c = C::B(true);
                for i in 0..n { let k = Pe::I(Lin::c(i as i128)); c = mk_and(c, eq_val(x, st, &x.field_of(st, a, &k), &x.field_of(st, b, &k), et)?); }
                return Some(c);
            }
            let fs = field_tys(t, 0)?;
            if t.kind().is_enum() { return None; }
            let mut c = C::B(true);
            for (i, ft) in fs.iter().enumerate() { if size_of(*ft) == Some(0) { continue; } c = mk_and(c, eq_val(x, st, &x.field_of(st, a, &Pe::F(i as u32)), &x.field_of(st, b, &Pe::F(i as u32)), *ft)?); }
            Some(c)
        }
    }
}
fn slice_eq(x: &mut X, st: &St, a: &V, b: &V, et: Ty) -> Outs {
    let (Some((pa, na)), Some((pb, nb))) = (fat(a), fat(b)) else { return vec![(st.clone(), V::Bool(C::Eq(fresh("unkb", 0, 1).addk(-1))))] };
    let (na, nb) = (st.norm(&na), st.norm(&nb));
    let mut out = vec![];
    for s in x.assume(st.clone(), &C::eq(&na, &nb).not()) { out.push((s, V::Bool(C::B(false)))); }
    for s in x.assume(st.clone(), &C::eq(&na, &nb)) {
        let n = s.norm(&na).is_c().or(s.norm(&nb).is_c());
        let c = match n {
            Some(n) => eq_elems(x, &s, &pa, &pb, n as usize, et),
            None => None,
        };
        let c = c.unwrap_or_else(|| if pa == pb { C::B(true) } else {
            let (x1, x2) = (x.addr(&s, &pa), x.addr(&s, &pb));
            C::Eq(app("memeq", vec![x1, x2, na.clone()], 0, 1).addk(-1))
        });
        out.push((s, V::Bool(c)));
    }
    out
}

fn index_kind(name: &str) -> Option<&'static str> {
    for (k, n) in [("<std::ops::Range<usize> as", "r"), ("<std::ops::RangeTo<usize> as", "to"), ("<std::ops::RangeFrom<usize> as", "from"), ("<std::ops::RangeFull as", "full"),
        ("<std::ops::RangeInclusive<usize> as", "ri"), ("<std::ops::RangeToInclusive<usize> as", "toi"), ("<usize as", "i"), ("<core::ops::index_range::IndexRange as", "r")] { if name.starts_with(k) { return Some(n); } }
    None
}
fn slice_index(x: &mut X, st: &St, kind: &str, m: &str, a: &[V], et: Ty) -> Option<Outs> {
    let (p, n) = fat(&a[1])?;
    let n = st.norm(&n);
    let f = |i: u32| -> Option<Lin> { match x.field_of(st, &a[0], &Pe::F(i)) { V::Int(e) => Some(st.norm(&e)), _ => None } };
    let checked = matches!(m, "index" | "index_mut");
    let get = matches!(m, "get" | "get_mut");
    if kind == "i" {
        let i = x.as_int(st, &a[0])?;
        let okc = mk_and(C::Ge(i.clone()), C::lt(&i, &n));
        let mut out = vec![];
        for s in x.assume(st.clone(), &okc.not()) { if checked { x.report(&s, "panic", "slice index out of range"); } else if get { out.push((s, none())); } else { x.report(&s, "ub", "unchecked index out of range"); } }
        for s in x.assume(st.clone(), &okc) { if checked { x.proved("slice index"); } let v = V::Ref(elem_ptr(&p, &i, et, false)); out.push((s, if get { some(v) } else { v })); }
        return Some(out);
    }
    let (lo, hi) = match kind {
        "r" => (f(0)?, f(1)?),
        "to" => (Lin::c(0), f(0)?),
        "from" => (f(0)?, n.clone()),
        "full" => (Lin::c(0), n.clone()),
        "ri" => (f(0)?, f(1)?.addk(1)),
        "toi" => (Lin::c(0), f(0)?.addk(1)),
        _ => return None,
    };
    let okc = mk_and(C::le(&lo, &hi), C::le(&hi, &n));
    let mut out = vec![];
    for s in x.assume(st.clone(), &okc.not()) { if checked { x.report(&s, "panic", "slice range out of bounds"); } else if get { out.push((s, none())); } else { x.report(&s, "ub", "unchecked range out of bounds"); } }
    for s in x.assume(st.clone(), &okc) { if checked { x.proved("slice range"); } let v = mkfat(elem_ptr(&p, &lo, et, false), hi.sub(&lo)); out.push((s, if get { some(v) } else { v })); }
    Some(out)
}

fn std_name(n: &str) -> String { n.replace("alloc::string::", "std::string::").replace("alloc::vec::", "std::vec::") }

fn hook(x: &mut X, st: St, h: O, args: Vec<V>, tys: &[Ty]) -> Vec<St> {
    match st.objs.get(&h).cloned() {
        Some(V::Fn(i)) => x.call(st, i, args, tys, Ty::new_tuple(&[])).into_iter().map(|o| o.0).collect(),
        _ => vec![st],
    }
}

fn name_cmp(x: &X, st: &St, a: &V, b: &V) -> Option<Lin> {
    // (symbolic identity, sign)
    let ident = |v: &V| -> Option<(Vec<Lin>, bool)> {
        let mut v = v.clone();
        for _ in 0..4 {
            match &v {
                V::Ref(p) => { let P::Obj(o, path) = p else { return None }; let mut w = st.obj(*o); for e in path { w = x.field_of(st, &w, e); } v = w; }
                V::Agg(n, f) => { let V::Fat(p, m) = f.get(0)? else { return None }; let V::Int(len) = &**m else { return None }; let (r, off) = match p { P::Reg(r, off) => (Lin::c(*r as i128), st.norm(off)), _ => (x.addr(st, p), Lin::c(0)) }; return Some((vec![Lin::c(*n as i128), r, off, st.norm(len)], true)); }
                V::Fat(p, m) => { let V::Int(len) = &**m else { return None }; let (r, off) = match p { P::Reg(r, off) => (Lin::c(*r as i128), st.norm(off)), _ => (x.addr(st, p), Lin::c(0)) }; return Some((vec![Lin::c(2), r, off, st.norm(len)], false)); }
                V::Top(_, id) => return Some((vec![Lin::c(3), id.clone(), Lin::c(0), Lin::c(0)], true)),
                _ => return None,
            }
        }
        None
    };
    let (ia, na) = ident(a)?;
    let (ib, _) = ident(b)?;
    let _ = na;
    if ia == ib { return Some(Lin::c(0)); }
    // canonical operand order
    let swap = ia > ib;
    let (l, r) = if swap { (ib, ia) } else { (ia, ib) };
    let mut args = l; args.extend(r);
    let e = app("namecmp", args, -1, 1);
    Some(if swap { e.neg() } else { e })
}

pub fn model(x: &mut X, st: &St, inst: Instance, name: &str, a: &[V], tys: &[Ty], dty: Ty) -> Option<Outs> {
    if name.starts_with("contracts::") {
        if let Some(f) = name.strip_prefix("contracts::sa::") { return sa_call(x, st, inst, f, a, tys, dty); }
        return None;
    }
    if matches!(dty.kind(), TyKind::RigidTy(RigidTy::Never)) {
        x.report(st, "panic", &format!("panic ({})", last_seg(name)));
        return Some(vec![]);
    }
    let one = |v: V| Some(vec![(st.clone(), v)]);
    let m = last_seg(name);
    let m = m.split("::<").next().unwrap_or(m);
    // the precompiled bodies may use a type of the same width as usize on the build machine instead
    if name.starts_with("core::num::<impl usize>::") && a.len() == 2 {
        let (kind, op) = m.split_once('_').unwrap_or(("", ""));
        let op = match op { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, _ => BinOp::Eq };
        if !matches!(op, BinOp::Eq) && matches!(kind, "checked" | "saturating" | "wrapping" | "overflowing") {
            let hi = bounds(ptrw(), false).1;
            let mut out = vec![];
            for (s, v) in x.binop(st.clone(), op, &a[0], &a[1], tys[0], true) {
                let V::Agg(_, f) = &v else { return None };
                let V::Bool(ov) = &f[1] else { return None };
                match kind {
                    "overflowing" => out.push((s, v.clone())),
                    "wrapping" => out.push((s, f[0].clone())),
                    _ => {
                        for s2 in x.assume(s.clone(), &ov.not()) { out.push((s2, if kind == "checked" { some(f[0].clone()) } else { f[0].clone() })); }
                        for s2 in x.assume(s, ov) { out.push((s2, if kind == "checked" { none() } else { num(if matches!(op, BinOp::Sub) { 0 } else { hi }) })); }
                    }
                }
            }
            return Some(out);
        }
    }
    if name.starts_with("nt_hive::") || name.starts_with("<nt_hive::") || name.starts_with("<str as std::cmp::Partial") || name.starts_with("<&str as std::cmp::Partial") || name.contains("impl std::cmp::") {
        if name.contains("NtHiveNameString") && st.objs.contains_key(&F_NAMES) && (name.contains(" as std::cmp::") || name.contains("impl std::cmp::")) && a.len() == 2 {
            let mut b = [a[0].clone(), a[1].clone()];
            for v in b.iter_mut() { 
                // &&str
                if let V::Ref(P::Obj(o, path)) = v { let mut w = st.obj(*o); for e in path.iter() { w = x.field_of(st, &w, e); } if matches!(w, V::Fat(..) | V::Ref(_)) { *v = w; } }
            }
            let e = name_cmp(x, st, &b[0], &b[1])?;
            let mut out = vec![];
            let res: Outs = match m {
                "cmp" => ordering(x, st.clone(), &e),
                "partial_cmp" => ordering(x, st.clone(), &e).into_iter().map(|(s, o)| (s, some(o))).collect(),
                "eq" => vec![(st.clone(), V::Bool(C::Eq(e.clone())))],
                "ne" => vec![(st.clone(), V::Bool(C::Ne(e.clone())))],
                "lt" => vec![(st.clone(), V::Bool(C::Ge(e.neg().addk(-1))))],
                "gt" => vec![(st.clone(), V::Bool(C::Ge(e.addk(-1))))],
                "le" => vec![(st.clone(), V::Bool(C::Ge(e.neg())))],
                "ge" => vec![(st.clone(), V::Bool(C::Ge(e.clone())))],
                _ => return None,
            };
            for (s, v) in res {
                for s2 in hook(x, s, H_CMP, vec![b[0].clone(), b[1].clone(), V::Int(e.clone())], &[tys[0], tys[1], Ty::signed_ty(IntTy::I64)]) { out.push((s2, v.clone())); }
            }
            return Some(out);
        }
        return None;
    }
    if name.starts_with("std::intrinsics::") || name.starts_with("core::intrinsics::") { return intrinsic(x, st, inst, m, a, tys, dty); }
    if name.contains("as std::slice::SliceIndex<[T]>>::") || name.contains("as core::slice::SliceIndex<[T]>>::") {
        let k = index_kind(name)?;
        let et = match tys[1].kind() { _ => elem_ty(deref_ty(tys[1])?)? };
        return slice_index(x, st, k, m, a, et);
    }
    if name.starts_with("core::slice::<impl [T]>::") && !name.contains("{closure") {
        let et = deref_ty(tys[0]).and_then(elem_ty)?;
        match m {
            "len" => { let (_, n) = fat(&a[0])?; return one(V::Int(n)); }
            "is_empty" => { let (_, n) = fat(&a[0])?; return one(V::Bool(C::Eq(st.norm(&n)))); }
            "as_ptr" | "as_mut_ptr" => { let (p, _) = fat(&a[0])?; return one(V::Ref(p)); }
            "binary_search_by" if table(x, st, &a[0]) => if let Some(r) = table_search(x, st, &a[0], &a[1], tys[1], et) { return Some(r); },
            "split_at" | "split_at_mut" | "split_at_checked" | "split_at_mut_checked" | "split_at_unchecked" | "split_at_mut_unchecked" => {
                let (p, n) = fat(&a[0])?;
                let i = x.as_int(st, &a[1])?;
                let n = st.norm(&n);
                let okc = C::le(&i, &n);
                let mut out = vec![];
                for s in x.assume(st.clone(), &okc.not()) { if m.ends_with("_checked") { out.push((s, none())); } else { x.report(&s, "panic", "split_at out of bounds"); } }
                for s in x.assume(st.clone(), &okc) {
                    if !m.ends_with("checked") { x.proved("split_at"); }
                    let v = agg(vec![mkfat(p.clone(), i.clone()), mkfat(elem_ptr(&p, &i, et, false), n.sub(&i))]);
                    out.push((s, if m.ends_with("_checked") { some(v) } else { v }));
                }
                return Some(out);
            }
            "swap" | "reverse" | "fill" | "copy_from_slice" | "clone_from_slice" | "copy_within" | "sort" | "sort_unstable" => return None,
            _ => {}
        }
    }
    if name.starts_with("core::str::<impl str>::") || name.starts_with("std::str::<impl str>::") { if let Some(r) = str_model(x, st, inst, m, a, tys, dty) { return Some(r); } }
    if name.contains("std::str::EncodeUtf16") || name.contains("core::str::EncodeUtf16") || name.contains("std::str::Split") || name.contains("core::str::iter::Split") || name.contains("std::str::Chars") { if let Some(r) = str_iter(x, st, name, m, a, tys, dty) { return Some(r); } }
    if name.starts_with("core::num::<impl ") {
        let bits_ty = dty;
        match m {
            "from_le_bytes" | "from_be_bytes" | "from_ne_bytes" => {
                let (bits, signed) = int_ty(bits_ty)?;
                let bits = if matches!(bits_ty.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)) | TyKind::RigidTy(RigidTy::Int(IntTy::Isize))) { 64 } else { bits };
                let e = from_bytes(x, st, &a[0], bits as usize / 8, match m { "from_le_bytes" => Some(true), "from_be_bytes" => Some(false), _ => None })?;
                if !signed { return one(V::Int(e)); }
                let (lo, hi) = bounds(bits, true);
                let _ = lo;
                let mut out = vec![];
                for s in x.assume(st.clone(), &C::le(&e, &Lin::c(hi))) { out.push((s, V::Int(e.clone()))); }
                for s in x.assume(st.clone(), &C::lt(&Lin::c(hi), &e)) { out.push((s, V::Int(e.addk(-(1i128 << bits))))); }
                return Some(out);
            }
            "unsigned_abs" => {
                let e = x.as_int(st, &a[0])?;
                let mut out = vec![];
                for s in x.assume(st.clone(), &C::Ge(e.clone())) { out.push((s, V::Int(e.clone()))); }
                for s in x.assume(st.clone(), &C::Ge(e.neg().addk(-1))) { out.push((s, V::Int(e.neg()))); }
                return Some(out);
            }
            "to_le_bytes" | "to_be_bytes" | "to_ne_bytes" => {
                let (bits, signed) = int_ty(tys[0])?;
                let n = (bits / 8) as usize;
                let e = x.as_int(st, &a[0])?;
                if m == "to_ne_bytes" && n > 1 { return one(agg((0..n).map(|i| V::Int(app("nebyte", vec![e.clone(), Lin::c(i as i128)], 0, 255))).collect())); }
                let mut out = vec![];
                let cases: Vec<(St, Lin)> = if signed { let mut v = vec![]; for s in x.assume(st.clone(), &C::Ge(e.clone())) { v.push((s, e.clone())); } for s in x.assume(st.clone(), &C::Ge(e.neg().addk(-1))) { v.push((s, e.addk(1i128 << bits))); } v } else { vec![(st.clone(), e)] };
                for (s, e) in cases {
                    let mut b: Vec<V> = (0..n).map(|i| V::Int(crate::sym::rem(&crate::sym::div(&e, pow256(i as u32)), 256))).collect();
                    if m == "to_be_bytes" { b.reverse(); }
                    out.push((s, agg(b)));
                }
                return Some(out);
            }
            _ => {}
        }
    }
    if name.contains("TryFrom<&") && m == "try_from" && name.contains("[T]> for") || name.contains("std::convert::TryFrom<&mut [T]> for") && m == "try_from" {
        // slice -> array or array reference
        let (p, n) = fat(&a[0])?;
        let et = deref_ty(tys[0]).and_then(elem_ty)?;
        let okty = match dty.kind() { TyKind::RigidTy(RigidTy::Adt(_, ga)) => *ga.0[0].ty()?, _ => return None };
        let errty = match dty.kind() { TyKind::RigidTy(RigidTy::Adt(_, ga)) => *ga.0[1].ty()?, _ => return None };
        let by_ref = deref_ty(okty).is_some();
        let k = array_len(if by_ref { deref_ty(okty)? } else { okty })? as i128;
        let mut out = vec![];
        for s in x.assume(st.clone(), &C::Eq(n.addk(-k))) {
            let v = if by_ref {
                match &p { P::Reg(..) => V::Ref(p.clone()), P::Obj(o, path) if matches!(path.last(), Some(Pe::I(l)) if l.is_c() == Some(0)) => V::Ref(P::Obj(*o, path[..path.len() - 1].to_vec())), _ => V::Undef }
            } else {
                match &p { P::Reg(r, off) if size_of(et) == Some(1) => V::Bytes(*r, s.norm(off), okty),
                    _ => agg((0..k).map(|i| x.read(&s, &elem_ptr(&p, &Lin::c(i), et, false), et)).collect()) }
            };
            out.push((s, ok(v)));
        }
        for s in x.assume(st.clone(), &C::Ne(n.addk(-k))) { out.push((s, err(top(errty, &fresh("e", -BIG, BIG))))); }
        return Some(out);
    }
    if name.starts_with("zerocopy::") || name.starts_with("<zerocopy::") || name.contains("zerocopy::FromBytes") { if let Some(r) = zerocopy(x, st, inst, name, m, a, tys, dty) { return Some(r); } }
    // slice and array equality
    if m == "eq" || m == "ne" || m == "equal" || m == "spec_eq" || m == "spec_ne" || m == "equal_same_length" {
        if a.len() == 2 {
            let (ta, tb) = (deref_ty(tys[0]), deref_ty(tys[1]));
            if let (Some(ta), Some(tb)) = (ta, tb) {
                if let (Some(ea), Some(eb)) = (elem_ty(ta), elem_ty(tb)) {
                    if ea == eb && int_ty(ea).is_some() && (name.starts_with("<") || name.starts_with("core::") || name.starts_with("std::")) {
                        let tofat = |v: &V, t: Ty| -> Option<V> { match v { V::Fat(..) => Some(v.clone()), V::Ref(p) => { let n = array_len(t)?; let mut p = p.clone(); if let P::Obj(_, path) = &mut p { path.push(Pe::I(Lin::c(0))); } Some(mkfat(p, Lin::c(n as i128))) } _ => None } };
                        if let (Some(u), Some(v)) = (tofat(&a[0], ta), tofat(&a[1], tb)) {
                            let r = slice_eq(x, st, &u, &v, ea);
                            let neg = m == "ne" || m == "spec_ne";
                            return Some(if neg { r.into_iter().map(|(s, v)| { let c = x.as_cond(&s, &v).not(); (s, V::Bool(c)) }).collect() } else { r });
                        }
                    }
                }
            }
        }
    }
    let sn = std_name(name);
    if sn.contains("std::string::String") || sn.contains("std::vec::Vec<") || sn.contains("std::vec::Vec::<") || sn.contains("std::slice::<impl [T]>::to_vec") || sn.contains("to_vec") || sn.contains("std::fmt") || sn.contains("core::fmt") || sn.contains("<char as std::fmt::Display>") { if let Some(r) = alloc_model(x, st, inst, &sn, m, a, tys, dty) { return Some(r); } }
    None
}

fn fork(x: &X, st: &St, c: &C, t: V, f: V) -> Outs {
    let mut o = vec![];
    for s in x.assume(st.clone(), c) { o.push((s, t.clone())); }
    for s in x.assume(st.clone(), &c.not()) { o.push((s, f.clone())); }
    o
}

fn intrinsic(x: &mut X, st: &St, inst: Instance, m: &str, a: &[V], tys: &[Ty], dty: Ty) -> Option<Outs> {
    let one = |v: V| Some(vec![(st.clone(), v)]);
    let t0 = targs(&inst).get(0).copied();
    match m {
        "raw_eq" => {
            let t = t0?;
            let (V::Ref(p), V::Ref(q)) = (&a[0], &a[1]) else { return None };
            let (u, v) = (x.read(st, p, t), x.read(st, q, t));
            let c = eq_val(x, st, &u, &v, t)?;
            let c = match x.decide(st, &c) { Some(b) => C::B(b), None => c };
            one(V::Bool(c))
        }
        "compare_bytes" => { let (V::Ref(p), V::Ref(q)) = (&a[0], &a[1]) else { return None }; let n = x.as_int(st, &a[2])?; let (l, h) = bounds(32, true); let (u, v) = (x.addr(st, p), x.addr(st, q)); if u == v { return one(num(0)); } one(V::Int(app("memcmp", vec![u, v, n], l, h))) }
        "bswap" => {
            let e = x.as_int(st, &a[0])?;
            let (bits, _) = int_ty(dty)?;
            let n = bits / 8;
            if e.k == 0 && e.t.len() == 1 && e.t[0].1 == 1 { if let Def::Load { reg, ver, off, w, en } = def(e.t[0].0) { if w as u32 == n { return match en { En::Le => one(V::Int(mem_load(reg, ver, &off, w, En::Be))), En::Be => one(V::Int(mem_load(reg, ver, &off, w, En::Le))), En::Native => one(V::Int(app("bswap", vec![e], 0, bounds(bits, false).1))) }; } } }
            let mut v = Lin::c(0);
            for i in 0..n { v = v.axpy(pow256(n - 1 - i), &crate::sym::rem(&crate::sym::div(&e, pow256(i)), 256)); }
            one(V::Int(v))
        }
        "saturating_add" | "saturating_sub" => {
            let (bits, signed) = int_ty(dty)?;
            let (lo, hi) = bounds(bits, signed);
            let (u, v) = (x.as_int(st, &a[0])?, x.as_int(st, &a[1])?);
            let e = if m == "saturating_add" { u.add(&v) } else { u.sub(&v) };
            let mut out = vec![];
            for s in x.assume(st.clone(), &C::lt(&e, &Lin::c(lo))) { out.push((s, num(lo))); }
            for s in x.assume(st.clone(), &C::lt(&Lin::c(hi), &e)) { out.push((s, num(hi))); }
            for s in x.assume(st.clone(), &mk_and(C::le(&Lin::c(lo), &e), C::le(&e, &Lin::c(hi)))) { out.push((s, V::Int(e.clone()))); }
            Some(out)
        }
        "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "bitreverse" => {
            let e = x.as_int(st, &a[0])?;
            let (bits, _) = int_ty(tys[0])?;
            if let Some(k) = e.is_c() { if k >= 0 { let r = match m { "ctpop" => k.count_ones(), "ctlz" | "ctlz_nonzero" => bits.saturating_sub(128 - k.leading_zeros()), "cttz" | "cttz_nonzero" => if k == 0 { bits } else { k.trailing_zeros() }, _ => return None }; return one(num(r as i128)); } }
            one(V::Int(app(m, vec![e], 0, bits as i128)))
        }
        "size_of" => one(num(size_of(t0?)? as i128)),
        "align_of" | "min_align_of" | "pref_align_of" => one(num(align_of(t0?)? as i128)),
        "needs_drop" | "ub_checks" | "is_val_statically_known" | "overflow_checks" | "contract_checks" => one(V::Bool(C::B(false))),
        "likely" | "unlikely" | "black_box" => one(a[0].clone()),
        "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => one(unit()),
        "select_unpredictable" => { let c = x.as_cond(st, &a[0]); Some(fork(x, st, &c, a[1].clone(), a[2].clone())) }
        "size_of_val" => { match &a[0] { V::Fat(_, n) => { if let V::Int(n) = &**n { let e = deref_ty(tys[0]).and_then(elem_ty).and_then(size_of)?; return one(V::Int(n.mul(e as i128))); } None } V::Ref(_) => one(num(deref_ty(tys[0]).and_then(size_of)? as i128)), _ => None } }
        "ptr_offset_from_unsigned" | "ptr_offset_from" => {
            let sz = size_of(t0?)? as i128;
            let (V::Ref(p), V::Ref(q)) = (&a[0], &a[1]) else { return None };
            match (p, q) {
                (P::Obj(o, u), P::Obj(o2, v)) if o == o2 && u.len() == v.len() && !u.is_empty() && u[..u.len() - 1] == v[..v.len() - 1] => { if let (Some(Pe::I(i)), Some(Pe::I(j))) = (u.last(), v.last()) { return one(V::Int(i.sub(j))); } None }
                _ => { let d = x.addr(st, p).sub(&x.addr(st, q)); one(V::Int(crate::sym::div(&d, sz.max(1)))) }
            }
        }
        "offset" | "arith_offset" => { let V::Ref(p) = &a[0] else { return None }; let n = x.as_int(st, &a[1])?; one(V::Ref(elem_ptr(p, &n, deref_ty(tys[0])?, false))) }
        "discriminant_value" => { let V::Ref(p) = &a[0] else { return None }; let t = deref_ty(tys[0])?; let v = x.read(st, p, t); Some(x.discriminant(st.clone(), p, v, t, dty).into_iter().map(|(s, e)| (s, V::Int(e))).collect()) }
        "const_eval_select" => {
            // (args, const_fn, runtime_fn)
            let ga = targs(&inst);
            let f = *ga.iter().rev().nth(1)?;
            let f = if let TyKind::RigidTy(RigidTy::FnDef(d, ar)) = ga.iter().rev().find_map(|t| if let TyKind::RigidTy(RigidTy::FnDef(..)) = t.kind() { Some(*t) } else { None }).unwrap_or(f).kind() { Instance::resolve(d, &ar).ok()? } else { return None };
            let rt = match tys[2].kind() { TyKind::RigidTy(RigidTy::FnDef(d, ar)) => Instance::resolve(d, &ar).ok()?, _ => f };
            let V::Agg(_, args) = &a[0] else { return None };
            let at = match tys[0].kind() { TyKind::RigidTy(RigidTy::Tuple(t)) => t, _ => return None };
            Some(x.call(st.clone(), rt, args.to_vec(), &at, dty))
        }
        "unchecked_shl" | "unchecked_shr" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "exact_div" | "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" | "unchecked_div" | "unchecked_rem" | "three_way_compare" => {
            let (op, ck) = match m { "unchecked_shl" => (BinOp::ShlUnchecked, false), "unchecked_shr" => (BinOp::ShrUnchecked, false), "unchecked_add" => (BinOp::AddUnchecked, false), "unchecked_sub" => (BinOp::SubUnchecked, false), "unchecked_mul" => (BinOp::MulUnchecked, false), "wrapping_add" => (BinOp::Add, false), "wrapping_sub" => (BinOp::Sub, false), "wrapping_mul" => (BinOp::Mul, false), "exact_div" | "unchecked_div" => (BinOp::Div, false), "unchecked_rem" => (BinOp::Rem, false), "add_with_overflow" => (BinOp::Add, true), "sub_with_overflow" => (BinOp::Sub, true), "three_way_compare" => (BinOp::Cmp, false), _ => (BinOp::Mul, true) };
            Some(x.binop(st.clone(), op, &a[0], &a[1], tys[0], ck))
        }
        "assume" => { let c = x.as_cond(st, &a[0]); Some(x.assume(st.clone(), &c).into_iter().map(|s| (s, unit())).collect()) }
        "transmute" | "transmute_unchecked" => Some(transmute_outs(x, st, a[0].clone(), tys[0], dty)),
        "read_via_copy" | "volatile_load" => { let V::Ref(p) = &a[0] else { return None }; let v = x.read(st, p, dty); one(v) }
        "write_via_move" => { let V::Ref(p) = &a[0] else { return None }; let mut s = st.clone(); x.write(&mut s, p, a[1].clone(), tys[1]); Some(vec![(s, unit())]) }
        "abort" => { x.report(st, "panic", "abort"); Some(vec![]) }
        "unreachable" => { x.report(st, "unreachable", "unreachable code reached"); Some(vec![]) }
        _ => None,
    }
}

fn zerocopy(x: &mut X, st: &St, inst: Instance, name: &str, m: &str, a: &[V], tys: &[Ty], dty: Ty) -> Option<Outs> {
    let one = |v: V| Some(vec![(st.clone(), v)]);
    if !name.contains("Ref<B, T>") { return None; }
    let ga = targs(&inst);
    let t = *ga.get(1)?;
    match m {
        "from_bytes" | "from_prefix" | "from_suffix" => {
            let (p, n) = fat(&a[0])?;
            let sz = size_of(t)? as i128;
            let al = align_of(t)?;
            let n = st.norm(&n);
            let errty = match dty.kind() { TyKind::RigidTy(RigidTy::Adt(_, g)) => *g.0[1].ty()?, _ => return None };
            let okc = if m == "from_bytes" { C::Eq(n.addk(-sz)) } else { C::Ge(n.addk(-sz)) };
            let mut out = vec![];
            for s in x.assume(st.clone(), &okc.not()) { out.push((s, err(top(errty, &fresh("casterr", -BIG, BIG))))); }
            for s in x.assume(st.clone(), &okc) {
                let u8t = Ty::unsigned_ty(UintTy::U8);
                if al > 1 {
                    let ad = x.addr(&s, &p);
                    let r = crate::sym::rem(&ad, al as i128);
                    for s2 in x.assume(s.clone(), &C::Ne(r.clone())) { out.push((s2, err(top(errty, &fresh("casterr", -BIG, BIG))))); }
                    for s2 in x.assume(s.clone(), &C::Eq(r)) { out.push((s2, ok(zref(m, &p, &n, sz, u8t)))); }
                    continue;
                }
                out.push((s, ok(zref(m, &p, &n, sz, u8t))));
            }
            Some(out)
        }
        "bytes" | "bytes_mut" => {
            let V::Ref(p) = &a[0] else { return None };
            let V::Agg(_, f) = x.read(st, p, deref_ty(tys[0])?) else { return None };
            one(f[0].clone())
        }
        "deref" | "deref_mut" => {
            let V::Ref(p) = &a[0] else { return None };
            let V::Agg(_, f) = x.read(st, p, deref_ty(tys[0])?) else { return None };
            let (q, _) = fat(&f[0])?;
            one(V::Ref(q))
        }
        "into_ref" | "into_mut" => { let V::Agg(_, f) = &a[0] else { return None }; let (q, _) = fat(&f[0])?; one(V::Ref(q)) }
        "read" => { let V::Ref(p) = &a[0] else { return None }; let V::Agg(_, f) = x.read(st, p, deref_ty(tys[0])?) else { return None }; let (q, _) = fat(&f[0])?; let v = x.read(st, &q, t); one(v) }
        "clone" => { let V::Ref(p) = &a[0] else { return None }; let v = x.read(st, p, deref_ty(tys[0])?); one(v) }
        _ => None,
    }
}
fn zref(m: &str, p: &P, n: &Lin, sz: i128, et: Ty) -> V {
    let rest = n.addk(-sz);
    match m {
        "from_bytes" => agg(vec![mkfat(p.clone(), Lin::c(sz)), unit()]),
        "from_prefix" => agg(vec![agg(vec![mkfat(p.clone(), Lin::c(sz)), unit()]), mkfat(elem_ptr(p, &Lin::c(sz), et, false), rest)]),
        _ => agg(vec![mkfat(p.clone(), rest.clone()), agg(vec![mkfat(elem_ptr(p, &rest, et, false), Lin::c(sz)), unit()])]),
    }
}

pub fn str_id(x: &X, st: &St, v: &V) -> Option<Vec<Lin>> {
    let (p, n) = fat(v)?;
    let n = st.norm(&n);
    Some(match &p { P::Reg(r, off) => vec![Lin::c(*r as i128), st.norm(off), n], p => {
        // constant strings by content
        if let Some(s) = x.const_str(st, v) { let mut o = vec![Lin::c(-7)]; o.extend(s.bytes().map(|b| Lin::c(b as i128))); return Some(o); }
        vec![Lin::c(-1), x.addr(st, p), n] } })
}
fn str_model(x: &mut X, st: &St, _inst: Instance, m: &str, a: &[V], tys: &[Ty], dty: Ty) -> Option<Outs> {
    let one = |v: V| Some(vec![(st.clone(), v)]);
    match m {
        "len" => { let (_, n) = fat(&a[0])?; one(V::Int(n)) }
        "is_empty" => { let (_, n) = fat(&a[0])?; one(V::Bool(C::Eq(st.norm(&n)))) }
        "as_bytes" | "as_bytes_mut" => one(a[0].clone()),
        "as_ptr" | "as_mut_ptr" => { let (p, _) = fat(&a[0])?; one(V::Ref(p)) }
        "encode_utf16" => one(agg(vec![a[0].clone(), num(0)])),
        "split" | "split_terminator" => {
            // pattern: a char, or a closure/fn decided on characters
            let pat = match &a[1] { V::Int(e) => e.clone(), V::Fat(..) => { let mut id = str_id(x, st, &a[1])?; if id.len() == 2 && id[0] == Lin::c(-7) { id.remove(1) } else { app("strpat", id, -BIG, BIG) } }
                _ => closure_pat(x, st, &a[1], tys[1])? };
            let _ = dty;
            one(agg(vec![a[0].clone(), V::Int(pat), num(0), V::Int(Lin::c(if m == "split" { 0 } else { 1 }))]))
        }
        _ => None,
    }
}
fn table(_x: &X, _st: &St, v: &V) -> bool { matches!(v, V::Fat(P::Obj(o, _), _) if is_const_obj(*o)) }
/// binary search for an arbitrary key in a constant table, if the comparison is monotone on it
fn table_search(x: &mut X, st: &St, sl: &V, f: &V, ft: Ty, et: Ty) -> Option<Outs> {
    if !table(x, st, sl) { return None; }
    let (p, n) = fat(sl)?;
    let TyKind::RigidTy(RigidTy::Closure(d, ga)) = ft.kind() else { return None };
    let c = Instance::resolve_closure(d, &ga, ClosureKind::FnMut).ok()?;
    let i = fresh("at", 0, n.is_c()?);
    let mut outs = vec![];
    for mut s in x.assume(st.clone(), &C::lt(&i, &n)) {
        let o = alloc_objs(1);
        s.objs.insert(o, f.clone());
        x.quiet += 1;
        let r = x.call(s, c, vec![V::Ref(P::Obj(o, vec![])), agg(vec![V::Ref(elem_ptr(&p, &i, et, false))])], &[], Ty::bool_ty());
        x.quiet -= 1;
        outs.extend(r);
    }
    // where the key is: below it every entry is less, above it every entry is greater, and only there it is equal
    let mut at: Vec<(Rc<str>, Lin)> = vec![];
    for (s, _) in &outs {
        for t in s.st.eq.iter().flat_map(|(k, e)| std::iter::once(*k).chain(e.t.iter().map(|t| t.0))).chain(s.st.ge.iter().flat_map(|e| e.t.iter().map(|t| t.0))) {
            if let Def::App(g, a) = def(t) { if g.starts_with("lbsel") { let c = (g.clone(), a[0].clone()); if !at.contains(&c) { at.push(c); } } }
        }
    }
    for (g, b) in at {
        let Some(tab) = sel_sorted(&g[2..]) else { continue };
        let mut st = st.clone();
        let (lb, ub) = bounds_in(&mut st, &g[2..], &tab, &b);
        for cut in [&lb, &ub] { if outs.iter().all(|(s, v)| match v { V::Agg(0, _) => s.st.prove_ge(&cut.sub(&i).addk(-1)), V::Agg(2, _) => s.st.prove_ge(&i.sub(cut)), _ => false }) { return Some(vec![(st, var(1, vec![V::Int(cut.clone())]))]); } }
        if outs.iter().all(|(s, v)| match v { V::Agg(0, _) => s.st.prove_ge(&lb.sub(&i).addk(-1)), V::Agg(1, _) => s.st.prove_eq(&lb.sub(&i)) && s.st.prove_ge(&ub.sub(&i).addk(-1)), V::Agg(2, _) => s.st.prove_ge(&i.sub(&ub)), _ => false }) {
            return Some(fork(x, &st, &C::Ge(ub.sub(&lb).addk(-1)), var(0, vec![V::Int(lb.clone())]), var(1, vec![V::Int(lb)])));
        }
    }
    if x.debug { eprintln!("TABLE search not understood"); for (s, v) in &outs { eprintln!("  {}", show_v(v)); for (t, e) in s.st.eq.iter() { eprintln!("     {} = {}", show_s(*t), show(e)); } for e in s.st.ge.iter() { if show(e).contains("at#") { eprintln!("     {} >= 0", show(e)); } } } }
    None
}
/// a closure |c| c == 'x' used as a pattern, as the character it accepts
fn closure_pat(x: &mut X, st: &St, v: &V, t: Ty) -> Option<Lin> {
    let TyKind::RigidTy(RigidTy::Closure(d, ga)) = t.kind() else { return None };
    let i = Instance::resolve_closure(d, &ga, ClosureKind::FnMut).ok()?;
    let c = fresh("patc", 0, 0x10ffff);
    let o = alloc_objs(1);
    let mut s = st.clone();
    s.objs.insert(o, v.clone());
    x.quiet += 1;
    let r = x.call(s, i, vec![V::Ref(P::Obj(o, vec![])), agg(vec![V::Int(c.clone())])], &[], Ty::bool_ty());
    x.quiet -= 1;
    // exactly one accepted character?
    let mut acc = None;
    for (s, v) in r { let k = x.as_cond(&s, &v); for s2 in x.assume(s, &k) { match s2.norm(&c).is_c() { Some(k) if acc.is_none() => acc = Some(k), _ => return None } } }
    acc.map(Lin::c)
}
fn str_iter(x: &mut X, st: &St, name: &str, m: &str, a: &[V], tys: &[Ty], _dty: Ty) -> Option<Outs> {
    let enc = name.contains("EncodeUtf16");
    let split = name.contains("Split");
    if !enc && !split { return None; }
    if m == "into_iter" { return Some(vec![(st.clone(), a[0].clone())]); }
    let V::Ref(p) = &a[0] else { return None };
    let t = deref_ty(tys[0])?;
    let V::Agg(_, f) = x.read(st, p, t) else { return None };
    if m == "clone" { return Some(vec![(st.clone(), V::Agg(0, f))]); }
    let id = str_id(x, st, &f[0])?;
    if enc {
        if f.len() != 2 { return None; }
        let V::Int(pos) = &f[1] else { return None };
        let n = u16_len(&id, &f[0]);
        match m {
            "next" => {
                let mut out = vec![];
                for mut s in x.assume(st.clone(), &C::lt(pos, &n)) {
                    let mut args = vec![st.norm(pos)]; args.extend(id.clone());
                    note(Event::Unit(st.norm(pos)));
                    let u = match const_unit(x, st, &f[0], pos) { Some(k) => Lin::c(k), None => app("u16", args, 0, 0xffff) };
                    x.write(&mut s, p, agg(vec![f[0].clone(), V::Int(pos.addk(1))]), t);
                    out.push((s, some(V::Int(u))));
                }
                for s in x.assume(st.clone(), &C::le(&n, pos)) { out.push((s, none())); }
                Some(out)
            }
            "size_hint" => { let d = n.sub(pos); Some(vec![(st.clone(), agg(vec![V::Int(app("shlo", vec![d.clone()], 0, isize_max())), some(V::Int(app("shhi", vec![d], 0, isize_max())))]))]) }
            _ => None,
        }
    } else {
        if f.len() != 4 { return None; }
        let (V::Int(pat), V::Int(pos)) = (&f[1], &f[2]) else { return None };
        match m {
            "next" => {
                let mut args = vec![pat.clone(), x.as_int(st, &f[3])?]; args.extend(id);
                let n = app("ncomp", args.clone(), 0, isize_max());
                let mut s0 = st.clone();
                if x.as_int(st, &f[3])? == Lin::c(0) { s0.st.add_ge(&n.addk(-1)); }
                let mut out = vec![];
                for mut s in x.assume(s0.clone(), &C::lt(pos, &n)) {
                    let mut ca = vec![s.norm(pos)]; ca.extend(args.clone());
                    let r = region_for(&app("comp", ca, -BIG, BIG), true);
                    x.write(&mut s, p, agg(vec![f[0].clone(), f[1].clone(), V::Int(pos.addk(1)), f[3].clone()]), t);
                    out.push((s, some(mkfat(P::Reg(r, Lin::c(0)), region(r).len))));
                }
                for s in x.assume(s0, &C::le(&n, pos)) { out.push((s, none())); }
                Some(out)
            }
            "size_hint" => Some(vec![(st.clone(), agg(vec![num(0), none()]))]),
            _ => None,
        }
    }
}
/// number of UTF-16 units of a string value
pub fn u16_len(id: &[Lin], _v: &V) -> Lin {
    if id.get(0) == Some(&Lin::c(-7)) { let b: Vec<u8> = id[1..].iter().map(|e| e.k as u8).collect(); if let Ok(s) = String::from_utf8(b) { return Lin::c(s.encode_utf16().count() as i128); } }
    app("u16len", id.to_vec(), 0, isize_max())
}
fn const_unit(x: &X, st: &St, v: &V, pos: &Lin) -> Option<i128> { let s = x.const_str(st, v)?; let k = st.norm(pos).is_c()?; s.encode_utf16().nth(k as usize).map(|u| u as i128) }

fn alloc_model(x: &mut X, st: &St, inst: Instance, name: &str, m: &str, a: &[V], tys: &[Ty], dty: Ty) -> Option<Outs> {
    let one = |v: V| Some(vec![(st.clone(), v)]);
    let cht = Ty::from_rigid_kind(RigidTy::Char);
    // an owned string or vector is abstracted to the number of items pushed
    let cnt = |x: &X, v: &V| -> Option<(P, Lin)> { let V::Ref(p) = v else { return None }; let w = x.read(st, p, deref_ty(tys[0])?); match &w { V::Agg(_, f) if f.len() == 1 => if let V::Int(e) = &f[0] { Some((p.clone(), e.clone())) } else { None }, _ => None } };
    if name.contains("Display>::fmt") && name.starts_with("<char as") {
        let V::Ref(p) = &a[0] else { return None };
        let c = x.read(st, p, cht);
        let mut out = vec![];
        for s in hook(x, st.clone(), H_PUSH, vec![c], &[cht]) { out.push((s, top(dty, &fresh("fmt", -BIG, BIG)))); }
        return Some(out);
    }
    if name.contains("std::fmt::Formatter") || name.contains("core::fmt::Formatter") || name.contains("std::fmt::Write") {
        match m {
            "write_char" => { let mut out = vec![]; for s in hook(x, st.clone(), H_PUSH, vec![a[1].clone()], &[cht]) { out.push((s, top(dty, &fresh("fmt", -BIG, BIG)))); } return Some(out); }
            "write_str" | "write_fmt" | "pad" | "debug_tuple" | "debug_struct" => return Some(havoc_call(x, st.clone(), name, a, tys, dty)),
            _ => return None,
        }
    }
    if name.contains("std::string::String") {
        match m {
            "new" | "with_capacity" | "default" if a.len() <= 1 && !name.contains(" as ") || m == "default" => return one(agg(vec![num(0)])),
            "reserve" | "reserve_exact" | "shrink_to_fit" => return one(unit()),
            "push" => {
                let (p, n) = cnt(x, &a[0])?;
                let mut out = vec![];
                for mut s in hook(x, st.clone(), H_PUSH, vec![a[1].clone()], &[cht]) {
                    // counts pushed characters; never wraps in practice
                    x.write(&mut s, &p, agg(vec![V::Int(n.addk(1))]), deref_ty(tys[0])?);
                    out.push((s, unit()));
                }
                return Some(out);
            }
            "clear" => { let (p, _) = cnt(x, &a[0])?; let mut s = st.clone(); x.write(&mut s, &p, agg(vec![num(0)]), deref_ty(tys[0])?); return Some(vec![(s, unit())]); }
            "is_empty" => { let (_, n) = cnt(x, &a[0])?; return one(V::Bool(C::Eq(st.norm(&n)))); }
            "clone" => { let V::Ref(p) = &a[0] else { return None }; let v = x.read(st, p, deref_ty(tys[0])?); return one(v); }
            "len" => { let (_, n) = cnt(x, &a[0])?; return one(V::Int(app("utf8len", vec![st.norm(&n)], 0, isize_max()))); }
            _ => return None,
        }
    }
    if m == "to_vec" || m == "to_vec_in" || m == "to_owned" {
        if let Some((p, n)) = fat(&a[0]) {
            let us = Ty::usize_ty();
            let ad = x.addr(st, &p);
            let mut out = vec![];
            for s in hook(x, st.clone(), H_BYTES, vec![V::Int(ad), V::Int(n.clone())], &[us, us]) { out.push((s, agg(vec![V::Int(n.clone())]))); }
            return Some(out);
        }
    }
    if name.contains("std::vec::Vec") {
        let _ = inst;
        match m {
            "new" | "with_capacity" => return one(agg(vec![num(0)])),
            "reserve" | "reserve_exact" => return one(unit()),
            "len" => { let (_, n) = cnt(x, &a[0])?; return one(V::Int(n)); }
            "is_empty" => { let (_, n) = cnt(x, &a[0])?; return one(V::Bool(C::Eq(st.norm(&n)))); }
            "clear" => { let (p, _) = cnt(x, &a[0])?; let mut s = st.clone(); x.write(&mut s, &p, agg(vec![num(0)]), deref_ty(tys[0])?); return Some(vec![(s, unit())]); }
            "extend_from_slice" => {
                let (p, n) = cnt(x, &a[0])?;
                let (q, k) = fat(&a[1])?;
                let us = Ty::usize_ty();
                let ad = x.addr(st, &q);
                let mut out = vec![];
                for mut s in hook(x, st.clone(), H_BYTES, vec![V::Int(ad.clone()), V::Int(k.clone())], &[us, us]) {
                    let e = n.add(&k);
                    // a vector never grows beyond isize::MAX bytes
                    s.st.add_ge(&e.neg().addk(isize_max()));
                    if s.st.dead { continue; }
                    x.write(&mut s, &p, agg(vec![V::Int(e)]), deref_ty(tys[0])?);
                    out.push((s, unit()));
                }
                return Some(out);
            }
            _ => return None,
        }
    }
    None
}

/// unknown callee: any result, any effect on what it can write to
pub fn havoc_call(x: &mut X, st: St, name: &str, a: &[V], tys: &[Ty], dty: Ty) -> Outs {
    if x.quiet == 0 { *x.unmodelled.entry(name.to_string()).or_insert(0) += 1; }
    let mut st = st;
    for (v, t) in a.iter().zip(tys) {
        if let TyKind::RigidTy(RigidTy::Ref(_, u, Mutability::Mut)) = t.kind() {
            if let V::Ref(p) = v { if let P::Obj(..) = p { let w = top(u, &fresh("havoc", -BIG, BIG)); x.write(&mut st, &p.clone(), w, u); } }
            if let V::Ref(P::Reg(r, _)) | V::Fat(P::Reg(r, _), _) = v { let mut m = (*st.regver).clone(); m.insert(*r, new_ver()); st.regver = Rc::new(m); }
        }
    }
    let v = if matches!(dty.kind(), TyKind::RigidTy(RigidTy::Tuple(ref t)) if t.is_empty()) { unit() } else { top(dty, &fresh("call", -BIG, BIG)) };
    vec![(st, v)]
}

/// functions of alloc that are replaced by a function of the harness with the same effect
pub fn substitute(x: &mut X, inst: Instance, name: &str) -> Option<Instance> {
    let to = match name {
        "<std::string::String as std::iter::FromIterator<char>>::from_iter" => "string_from_iter",
        "<std::string::String as std::iter::Extend<char>>::extend" => "string_extend",
        _ => return None,
    };
    if let Some(r) = x.subst.get(&inst) { return *r; }
    use rustc_public::CrateDef;
    let full = format!("contracts::model::{to}");
    let d = rustc_public::local_crate().fn_defs().into_iter().find(|f| f.name().to_string() == full);
    let r = d.and_then(|d| Instance::resolve(d, &inst.args()).ok());
    x.subst.insert(inst, r);
    r
}

pub fn recursion(x: &mut X, st: St, _inst: Instance, name: &str, a: &[V], tys: &[Ty], dty: Ty) -> Outs {
    x.report(&st, "term", &format!("recursion of {name} on data that is not known to be well-founded"));
    // whatever it did, it may have written to every mutable region
    let mut sts = vec![st];
    if let Some(V::Fn(_)) = sts[0].objs.get(&H_REC) { let s = sts.pop().unwrap(); let mut s = s; s.objs.insert(GHOST + 63, V::Agg(0, Rc::new(a.to_vec()))); let _ = tys; sts = hook(x, s, H_REC, vec![], &[]); }
    let mut out = vec![];
    for s in sts {
        let mut s = s;
        let mut m = (*s.regver).clone();
        for r in 0..REGS.with(|r| r.borrow().len()) as u32 { m.insert(r, new_ver()); }
        s.regver = Rc::new(m);
        let id = fresh("rec", -BIG, BIG);
        let v = if matches!(dty.kind(), TyKind::RigidTy(RigidTy::Tuple(ref t)) if t.is_empty()) { unit() } else { top(dty, &id) };
        if let (Some(V::Fn(_)), true) = (s.objs.get(&H_RECRES), true) { for t in hook(x, s, H_RECRES, vec![v.clone()], &[dty]) { out.push((t, v.clone())); } } else { out.push((s, v)); }
    }
    out
}

fn sa_call(x: &mut X, st: &St, inst: Instance, f: &str, a: &[V], tys: &[Ty], dty: Ty) -> Option<Outs> {
    let one = |v: V| Some(vec![(st.clone(), v)]);
    let f = f.split("::<").next().unwrap_or(f);
    match f {
        "check" => {
            let msg = x.const_str(st, &a[1]).unwrap_or_default();
            let c = x.as_cond(st, &a[0]);
            if x.decide(st, &c) != Some(true) {
                // bring in equalities between differently named but equal loads before giving up
                let mut ls = vec![];
                X::cond_lins(&c, &mut ls);
                let mut s = st.clone();
                x.link(&mut s, &ls);
                if !s.st.dead && x.decide(&s, &c) != Some(true) {
                    let mut bad = vec![];
                    for mut b in x.assume(s, &c.not()) { let mut l2 = vec![]; X::cond_lins(&c, &mut l2); x.link(&mut b, &l2); if !b.st.dead && b.st.feasible() { bad.push(b); } }
                    if let Some(b) = bad.first() { if x.debug { eprintln!("CHECK {msg}: {}", c.show()); } x.report(b, "check", &msg); }
                }
            }
            x.proved(&format!("contract: {msg}"));
            Some(x.assume(st.clone(), &c).into_iter().map(|s| (s, unit())).collect())
        }
        "assume" => { let c = x.as_cond(st, &a[0]); Some(x.assume(st.clone(), &c).into_iter().map(|s| (s, unit())).collect()) }
        "any" => one(top(dty, &fresh("any", -BIG, BIG))),
        "bytes" | "bytes_mut" => { let r = new_region("hive", false); one(mkfat(P::Reg(r, Lin::c(0)), region(r).len)) }
        "text" => { let r = new_region("str", true); one(mkfat(P::Reg(r, Lin::c(0)), region(r).len)) }
        "uf" | "uf_bool" | "uf_i" => {
            let n = x.const_str(st, &a[0])?;
            let args: Vec<Lin> = a[1..].iter().map(|v| x.as_int(st, v)).collect::<Option<Vec<_>>>()?;
            if f == "uf_bool" { return one(V::Bool(C::Eq(app(&format!("uf_{n}"), args, 0, 1).addk(-1)))); }
            let (l, h) = if f == "uf_i" { (-1, 1) } else { (0, isize_max()) };
            one(V::Int(app(&format!("uf_{n}"), args, l, h)))
        }
        "u16len" => { let id = str_id(x, st, &a[0])?; let n = u16_len(&id, &a[0]); one(V::Int(n)) }
        "unit" => { let id = str_id(x, st, &a[0])?; let mut args = vec![x.as_int(st, &a[1])?]; args.extend(id); one(V::Int(app("u16", args, 0, 0xffff))) }
        "gset" => { let k = x.as_int(st, &a[0])?.is_c()?; let mut s = st.clone(); s.objs.insert(GHOST + k as u32, a[1].clone()); Some(vec![(s, unit())]) }
        "gget" => { let k = x.as_int(st, &a[0])?.is_c()?; let _ = inst; one(st.obj(GHOST + k as u32)) }
        "hook" => { let k = x.as_int(st, &a[0])?.is_c()?; let mut s = st.clone(); let v = match &a[1] { V::Fn(i) => V::Fn(*i), _ => match tys[1].kind() { TyKind::RigidTy(RigidTy::FnDef(d, g)) => V::Fn(Instance::resolve(d, &g).ok()?), _ => return None } }; s.objs.insert(HOOK + k as u32, v); if k == 5 || k == 6 { WATCH.with(|w| w.set(true)); } Some(vec![(s, unit())]) }
        "ident" => {
            fn flat(x: &mut X, st: &St, v: &V, out: &mut Vec<Lin>) -> Option<()> {
                match v {
                    V::Int(l) => out.push(st.norm(l)), V::Bool(C::B(b)) => out.push(Lin::c(*b as i128)),
                    V::Ref(p) => { let (o, l) = match p { P::Obj(o, q) => { if !q.is_empty() { return None } (Lin::c(*o as i128), Lin::c(-1)) } P::Reg(r, l) => (Lin::c(*r as i128), l.clone()), P::Int(l) => (Lin::c(-2), l.clone()) }; out.push(o); out.push(st.norm(&l)); }
                    V::Fat(p, m) => { flat(x, st, &V::Ref(p.clone()), out)?; flat(x, st, m, out)?; }
                    V::Agg(k, fs) => { out.push(Lin::c(*k as i128)); out.push(Lin::c(fs.len() as i128)); for f in fs.iter() { flat(x, st, f, out)?; } }
                    _ => return None,
                }
                Some(())
            }
            let v = match &a[0] { V::Ref(p) => x.read(st, p, deref_ty(tys[0])?), v => v.clone() };
            let mut out = vec![]; flat(x, st, &v, &mut out)?;
            one(V::Int(app("ident", out, 0, i64::MAX as i128)))
        }
        "known" => { let c = x.as_cond(st, &a[0]); one(V::Bool(C::B(x.decide(st, &c) == Some(true)))) }
        "off_in" => {
            let (V::Ref(p), V::Fat(q, _)) = (&a[0], &a[1]) else { return None };
            match (p, q) { (P::Reg(r, o), P::Reg(t, u)) => one(if r == t { some(V::Int(st.norm(&o.sub(u)))) } else { none() }), _ => one(none()) }
        }
        "after" => { let Some(p) = x.const_str(st, &a[0]) else { return None }; let i = match &a[1] { V::Fn(i) => *i, _ => match tys[1].kind() { TyKind::RigidTy(RigidTy::FnDef(d, g)) => Instance::resolve(d, &g).ok()?, _ => return None } }; if !x.after.iter().any(|q| q.0 == p) { x.after.push((p, i)); } one(unit()) }
        "unhook" => { let k = x.as_int(st, &a[0])?.is_c()?; let mut s = st.clone(); s.objs.remove(&(HOOK + k as u32)); Some(vec![(s, unit())]) }
        "names_uf" => { let mut s = st.clone(); s.objs.insert(F_NAMES, unit()); Some(vec![(s, unit())]) }
        "names_native" => { let mut s = st.clone(); s.objs.remove(&F_NAMES); Some(vec![(s, unit())]) }
        "namecmp" => { let e = name_cmp(x, st, &a[0], &a[1])?; one(V::Int(e)) }
        "coarse" => { x.coarse = true; x.join_at = std::env::var("SA_JOIN").ok().and_then(|s| s.parse().ok()).unwrap_or(8); one(unit()) }
        "join" => { if let V::Int(e) = &a[0] { if let Some(k) = e.is_c() { if std::env::var("SA_JOIN").is_err() { x.join_at = k as usize; } } } one(unit()) }
        "refers" => {
            fn find(x: &X, st: &St, v: &V, n: &Lin, seen: &mut Vec<P>) -> bool {
                match v {
                    V::Int(e) => { let d = st.norm(&e.sub(n)); d.is_c() == Some(0) || d.is_c().is_none() && st.st.prove_eq(&d) }
                    V::Agg(_, f) => f.iter().any(|v| find(x, st, v, n, seen)),
                    V::Fat(p, _) => find(x, st, &V::Ref(p.clone()), n, seen),
                    V::Ref(P::Reg(_, o)) => { let d = st.norm(&o.sub(n)); d.is_c() == Some(0) || d.is_c().is_none() && st.st.prove_eq(&d) }
                    V::Ref(p @ P::Obj(o, path)) => { if seen.contains(p) || seen.len() > 20 { return false } seen.push(p.clone()); let mut w = st.obj(*o); for e in path { w = x.field_of(st, &w, e); } find(x, st, &w, n, seen) }
                    _ => false,
                }
            }
            let n = st.norm(&x.as_int(st, &a[0])?);
            let r = find(x, st, &st.obj(GHOST + 63), &n, &mut vec![]);
            one(V::Bool(C::B(r)))
        }
        "arg" => {
            fn ints(x: &X, st: &St, v: &V, out: &mut Vec<Lin>, depth: usize) {
                match v {
                    V::Int(e) => out.push(st.norm(e)),
                    V::Agg(_, f) => for v in f.iter() { ints(x, st, v, out, depth) },
                    V::Ref(P::Obj(o, path)) if depth < 8 => { let mut w = st.obj(*o); for e in path { w = x.field_of(st, &w, e); } ints(x, st, &w, out, depth + 1) }
                    _ => {}
                }
            }
            let k = x.as_int(st, &a[0])?.is_c()?;
            let mut out = vec![];
            ints(x, st, &st.obj(GHOST + 63), &mut out, 0);
            one(match out.get(k as usize) { Some(e) => some(V::Int(e.clone())), None => none() })
        }
        "rec" => { if let Some(k) = x.as_int(st, &a[0])?.is_c() { x.rec_depth = k as usize; } one(unit()) }
        "track" => { let e = x.as_int(st, &a[0])?; if !x.tracked.contains(&e) { x.tracked.push(e); } one(unit()) }
        "debug" => { if x.debug { eprintln!("DEBUG {} = {}", x.const_str(st, &a[0]).unwrap_or_default(), show_v(&match &a[1] { V::Ref(p) => x.read(st, p, deref_ty(tys[1])?), v => v.clone() })); for (s, e) in st.st.eq.iter() { eprintln!("     {} = {}", show_s(*s), show(e)); } for e in st.st.ge.iter() { eprintln!("     {} >= 0", show(e)); } for e in st.st.ne.iter() { eprintln!("     {} != 0", show(e)); } } one(unit()) }
        _ => None,
    }
}
