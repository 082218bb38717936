//! Abstract values, places and abstract states.
use crate::num::Store;
use crate::sym::*;
use rustc_public::abi::{FieldsShape, VariantsShape, TagEncoding};
use rustc_public::mir::mono::Instance;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type O = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Pe { F(u32), I(Lin) }

/// an address
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum P { Obj(O, Vec<Pe>), Reg(u32, Lin), Int(Lin) }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum C { B(bool), Ge(Lin), Eq(Lin), Ne(Lin), And(Vec<C>), Or(Vec<C>) }

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Undef,
    Int(Lin),
    Bool(C),
    Ref(P),
    Fat(P, Rc<V>),
    /// variant, fields (structs, tuples, closures, enum variants, arrays)
    Agg(u32, Rc<Vec<V>>),
    /// the bytes of a region seen as a value of a type
    Bytes(u32, Lin, Ty),
    Top(Ty, Lin),
    Fn(Instance),
}

impl C {
    pub fn not(&self) -> C {
        match self {
            C::B(b) => C::B(!b),
            C::Ge(e) => C::Ge(e.neg().addk(-1)),
            C::Eq(e) => C::Ne(e.clone()),
            C::Ne(e) => C::Eq(e.clone()),
            C::And(v) => C::Or(v.iter().map(|c| c.not()).collect()),
            C::Or(v) => C::And(v.iter().map(|c| c.not()).collect()),
        }
    }
    pub fn lt(a: &Lin, b: &Lin) -> C { C::Ge(b.sub(a).addk(-1)) }
    pub fn le(a: &Lin, b: &Lin) -> C { C::Ge(b.sub(a)) }
    pub fn eq(a: &Lin, b: &Lin) -> C { C::Eq(a.sub(b)) }
    pub fn show(&self) -> String {
        match self {
            C::B(b) => b.to_string(),
            C::Ge(e) => format!("{} >= 0", show(e)),
            C::Eq(e) => format!("{} = 0", show(e)),
            C::Ne(e) => format!("{} != 0", show(e)),
            C::And(v) => v.iter().map(|c| format!("({})", c.show())).collect::<Vec<_>>().join(" & "),
            C::Or(v) => v.iter().map(|c| format!("({})", c.show())).collect::<Vec<_>>().join(" | "),
        }
    }
}

pub fn unit() -> V { V::Agg(0, Rc::new(vec![])) }
pub fn agg(v: Vec<V>) -> V { V::Agg(0, Rc::new(v)) }
pub fn var(n: u32, v: Vec<V>) -> V { V::Agg(n, Rc::new(v)) }
pub fn none() -> V { var(0, vec![]) }
pub fn some(v: V) -> V { var(1, vec![v]) }
pub fn ok(v: V) -> V { var(0, vec![v]) }
pub fn err(v: V) -> V { var(1, vec![v]) }
pub fn int(e: Lin) -> V { V::Int(e) }
pub fn num(k: i128) -> V { V::Int(Lin::c(k)) }

#[derive(Clone)]
pub struct Region { pub name: String, pub len: Lin, pub base: Lin, pub is_str: bool }

thread_local! {
    pub static REGS: RefCell<Vec<Region>> = RefCell::new(vec![]);
    static REGMEMO: RefCell<HashMap<Lin, u32>> = RefCell::new(HashMap::new());
    static OBJMEMO: RefCell<HashMap<Lin, O>> = RefCell::new(HashMap::new());
    static CONSTMEMO: RefCell<HashMap<(AllocId, usize, Ty, u64), O>> = RefCell::new(HashMap::new());
    pub static CONSTS: RefCell<HashMap<O, V>> = RefCell::new(HashMap::new());
    pub static NEXT: RefCell<O> = RefCell::new(100);
    pub static PTRW: RefCell<u32> = RefCell::new(64);
    static SELMEMO: RefCell<HashMap<Vec<i128>, u32>> = RefCell::new(HashMap::new());
}
pub fn ptrw() -> u32 { PTRW.with(|p| *p.borrow()) }
pub fn usize_max() -> i128 { (1i128 << ptrw()) - 1 }
pub fn isize_max() -> i128 { (1i128 << (ptrw() - 1)) - 1 }
pub fn reset_all() {
    REGS.with(|r| r.borrow_mut().clear());
    REGMEMO.with(|r| r.borrow_mut().clear());
    OBJMEMO.with(|r| r.borrow_mut().clear());
    CONSTMEMO.with(|r| r.borrow_mut().clear());
    CONSTS.with(|r| r.borrow_mut().clear());
    SELMEMO.with(|r| r.borrow_mut().clear());
    NEXT.with(|n| *n.borrow_mut() = 100);
}
pub fn alloc_objs(n: u32) -> O { NEXT.with(|x| { let mut x = x.borrow_mut(); let r = *x; *x += n; r }) }
pub fn new_region(name: &str, is_str: bool) -> u32 {
    let len = fresh(&format!("len_{name}"), 0, isize_max());
    // the whole object lies inside the address space
    let base = fresh(&format!("base_{name}"), 1, isize_max());
    REGS.with(|r| { let mut r = r.borrow_mut(); r.push(Region { name: name.into(), len, base, is_str }); r.len() as u32 - 1 })
}
pub fn region(r: u32) -> Region { REGS.with(|x| x.borrow()[r as usize].clone()) }
pub fn region_for(id: &Lin, is_str: bool) -> u32 {
    if let Some(r) = REGMEMO.with(|m| m.borrow().get(id).copied()) { return r; }
    let r = new_region(&format!("top{}", REGS.with(|r| r.borrow().len())), is_str);
    REGMEMO.with(|m| m.borrow_mut().insert(id.clone(), r));
    r
}

/// the k-th field types of a struct-like type (structs, tuples, closures); None for others
pub fn field_tys(ty: Ty, variant: usize) -> Option<Vec<Ty>> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Tuple(v)) => Some(v),
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            if d.kind().is_union() { return None; }
            let vs = d.variants();
            let v = vs.get(variant)?;
            Some(v.fields().iter().map(|f| f.ty_with_args(&a)).collect())
        }
        TyKind::RigidTy(RigidTy::Closure(_, a)) => {
            // upvar tuple is the last generic argument
            let t = a.0.iter().rev().find_map(|x| x.ty().copied())?;
            match t.kind() { TyKind::RigidTy(RigidTy::Tuple(v)) => Some(v), _ => None }
        }
        _ => None,
    }
}
pub fn size_of(ty: Ty) -> Option<usize> { 
    let l = ty.layout().ok()?.shape();
    if l.is_unsized() { return None; }
    Some(l.size.bytes())
}
pub fn align_of(ty: Ty) -> Option<u64> { Some(ty.layout().ok()?.shape().abi_align) }
pub fn field_off(ty: Ty, i: usize) -> Option<usize> {
    match ty.layout().ok()?.shape().fields {
        FieldsShape::Arbitrary { offsets } => offsets.get(i).map(|s| s.bytes()),
        FieldsShape::Array { stride, .. } => Some(stride.bytes() * i),
        FieldsShape::Union(_) => Some(0),
        FieldsShape::Primitive => None,
    }
}
pub fn elem_ty(ty: Ty) -> Option<Ty> {
    match ty.kind() { TyKind::RigidTy(RigidTy::Array(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) => Some(t),
        TyKind::RigidTy(RigidTy::Str) => Some(Ty::unsigned_ty(UintTy::U8)), _ => None }
}
pub fn array_len(ty: Ty) -> Option<u64> {
    match ty.kind() { TyKind::RigidTy(RigidTy::Array(_, n)) => n.eval_target_usize().ok(), _ => None }
}
pub fn is_unsized(ty: Ty) -> bool { matches!(ty.kind(), TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Dynamic(..))) }
pub fn deref_ty(ty: Ty) -> Option<Ty> {
    match ty.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => a.0.iter().find_map(|x| x.ty().copied()), _ => None }
}
/// (bits, signed) of an integer-like type
pub fn int_ty(ty: Ty) -> Option<(u32, bool)> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Uint(u)) => Some((if u == UintTy::Usize { ptrw() } else { u.num_bytes() as u32 * 8 }, false)),
        TyKind::RigidTy(RigidTy::Int(u)) => Some((if u == IntTy::Isize { ptrw() } else { u.num_bytes() as u32 * 8 }, true)),
        TyKind::RigidTy(RigidTy::Char) => Some((32, false)),
        TyKind::RigidTy(RigidTy::Bool) => Some((8, false)),
        _ => None,
    }
}
pub fn is_bool(ty: Ty) -> bool { matches!(ty.kind(), TyKind::RigidTy(RigidTy::Bool)) }
pub fn bounds(bits: u32, signed: bool) -> (i128, i128) {
    if bits >= 128 { return if signed { (i128::MIN / 4, i128::MAX / 4) } else { (0, i128::MAX / 4) }; }
    if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) }
}
pub fn ty_bounds(ty: Ty) -> (i128, i128) {
    if let TyKind::RigidTy(RigidTy::Char) = ty.kind() { return (0, 0x10ffff); }
    int_ty(ty).map(|(b, s)| bounds(b, s)).unwrap_or((-BIG, BIG))
}

pub fn id_child(name: &str, id: &Lin) -> Lin { app(name, vec![id.clone()], -BIG, BIG) }

/// the unknown value of type `ty` named `id`
pub fn top(ty: Ty, id: &Lin) -> V {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Bool) => V::Bool(C::Eq(app("v", vec![id.clone()], 0, 1).addk(-1))),
        TyKind::RigidTy(RigidTy::Char) | TyKind::RigidTy(RigidTy::Int(_)) | TyKind::RigidTy(RigidTy::Uint(_)) => {
            let (l, h) = ty_bounds(ty);
            V::Int(app("v", vec![id.clone()], l, h))
        }
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => match t.kind() {
            TyKind::RigidTy(RigidTy::Str) => { let r = region_for(id, true); V::Fat(P::Reg(r, Lin::c(0)), Rc::new(V::Int(region(r).len))) }
            TyKind::RigidTy(RigidTy::Slice(e)) => {
                if int_ty(e) == Some((8, false)) && !is_bool(e) { let r = region_for(id, false); return V::Fat(P::Reg(r, Lin::c(0)), Rc::new(V::Int(region(r).len))); }
                let o = obj_for(id);
                V::Fat(P::Obj(o, vec![Pe::I(Lin::c(0))]), Rc::new(V::Int(app("len", vec![id.clone()], 0, isize_max()))))
            }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => V::Fat(P::Obj(obj_for(id), vec![]), Rc::new(V::Undef)),
            _ => { CONSTS.with(|c| { c.borrow_mut().entry(obj_for(id)).or_insert(V::Top(t, id_child("deref", id))); }); V::Ref(P::Obj(obj_for(id), vec![])) }
        },
        TyKind::RigidTy(RigidTy::RawPtr(..)) => V::Ref(P::Int(app("v", vec![id.clone()], 0, usize_max()))),
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind().is_enum() => V::Top(ty, id.clone()),
        TyKind::RigidTy(RigidTy::FnDef(..)) => unit(),
        _ => match field_tys(ty, 0) {
            Some(fs) => agg(fs.iter().enumerate().map(|(i, t)| top(*t, &id_child(&format!("f{i}"), id))).collect()),
            None => match array_len(ty) {
                Some(n) if n <= 64 => { let e = elem_ty(ty).unwrap(); agg((0..n).map(|i| top(e, &id_child(&format!("e{i}"), id))).collect()) }
                _ => V::Top(ty, id.clone()),
            },
        },
    }
}
pub fn obj_for(id: &Lin) -> O {
    OBJMEMO.with(|m| *m.borrow_mut().entry(id.clone()).or_insert_with(|| alloc_objs(1)))
}

#[derive(Clone)]
pub struct St {
    pub objs: BTreeMap<O, V>,
    pub st: Store,
    pub regver: Rc<BTreeMap<u32, u32>>,
    /// instantiated universal facts (index terms), to avoid repeating them
    pub inst: Rc<Vec<(u32, Lin)>>,
}
impl St {
    pub fn new() -> St { St { objs: BTreeMap::new(), st: Store::default(), regver: Default::default(), inst: Default::default() } }
    pub fn ver(&self, r: u32) -> u32 { self.regver.get(&r).copied().unwrap_or(0) }
    pub fn obj(&self, o: O) -> V {
        if let Some(v) = self.objs.get(&o) { return v.clone(); }
        CONSTS.with(|c| c.borrow().get(&o).cloned().unwrap_or(V::Undef))
    }
    pub fn norm(&self, e: &Lin) -> Lin { self.st.norm(e) }
}

fn sext(v: u128, bytes: usize) -> i128 { let s = 128 - 8 * bytes as u32; ((v << s) as i128) >> s }

/// decode a compile-time constant
pub fn decode(a: &Allocation, off: usize, ty: Ty) -> V {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Bool) => a.read_partial_uint(off..off + 1).map(|v| V::Bool(C::B(v != 0))).unwrap_or(V::Undef),
        TyKind::RigidTy(RigidTy::Char) => a.read_partial_uint(off..off + 4).map(|v| num(v as i128)).unwrap_or(V::Undef),
        TyKind::RigidTy(RigidTy::Uint(u)) => a.read_partial_uint(off..off + u.num_bytes()).map(|v| {
            let mut v = v.min(i128::MAX as u128) as i128;
            if u == UintTy::Usize && ptrw() == 32 { if v == u64::MAX as i128 { v = u32::MAX as i128 } else if v == i64::MAX as i128 { v = i32::MAX as i128 } else if v == 64 { } }
            num(v)
        }).unwrap_or(V::Undef),
        TyKind::RigidTy(RigidTy::Int(u)) => a.read_partial_uint(off..off + u.num_bytes()).map(|v| {
            let mut v = sext(v, u.num_bytes());
            if u == IntTy::Isize && ptrw() == 32 { if v == i64::MAX as i128 { v = i32::MAX as i128 } else if v == i64::MIN as i128 { v = i32::MIN as i128 } }
            num(v)
        }).unwrap_or(V::Undef),
        TyKind::RigidTy(RigidTy::FnDef(..)) | TyKind::RigidTy(RigidTy::Never) => unit(),
        TyKind::RigidTy(RigidTy::FnPtr(_)) => {
            match a.provenance.ptrs.iter().find(|p| p.0 == off) {
                Some((_, p)) => match GlobalAlloc::from(p.0) { GlobalAlloc::Function(i) => V::Fn(i), _ => V::Undef },
                None => V::Undef,
            }
        }
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => {
            let addr = a.read_partial_uint(off..off + 8).unwrap_or(0) as usize;
            let meta = if is_unsized(t) { a.read_partial_uint(off + 8..off + 16).ok() } else { None };
            match a.provenance.ptrs.iter().find(|p| p.0 == off) {
                None => { let p = P::Int(Lin::c(addr as i128)); match meta { Some(m) => V::Fat(p, Rc::new(num(m as i128))), None => V::Ref(p) } }
                Some((_, p)) => const_ptr(p.0, addr, t, meta.map(|m| m as u64)),
            }
        }
        TyKind::RigidTy(RigidTy::Array(e, n)) => {
            let n = n.eval_target_usize().unwrap_or(0) as usize;
            let sz = size_of(e).unwrap_or(0);
            agg((0..n).map(|i| decode(a, off + i * sz, e)).collect())
        }
        TyKind::RigidTy(RigidTy::Pat(t, _)) => decode(a, off, t),
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind().is_enum() => {
            let sh = match ty.layout() { Ok(l) => l.shape(), Err(_) => return V::Undef };
            let (idx, offs): (usize, Vec<usize>) = match &sh.variants {
                VariantsShape::Single { index } => (index.to_index(), match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|s| s.bytes()).collect(), _ => vec![] }),
                VariantsShape::Empty => return V::Undef,
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                    let tsz = tag_size(tag);
                    let isptr = a.provenance.ptrs.iter().any(|p| p.0 == off + toff);
                    let tv = match a.read_partial_uint(off + toff..off + toff + tsz) { Ok(v) => v, Err(_) => return V::Undef };
                    let idx = match tag_encoding {
                        TagEncoding::Direct => match (0..d.num_variants()).find(|i| { let dv = d.discriminant_for_variant(VariantIdx::to_val(*i)).val; let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 }; dv & m == tv }) { Some(i) => i, None => return V::Undef },
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                            let rel = tv.wrapping_sub(*niche_start) & m;
                            let cnt = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                            if !isptr && rel <= cnt { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                        }
                    };
                    (idx, variants[idx].offsets.iter().map(|s| s.bytes()).collect())
                }
            };
            let fs = field_tys(ty, idx).unwrap_or_default();
            var(idx as u32, fs.iter().enumerate().map(|(i, t)| decode(a, off + offs.get(i).copied().unwrap_or(0), *t)).collect())
        }
        _ => match field_tys(ty, 0) {
            Some(fs) => agg(fs.iter().enumerate().map(|(i, t)| decode(a, off + field_off(ty, i).unwrap_or(0), *t)).collect()),
            None => V::Undef,
        },
    }
}
pub fn const_ptr(id: AllocId, addr: usize, t: Ty, meta: Option<u64>) -> V {
    match GlobalAlloc::from(id) {
        GlobalAlloc::Memory(m) => const_obj(id, &m, addr, t, meta),
        GlobalAlloc::Static(s) => match s.eval_initializer() { Ok(m) => const_obj(id, &m, addr, t, meta), Err(_) => V::Undef },
        GlobalAlloc::Function(i) => V::Fn(i),
        _ => V::Undef,
    }
}
fn const_obj(id: AllocId, m: &Allocation, addr: usize, t: Ty, meta: Option<u64>) -> V {
    let key = (id, addr, t, meta.unwrap_or(0));
    let o = match CONSTMEMO.with(|c| c.borrow().get(&key).copied()) {
        Some(o) => o,
        None => {
            let o = alloc_objs(1);
            CONSTMEMO.with(|c| c.borrow_mut().insert(key, o));
            let v = match (meta, elem_ty(t)) {
                (Some(n), Some(e)) => { let sz = size_of(e).unwrap_or(0); agg((0..n as usize).map(|i| decode(m, addr + i * sz, e)).collect()) }
                _ => decode(m, addr, t),
            };
            CONSTS.with(|c| c.borrow_mut().insert(o, v));
            o
        }
    };
    match meta {
        Some(n) if elem_ty(t).is_some() => V::Fat(P::Obj(o, vec![Pe::I(Lin::c(0))]), Rc::new(num(n as i128))),
        Some(_) => V::Fat(P::Obj(o, vec![]), Rc::new(V::Undef)),
        None => V::Ref(P::Obj(o, vec![])),
    }
}
/// the strictly increasing constants a column lookup selects from
pub fn sel_sorted(name: &str) -> Option<Vec<i128>> {
    SELMEMO.with(|m| m.borrow().iter().find(|(_, n)| name == format!("sel{n}")).map(|(v, _)| v.clone())).filter(|v| v.windows(2).all(|w| w[0] < w[1]))
}
/// the constant a column holds at a constant index
pub fn sel_at(name: &str, k: i128) -> Option<i128> {
    if !name.starts_with("sel") || name.starts_with("selv") { return None; }
    let n: u32 = name[3..].parse().ok()?;
    SELMEMO.with(|m| m.borrow().iter().find(|(_, i)| **i == n).and_then(|(v, _)| v.get(usize::try_from(k).ok()?).copied()))
}
pub fn is_const_obj(o: O) -> bool { CONSTS.with(|c| c.borrow().contains_key(&o)) }
pub fn sel_name(v: &[i128]) -> String {
    SELMEMO.with(|m| { let mut m = m.borrow_mut(); let n = m.len() as u32; format!("sel{}", *m.entry(v.to_vec()).or_insert(n)) })
}

pub fn show_p(p: &P) -> String {
    match p {
        P::Obj(o, path) => format!("o{o}{}", path.iter().map(|e| match e { Pe::F(i) => format!(".{i}"), Pe::I(l) => format!("[{}]", show(l)) }).collect::<String>()),
        P::Reg(r, off) => format!("r{r}+({})", show(off)),
        P::Int(l) => format!("@{}", show(l)),
    }
}
pub fn show_v(v: &V) -> String {
    match v {
        V::Undef => "?".into(),
        V::Int(l) => show(l),
        V::Bool(c) => format!("<{}>", c.show()),
        V::Ref(p) => format!("&{}", show_p(p)),
        V::Fat(p, m) => format!("&{}#{}", show_p(p), show_v(m)),
        V::Agg(n, f) => if f.len() > 24 { format!("{n}{{..{}}}", f.len()) } else { format!("{n}{{{}}}", f.iter().map(show_v).collect::<Vec<_>>().join(", ")) },
        V::Bytes(r, o, t) => format!("bytes r{r}+({}) {t}", show(o)),
        V::Top(t, id) => format!("top<{t}>{}", show(id)),
        V::Fn(i) => format!("fn {}", i.def_name()),
    }
}
pub trait DefName { fn def_name(&self) -> String; }
impl DefName for Instance { fn def_name(&self) -> String { self.def.name().to_string() } }

fn tag_size(t: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Scalar, Primitive};
    let v = match t { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    match v { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, Primitive::Float { length } => length.bits() / 8 }
}
