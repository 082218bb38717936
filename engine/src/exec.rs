//! The abstract interpreter: transfer functions of MIR statements and terminators, calls.
use crate::num::*;
use crate::sym::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub type Outs = Vec<(St, V)>;

pub struct FnInfo {
    pub inst: Instance,
    pub name: String,
    pub body: Body,
    pub rpo: Vec<usize>,
    /// loop header -> blocks of the loop
    pub loops: BTreeMap<usize, BTreeSet<usize>>,
    pub live_in: Vec<HashSet<usize>>,
    pub addr_taken: HashSet<usize>,
}

#[derive(Clone)]
pub struct Frame { pub f: Rc<FnInfo>, pub base: O }

pub enum Exit { Ret(St, V), Back(St), Out(usize, St) }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Finding { pub rule: String, pub func: String, pub msg: String }

pub struct X {
    pub fns: HashMap<Instance, Rc<FnInfo>>,
    pub subst: HashMap<Instance, Option<Instance>>,
    pub resolve: HashMap<Ty, Option<Instance>>,
    pub stack: Vec<(Instance, String)>,
    pub quiet: u32,
    pub findings: BTreeMap<Finding, String>,
    pub proved: BTreeMap<String, u64>,
    pub unmodelled: BTreeMap<String, u64>,
    pub funcs: BTreeSet<String>,
    pub loops_done: BTreeMap<String, String>,
    pub warm: HashMap<(Vec<Instance>, usize), Rc<BTreeMap<String, Vec<i128>>>>,
    pub steps: u64,
    pub calls: u64,
    pub debug: bool,
    pub max_steps: u64,
    pub gave_up: Option<String>,
    pub tracked: Vec<Lin>,
    pub foralls: Vec<crate::models::Forall>,
    pub in_forall: bool,
    pub model_fns: HashMap<String, FnDef>,
    pub opts: BTreeSet<String>,
    pub rec_depth: usize,
    pub join_at: usize,
    pub after: Vec<(String, rustc_public::mir::mono::Instance)>,
    pub coarse: bool,
    pub in_hook: bool,
    pub crates: HashMap<rustc_public::mir::mono::Instance, u8>,
    pub long_loops: HashSet<(Vec<rustc_public::mir::mono::Instance>, usize)>,
}

fn succs(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Drop { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
        TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::InlineAsm { destination, .. } => destination.iter().copied().collect(),
        _ => vec![],
    }
}
fn place_uses(p: &Place, u: &mut HashSet<usize>) { u.insert(p.local); for e in &p.projection { if let ProjectionElem::Index(l) = e { u.insert(*l); } } }
fn op_uses(o: &Operand, u: &mut HashSet<usize>) { if let Operand::Copy(p) | Operand::Move(p) = o { place_uses(p, u) } }
fn rv_uses(r: &Rvalue, u: &mut HashSet<usize>, at: &mut HashSet<usize>) {
    match r {
        Rvalue::AddressOf(_, p) | Rvalue::Ref(_, _, p) => { if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) { at.insert(p.local); } place_uses(p, u) }
        Rvalue::Aggregate(_, v) => v.iter().for_each(|o| op_uses(o, u)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => { op_uses(a, u); op_uses(b, u) }
        Rvalue::Cast(_, a, _) | Rvalue::Repeat(a, _) | Rvalue::UnaryOp(_, a) | Rvalue::Use(a, _) => op_uses(a, u),
        Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) | Rvalue::Reborrow(_, _, p) => place_uses(p, u),
        Rvalue::ThreadLocalRef(_) => {}
    }
}

fn rv_moves(r: &Rvalue, m: &mut Vec<Place>) {
    let mut f = |o: &Operand| if let Operand::Move(p) = o { m.push(p.clone()) };
    match r {
        Rvalue::Aggregate(_, v) => v.iter().for_each(|o| f(o)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => { f(a); f(b) }
        Rvalue::Cast(_, a, _) | Rvalue::Repeat(a, _) | Rvalue::UnaryOp(_, a) | Rvalue::Use(a, _) => f(a),
        _ => {}
    }
}

impl FnInfo {
    pub fn new(inst: Instance, body: Body) -> FnInfo {
        let n = body.blocks.len();
        let su: Vec<Vec<usize>> = body.blocks.iter().map(|b| succs(&b.terminator.kind)).collect();
        // reverse post order
        let mut seen = vec![false; n];
        let mut post = vec![];
        let mut stack = vec![(0usize, 0usize)];
        if n > 0 { seen[0] = true; }
        while let Some((b, i)) = stack.pop() {
            if i < su[b].len() { stack.push((b, i + 1)); let t = su[b][i]; if !seen[t] { seen[t] = true; stack.push((t, 0)); } } else { post.push(b); }
        }
        post.reverse();
        let mut rpo = vec![usize::MAX; n];
        for (i, b) in post.iter().enumerate() { rpo[*b] = i; }
        // dominators (iterative sets; bodies are small)
        let mut preds = vec![vec![]; n];
        for b in &post { for t in &su[*b] { preds[*t].push(*b); } }
        let mut idom: Vec<Option<usize>> = vec![None; n];
        if n > 0 { idom[0] = Some(0); }
        let mut ch = true;
        while ch {
            ch = false;
            for b in post.iter().skip(1) {
                let mut new: Option<usize> = None;
                for p in &preds[*b] {
                    if idom[*p].is_none() { continue; }
                    new = Some(match new { None => *p, Some(mut x) => { let mut y = *p; while x != y { while rpo[x] > rpo[y] { x = idom[x].unwrap(); } while rpo[y] > rpo[x] { y = idom[y].unwrap(); } } x } });
                }
                if idom[*b] != new { idom[*b] = new; ch = true; }
            }
        }
        let dom = |a: usize, mut b: usize| -> bool { loop { if a == b { return true; } match idom[b] { Some(p) if p != b => b = p, _ => return false } } };
        let mut loops: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for b in &post { for t in &su[*b] { if dom(*t, *b) {
            let l = loops.entry(*t).or_default();
            l.insert(*t);
            let mut w = vec![*b];
            while let Some(x) = w.pop() { if l.insert(x) { for p in &preds[x] { w.push(*p); } } }
        } } }
        // liveness
        let mut at = HashSet::new();
        let mut usebd = vec![];
        for b in &body.blocks {
            let mut u: HashSet<usize> = HashSet::new();
            let mut d: HashSet<usize> = HashSet::new();
            let mut touch = |uses: HashSet<usize>, def: Option<usize>, d: &mut HashSet<usize>| { for x in uses { if !d.contains(&x) { u.insert(x); } } if let Some(x) = def { d.insert(x); } };
            for s in &b.statements {
                let mut uses = HashSet::new();
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        rv_uses(r, &mut uses, &mut at);
                        let def = if p.projection.is_empty() { Some(p.local) } else { place_uses(p, &mut uses); None };
                        touch(uses, def, &mut d);
                    }
                    StatementKind::SetDiscriminant { place, .. } => { place_uses(place, &mut uses); touch(uses, None, &mut d); }
                    StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => touch(uses, Some(*l), &mut d),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { op_uses(o, &mut uses); touch(uses, None, &mut d); }
                    _ => {}
                }
            }
            let mut uses = HashSet::new();
            match &b.terminator.kind {
                TerminatorKind::SwitchInt { discr, .. } => { op_uses(discr, &mut uses); touch(uses, None, &mut d); }
                TerminatorKind::Return => { uses.insert(0); touch(uses, None, &mut d); }
                TerminatorKind::Drop { place, .. } => { place_uses(place, &mut uses); touch(uses, None, &mut d); }
                TerminatorKind::Call { func, args, destination, .. } => {
                    op_uses(func, &mut uses);
                    for a in args { op_uses(a, &mut uses); }
                    let def = if destination.projection.is_empty() { Some(destination.local) } else { place_uses(destination, &mut uses); None };
                    touch(uses, def, &mut d);
                }
                TerminatorKind::Assert { cond, .. } => { op_uses(cond, &mut uses); touch(uses, None, &mut d); }
                _ => {}
            }
            usebd.push((u, d));
        }
        let mut live_in: Vec<HashSet<usize>> = vec![HashSet::new(); n];
        let mut ch = true;
        while ch {
            ch = false;
            for b in post.iter().rev() {
                let mut l: HashSet<usize> = HashSet::new();
                for t in &su[*b] { l.extend(live_in[*t].iter().copied()); }
                for x in &usebd[*b].1 { l.remove(x); }
                l.extend(usebd[*b].0.iter().copied());
                if l.len() != live_in[*b].len() { live_in[*b] = l; ch = true; }
            }
        }
        FnInfo { inst, name: inst.def_name(), body, rpo, loops, live_in, addr_taken: at }
    }
}

impl X {
    pub fn new() -> X {
        X { fns: HashMap::new(), subst: HashMap::new(), resolve: HashMap::new(), stack: vec![], quiet: 0, findings: BTreeMap::new(), proved: BTreeMap::new(), unmodelled: BTreeMap::new(), funcs: BTreeSet::new(),
            long_loops: HashSet::new(), loops_done: BTreeMap::new(), warm: HashMap::new(), steps: 0, calls: 0, debug: false, max_steps: 40_000_000, gave_up: None, tracked: vec![], foralls: vec![], in_forall: false, model_fns: HashMap::new(), opts: BTreeSet::new(), rec_depth: 1, join_at: std::env::var("SA_JOIN").ok().and_then(|s| s.parse().ok()).unwrap_or(64), coarse: false, in_hook: false, crates: HashMap::new(), after: vec![] }
    }
    pub fn info(&mut self, i: Instance) -> Option<Rc<FnInfo>> {
        if let Some(f) = self.fns.get(&i) { return Some(f.clone()); }
        let b = i.body()?;
        let f = Rc::new(FnInfo::new(i, b));
        self.fns.insert(i, f.clone());
        Some(f)
    }

    /// the innermost function of the library (or, failing that, of the contract) on the stack
    pub fn blame(&self) -> String {
        for (_, n) in self.stack.iter().rev() { if n.contains("nt_hive") && !n.starts_with("contracts") { return n.clone(); } }
        self.stack.last().map(|x| x.1.clone()).unwrap_or_default()
    }
    pub fn trace(&self) -> String { self.stack.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(" -> ") }
    pub fn report(&mut self, st: &St, rule: &str, msg: &str) {
        if self.quiet > 0 || st.st.dead { return; }
        let f = Finding { rule: rule.into(), func: self.blame(), msg: msg.into() };
        if !self.findings.contains_key(&f) {
            let mut t = format!("call path: {}", self.trace());
            if self.debug {
                t += "\n   state: ";
                for (s, e) in st.st.eq.iter() { t += &format!("\n     {} = {}", show_s(*s), show(e)); }
                for e in st.st.ge.iter() { t += &format!("\n     {} >= 0", show(e)); }
                for e in st.st.ne.iter() { t += &format!("\n     {} != 0", show(e)); }
            }
            self.findings.insert(f, t);
        }
    }
    pub fn proved(&mut self, what: &str) { if self.quiet == 0 { *self.proved.entry(what.into()).or_insert(0) += 1; } }

    // ---------- conditions ----------
    pub fn decide(&self, st: &St, c: &C) -> Option<bool> {
        match c {
            C::B(b) => Some(*b),
            C::Ge(e) => if st.st.prove_ge(e) { Some(true) } else if st.st.prove_ge(&e.neg().addk(-1)) { Some(false) } else { None },
            C::Eq(e) => if st.st.prove_eq(e) { Some(true) } else if st.st.prove_ne(e) { Some(false) } else { None },
            C::Ne(e) => self.decide(st, &C::Eq(e.clone())).map(|b| !b),
            C::And(v) => { let mut all = true; for x in v { match self.decide(st, x) { Some(false) => return Some(false), Some(true) => {} None => all = false } } if all { Some(true) } else { None } }
            C::Or(v) => { let mut all = true; for x in v { match self.decide(st, x) { Some(true) => return Some(true), Some(false) => {} None => all = false } } if all { Some(false) } else { None } }
        }
    }
    pub fn assume(&self, st: St, c: &C) -> Vec<St> {
        if st.st.dead { return vec![]; }
        match c {
            C::B(true) => vec![st],
            C::B(false) => vec![],
            C::Ge(e) => { let mut st = st; let e = &canon(&mut st, e); if st.st.prove_ge(&e.neg().addk(-1)) { return vec![]; } st.st.add_ge(e); self.lookup(&mut st, e, false); if st.st.dead || !st.st.feasible_about(e) { vec![] } else { vec![st] } }
            C::Eq(e) => { let mut st = st; let e = &canon(&mut st, e); if st.st.prove_ne(e) { return vec![]; } st.st.add_eq(e); self.lookup(&mut st, e, true); if st.st.dead { return vec![]; } self.congr(&mut st); if st.st.dead || !st.st.feasible_about(e) { vec![] } else { vec![st] } }
            C::Ne(e) => { let mut st = st; let e = &canon(&mut st, e); if st.st.prove_eq(e) { return vec![]; } st.st.add_ne(e); self.lookup_ne(&mut st, e); if st.st.dead || !st.st.feasible_about(e) { vec![] } else { vec![st] } }
            C::And(v) => { let mut s = vec![st]; for x in v { let mut n = vec![]; for y in s { n.extend(self.assume(y, x)); } s = n; } s }
            C::Or(v) => {
                // disjoint cases: not earlier ones
                let mut out = vec![];
                let mut rest = vec![st];
                for x in v {
                    let mut next = vec![];
                    for y in rest { out.extend(self.assume(y.clone(), x)); next.extend(self.assume(y, &x.not())); }
                    rest = next;
                }
                out
            }
        }
    }
    /// A constant table column with strictly increasing entries: entry `i` compared with `b` places `i` relative to
    /// lb(b) = number of entries below b and ub(b) = number of entries not above b.
    fn lookup(&self, st: &mut St, e: &Lin, eq: bool) {
        self.lookup_const(st, e);
        if eq { self.lookup_const(st, &e.neg()); }
        for (s, c) in &e.t {
            if c.abs() != 1 { continue; }
            let Def::App(f, a) = def(*s) else { continue };
            if !f.starts_with("sel") || a.len() != 1 { continue; }
            let Some(tab) = sel_sorted(&f) else { continue };
            // s - o >= 0 (c = 1), o - s >= 0 (c = -1)
            let o = Lin::s(*s).axpy(-c, e);
            if o.t.iter().any(|(t, _)| t == s) { continue; }
            let k = if o.t.is_empty() { 0 } else { o.k };
            if k.abs() > 1 { continue; }
            let (lb, ub) = bounds_in(st, &f, &tab, &o.addk(-k));
            if eq { if k == 0 { st.st.add_eq(&a[0].sub(&lb)); st.st.add_eq(&ub.sub(&lb).addk(-1)); } continue; }
            if *c == 1 { let at = match k { 0 => Some(&lb), 1 => Some(&ub), _ => None }; if let Some(l) = at { st.st.add_ge(&a[0].sub(l)); } }
            if *c == -1 { let at = match k { 0 => Some(&ub), -1 => Some(&lb), _ => None }; if let Some(l) = at { st.st.add_ge(&l.sub(&a[0]).addk(-1)); } }
        }
    }
    /// an entry that differs from a key known to be in the column is not where the key is
    fn lookup_ne(&self, st: &mut St, e: &Lin) {
        for (s, c) in &e.t {
            if c.abs() != 1 { continue; }
            let Def::App(f, a) = def(*s) else { continue };
            if !f.starts_with("sel") || a.len() != 1 { continue; }
            let Some(tab) = sel_sorted(&f) else { continue };
            let o = Lin::s(*s).axpy(-c, e);
            if o.t.iter().any(|(t, _)| t == s) { continue; }
            let (lb, ub) = bounds_in(st, &f, &tab, &o);
            if st.st.prove_ge(&ub.sub(&lb).addk(-1)) { st.st.add_ne(&a[0].sub(&lb)); }
        }
    }
    /// a key bounded by a constant has a bounded place in the columns it is looked up in
    fn lookup_const(&self, st: &mut St, e: &Lin) {
        let e = st.norm(e);
        let hit = |t: &S| -> Option<(Rc<str>, Lin)> { let Def::App(g, a) = def(*t) else { return None }; if g.starts_with("lbsel") && a.len() == 1 { let b = st.norm(&a[0]); if b.t.is_empty() || b.t == e.t || b.neg().t == e.t { return Some((g, a[0].clone())); } } None };
        let mut at: Vec<(Rc<str>, Lin)> = st.st.eq.iter().flat_map(|(k, e)| std::iter::once(k).chain(e.t.iter().map(|t| &t.0))).chain(st.st.ge.iter().flat_map(|e| e.t.iter().map(|t| &t.0))).filter_map(hit).collect();
        at.sort(); at.dedup();
        for (g, b) in at {
            let Some(tab) = sel_sorted(&g[2..]) else { continue };
            let (lb, ub) = bounds_in(st, &g[2..], &tab, &b);
            if ub.is_c().is_some() { st.st.add_eq(&app(&g, vec![b.clone()], 0, tab.len() as i128).sub(&lb)); st.st.add_eq(&app(&format!("in{}", &g[2..]), vec![b], 0, 1).add(&lb).sub(&ub)); }
        }
    }
    /// congruence closure: loads and applications whose arguments became equal are equal
    pub fn congr(&self, st: &mut St) {
        for _ in 0..4 {
            if st.st.dead { return; }
            let mut syms: BTreeSet<S> = BTreeSet::new();
            for e in st.st.ge.iter().chain(st.st.ne.iter()) { for (s, _) in &e.t { syms.insert(*s); } }
            for (s, e) in st.st.eq.iter() { syms.insert(*s); for (s, _) in &e.t { syms.insert(*s); } }
            // keys looked up in constant tables
            for s in syms.clone() { if let Def::App(f, a) = def(s) { if f.starts_with("lbsel") { for (t, _) in &a[0].t { syms.insert(*t); } } } }
            let mut m: HashMap<Def, S> = HashMap::new();
            let mut add = vec![];
            for s in syms {
                let d = match def(s) {
                    Def::Load { reg, ver, off, w, en } => Def::Load { reg, ver, off: st.st.norm(&off), w, en },
                    Def::Div(e, k) => Def::Div(st.st.norm(&e), k),
                    Def::App(f, a) => Def::App(f, a.iter().map(|x| st.st.norm(x)).collect()),
                    _ => continue,
                };
                if let Def::App(f, a) = &d { if let (1, Some(k)) = (a.len(), a[0].is_c()) { if let Some(v) = sel_at(f, k) { let e = Lin::s(s).addk(-v); if st.st.norm(&e) != Lin::c(0) { add.push(e); } continue; } } }
                match m.get(&d) { Some(t) => { let e = Lin::s(*t).sub(&Lin::s(s)); if st.st.norm(&e) != Lin::c(0) { add.push(e); } } None => { m.insert(d, s); } }
            }
            if add.is_empty() { return; }
            for e in add { st.st.add_eq(&e); }
        }
    }
    /// symbols for `e` and congruent existing ones are linked (used before a failing proof is reported)
    pub fn link(&self, st: &mut St, es: &[Lin]) {
        let mut syms: BTreeSet<S> = BTreeSet::new();
        fn collect(e: &Lin, syms: &mut BTreeSet<S>) { for (s, _) in &e.t { if syms.insert(*s) { match def(*s) { Def::Load { off, .. } => collect(&off, syms), Def::Div(x, _) => collect(&x, syms), Def::App(_, a) => for x in &a { collect(x, syms) }, _ => {} } } } }
        for e in es { collect(e, &mut syms); }
        for e in st.st.ge.iter().chain(st.st.ne.iter()) { collect(e, &mut syms); }
        for (s, e) in st.st.eq.clone().iter() { collect(&Lin::s(*s), &mut syms); collect(e, &mut syms); }
        for _ in 0..5 {
            let mut m: HashMap<Def, S> = HashMap::new();
            let mut add = vec![];
            for s in &syms {
                let d = match def(*s) {
                    Def::Load { reg, ver, off, w, en } => Def::Load { reg, ver, off: st.st.norm(&off), w, en },
                    Def::Div(e, k) => { let n = st.st.norm(&e); let c = crate::sym::div(&n, k); if c.t.len() != 1 || c.k != 0 || c.t[0].1 != 1 || c.t[0].0 != *s { let x = c.sub(&Lin::s(*s)); if st.st.norm(&x) != Lin::c(0) { add.push(x); } } Def::Div(n, k) }
                    Def::App(f, a) => Def::App(f, a.iter().map(|x| st.st.norm(x)).collect()),
                    _ => continue,
                };
                match m.get(&d) { Some(t) => { let e = Lin::s(*t).sub(&Lin::s(*s)); if st.st.norm(&e) != Lin::c(0) { add.push(e); } } None => { m.insert(d, *s); } }
            }
            if add.is_empty() { return; }
            for e in add { st.st.add_eq(&e); if st.st.dead { return; } }
        }
    }
    pub fn cond_lins(c: &C, out: &mut Vec<Lin>) { match c { C::B(_) => {} C::Ge(e) | C::Eq(e) | C::Ne(e) => out.push(e.clone()), C::And(v) | C::Or(v) => for x in v { X::cond_lins(x, out) } } }

    // ---------- memory ----------
    pub fn load_bytes(&self, st: &St, r: u32, off: &Lin, ty: Ty) -> V {
        let off = st.norm(off);
        if let Some((bits, signed)) = int_ty(ty) {
            if is_bool(ty) { return V::Undef; }
            let w = (if matches!(ty.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)) | TyKind::RigidTy(RigidTy::Int(IntTy::Isize))) { 64 } else { bits } / 8) as u8;
            let e = crate::models::mem_load(r, st.ver(r), &off, w, En::Native);
            if signed { return V::Int(app("sext", vec![e, Lin::c(bits as i128)], bounds(bits, true).0, bounds(bits, true).1)); }
            return V::Int(e);
        }
        if size_of(ty) == Some(0) { return unit(); }
        V::Bytes(r, off, ty)
    }
    pub fn field_of(&self, st: &St, v: &V, e: &Pe) -> V {
        match (v, e) {
            (V::Agg(_, f), Pe::F(i)) => f.get(*i as usize).cloned().unwrap_or(V::Undef),
            (V::Agg(_, f), Pe::I(l)) => {
                let l = st.norm(l);
                if let Some(k) = l.is_c() { return f.get(k as usize).cloned().unwrap_or(V::Undef); }
                self.select(st, f, &l)
            }
            (V::Bytes(r, off, ty), Pe::F(i)) => match (field_tys(*ty, 0), field_off(*ty, *i as usize)) {
                (Some(fs), Some(o)) if (*i as usize) < fs.len() => self.load_bytes(st, *r, &off.addk(o as i128), fs[*i as usize]),
                _ => V::Undef,
            },
            (V::Bytes(r, off, ty), Pe::I(l)) => match elem_ty(*ty) { Some(t) => { let sz = size_of(t).unwrap_or(1) as i128; self.load_bytes(st, *r, &off.axpy(sz, l), t) } None => V::Undef },
            (V::Top(ty, id), Pe::F(i)) => match field_tys(*ty, 0) { Some(fs) if (*i as usize) < fs.len() && !ty.kind().is_enum() => top(fs[*i as usize], &id_child(&format!("f{i}"), id)), _ => V::Undef },
            (V::Top(ty, id), Pe::I(l)) => { let t = elem_ty(*ty).unwrap_or(*ty); top(t, &app("el", vec![id.clone(), st.norm(l)], -BIG, BIG)) }
            _ => V::Undef,
        }
    }
    fn select(&self, st: &St, f: &[V], l: &Lin) -> V {
        if f.is_empty() { return V::Undef; }
        if f.iter().all(|x| *x == f[0]) { return f[0].clone(); }
        match &f[0] {
            V::Int(_) => {
                let mut ks = vec![];
                for x in f { match x { V::Int(e) => match e.is_c() { Some(k) => ks.push(k), None => return V::Int(app("selv", std::iter::once(l.clone()).chain(f.iter().map(|x| if let V::Int(e) = x { e.clone() } else { Lin::c(0) })).collect(), -BIG, BIG)) }, _ => return V::Undef } }
                let (lo, hi) = (*ks.iter().min().unwrap(), *ks.iter().max().unwrap());
                V::Int(app(&sel_name(&ks), vec![l.clone()], lo, hi))
            }
            V::Agg(n, g) => {
                if !f.iter().all(|x| matches!(x, V::Agg(m, h) if m == n && h.len() == g.len())) { return V::Undef; }
                let mut o = vec![];
                for i in 0..g.len() { let col: Vec<V> = f.iter().map(|x| if let V::Agg(_, h) = x { h[i].clone() } else { V::Undef }).collect(); o.push(self.select(st, &col, l)); }
                V::Agg(*n, Rc::new(o))
            }
            _ => V::Undef,
        }
    }
    pub fn read(&self, st: &St, p: &P, ty: Ty) -> V {
        match p {
            P::Obj(o, path) => {
                let mut v = st.obj(*o);
                // avoid materialising whole tables on symbolic indexing: walk lazily
                let mut i = 0;
                while i < path.len() {
                    if let (V::Agg(_, f), Pe::I(l)) = (&v.clone(), &path[i]) {
                        let l2 = st.norm(l);
                        if l2.is_c().is_none() && i + 1 < path.len() {
                            let col: Vec<V> = f.iter().map(|x| self.field_of(st, x, &path[i + 1])).collect();
                            let w = self.select(st, &col, &l2);
                            v = w;
                            i += 2;
                            continue;
                        }
                    }
                    v = self.field_of(st, &v, &path[i]);
                    i += 1;
                }
                v
            }
            P::Reg(r, off) => self.load_bytes(st, *r, off, ty),
            P::Int(_) => if size_of(ty) == Some(0) { unit() } else { V::Undef },
        }
    }
    pub fn write(&mut self, st: &mut St, p: &P, val: V, ty: Ty) {
        match p {
            P::Obj(o, path) => {
                if path.is_empty() { st.objs.insert(*o, val); return; }
                let mut root = st.obj(*o);
                let mut path2 = path.clone();
                for e in path2.iter_mut() { if let Pe::I(l) = e { *l = st.norm(l); } }
                self.write_in(st, &mut root, &path2, val);
                st.objs.insert(*o, root);
            }
            P::Reg(r, off) => crate::models::region_write(self, st, *r, off, &val, ty),
            P::Int(_) => {}
        }
    }
    fn write_in(&self, st: &St, v: &mut V, path: &[Pe], val: V) {
        if path.is_empty() { *v = val; return; }
        if !matches!(v, V::Agg(..)) {
            let n = match &*v {
                V::Bytes(_, _, t) | V::Top(t, _) => match field_tys(*t, 0) { Some(f) => f.len(), None => array_len(*t).unwrap_or(0) as usize },
                _ => 0,
            };
            let e: Vec<V> = (0..n).map(|i| self.field_of(st, v, &if elem_ty(match &*v { V::Bytes(_, _, t) | V::Top(t, _) => *t, _ => unreachable!() }).is_some() { Pe::I(Lin::c(i as i128)) } else { Pe::F(i as u32) })).collect();
            *v = agg(e);
        }
        if let V::Agg(_, f) = v {
            let f = Rc::make_mut(f);
            let i = match &path[0] { Pe::F(i) => *i as usize, Pe::I(l) => match l.is_c() { Some(k) => k as usize, None => { for x in f.iter_mut() { *x = V::Undef; } return; } } };
            if i > 4096 { return; }
            while f.len() <= i { f.push(V::Undef); }
            self.write_in(st, &mut f[i], &path[1..], val);
        }
    }

    // ---------- places ----------
    pub fn place(&self, fr: &Frame, st: &St, p: &Place) -> (P, Option<V>, Ty) {
        let mut ptr = P::Obj(fr.base + p.local as u32, vec![]);
        let mut meta: Option<V> = None;
        let mut ty = fr.f.body.locals()[p.local].ty;
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let v = self.read(st, &ptr, ty);
                    ty = deref_ty(ty).unwrap_or(ty);
                    match v {
                        V::Ref(q) => { ptr = q; meta = None; }
                        V::Fat(q, m) => { ptr = q; meta = Some((*m).clone()); }
                        _ => { ptr = P::Int(fresh("wild", 0, usize_max())); meta = if is_unsized(ty) { Some(V::Int(fresh("wildlen", 0, isize_max()))) } else { None }; }
                    }
                }
                ProjectionElem::Field(i, t) => {
                    match &mut ptr {
                        P::Obj(_, path) => path.push(Pe::F(*i as u32)),
                        P::Reg(_, off) => *off = off.addk(field_off(ty, *i).unwrap_or(0) as i128),
                        P::Int(_) => {}
                    }
                    ty = *t;
                    if !is_unsized(ty) { meta = None; }
                }
                ProjectionElem::Index(l) => {
                    let i = match st.obj(fr.base + *l as u32) { V::Int(e) => e, _ => fresh("idx", 0, usize_max()) };
                    let arr = array_len(ty).is_some();
                    ty = elem_ty(ty).unwrap_or(ty);
                    ptr = elem_ptr(&ptr, &st.norm(&i), ty, arr);
                    meta = None;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if *from_end {
                        let n = match array_len(ty) { Some(n) => Lin::c(n as i128), None => match &meta { Some(V::Int(e)) => e.clone(), _ => fresh("len", 0, isize_max()) } };
                        n.addk(-(*offset as i128))
                    } else { Lin::c(*offset as i128) };
                    let arr = array_len(ty).is_some();
                    ty = elem_ty(ty).unwrap_or(ty);
                    ptr = elem_ptr(&ptr, &i, ty, arr);
                    meta = None;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = match array_len(ty) { Some(n) => Lin::c(n as i128), None => match &meta { Some(V::Int(e)) => e.clone(), _ => fresh("len", 0, isize_max()) } };
                    let arr = array_len(ty).is_some();
                    let et = elem_ty(ty).unwrap_or(ty);
                    ptr = elem_ptr(&ptr, &Lin::c(*from as i128), et, arr);
                    let end = if *from_end { n.addk(-(*to as i128)) } else { Lin::c(*to as i128) };
                    let len = end.addk(-(*from as i128));
                    if arr { ty = Ty::try_new_array(et, len.is_c().unwrap_or(0) as u64).unwrap_or(ty); meta = None; if let P::Obj(_, path) = &mut ptr { if let Some(Pe::I(l)) = path.last() { if l.is_c() == Some(0) { path.pop(); } } } } else { meta = Some(V::Int(len)); }
                }
                ProjectionElem::Downcast(_) | ProjectionElem::OpaqueCast(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        (ptr, meta, ty)
    }
    /// a moved-from place is uninitialised
    fn moved(&mut self, fr: &Frame, st: &mut St, p: &Place) {
        if p.projection.is_empty() { st.objs.remove(&(fr.base + p.local as u32)); return; }
        let mut path = vec![];
        for e in &p.projection { match e { ProjectionElem::Field(i, _) => path.push(Pe::F(*i as u32)), ProjectionElem::Downcast(_) => {} _ => return } }
        let Some(mut root) = st.objs.get(&(fr.base + p.local as u32)).cloned() else { return };
        // only inside plain aggregates
        { let mut v = &root; for e in &path { let V::Agg(_, f) = v else { return }; let Pe::F(i) = e else { return }; match f.get(*i as usize) { Some(x) => v = x, None => return } } if matches!(v, V::Undef) { return; } }
        self.write_in(st, &mut root, &path, V::Undef);
        st.objs.insert(fr.base + p.local as u32, root);
    }
    pub fn operand(&mut self, fr: &Frame, st: &St, o: &Operand) -> (V, Ty) {
        match o {
            Operand::Copy(p) | Operand::Move(p) => { let (q, _, t) = self.place(fr, st, p); (self.read(st, &q, t), t) }
            Operand::Constant(c) => { let ty = c.const_.ty(); (self.constant(&c.const_), ty) }
            Operand::RuntimeChecks(_) => (V::Bool(C::B(false)), Ty::bool_ty()),
        }
    }
    pub fn constant(&mut self, c: &MirConst) -> V {
        match c.kind() {
            ConstantKind::Allocated(a) => decode(a, 0, c.ty()),
            ConstantKind::ZeroSized => unit(),
            ConstantKind::Ty(t) => match t.kind() { TyConstKind::Value(ty, a) => decode(a, 0, *ty), _ => match t.eval_target_usize() { Ok(n) => num(n as i128), Err(_) => unit() } },
            _ => V::Undef,
        }
    }

    // ---------- arithmetic ----------
    pub fn wrap(&self, st: St, e: &Lin, bits: u32, signed: bool) -> Vec<(St, Lin)> {
        let (lo, hi) = bounds(bits, signed);
        let e = st.norm(e);
        let m = 1i128 << bits.min(120);
        if st.st.prove_ge(&e.addk(-lo)) && st.st.prove_ge(&e.neg().addk(hi)) { return vec![(st, e)]; }
        let (il, ih) = e.interval();
        let (mut kl, mut kh) = ((il - lo).div_euclid(m), (ih - lo).div_euclid(m));
        if kh - kl > 3 {
            // try to sharpen with the store
            let mut k = -2i128; let mut fl = None; while k <= 2 { if st.st.prove_ge(&e.addk(-lo - k * m)) { fl = Some(k); } k += 1; }
            let mut fh = None; let mut k = 2i128; while k >= -2 { if st.st.prove_ge(&e.neg().addk(hi + k * m)) { fh = Some(k); } k -= 1; }
            match (fl, fh) { (Some(a), Some(b)) => { kl = a; kh = b; } _ => { let r = app("wrap", vec![e, Lin::c(bits as i128), Lin::c(signed as i128)], lo, hi); return vec![(st, r)]; } }
        }
        let mut out = vec![];
        for k in kl..=kh {
            let r = e.addk(-k * m);
            for s in self.assume(st.clone(), &C::Ge(r.addk(-lo))) { for s2 in self.assume(s, &C::Ge(r.neg().addk(hi))) { out.push((s2, r.clone())); } }
        }
        out
    }
    pub fn as_int(&self, st: &St, v: &V) -> Option<Lin> {
        match v {
            V::Int(e) => Some(st.norm(e)),
            V::Bool(c) => match self.decide(st, c) { Some(b) => Some(Lin::c(b as i128)), None => match c { C::Eq(e) if e.t.len() == 1 && e.t[0].1 == 1 && e.k == -1 && range(e.t[0].0) == (0, 1) => Some(Lin::s(e.t[0].0)), _ => None } },
            V::Agg(_, f) if f.len() == 1 => self.as_int(st, &f[0]),
            _ => None,
        }
    }
    /// value as an integer, forking on undetermined booleans
    pub fn to_int(&self, st: St, v: &V, ty: Ty) -> Vec<(St, Lin)> {
        if let Some(e) = self.as_int(&st, v) { return vec![(st, e)]; }
        if let V::Bool(c) = v {
            let mut o = vec![];
            for s in self.assume(st.clone(), c) { o.push((s, Lin::c(1))); }
            for s in self.assume(st, &c.not()) { o.push((s, Lin::c(0))); }
            return o;
        }
        let (l, h) = ty_bounds(ty);
        vec![(st, fresh("unk", l, h))]
    }
    pub fn addr(&self, st: &St, p: &P) -> Lin {
        match p {
            P::Reg(r, off) => region(*r).base.add(&st.norm(off)),
            P::Int(l) => l.clone(),
            P::Obj(o, path) => {
                let mut args = vec![Lin::c(*o as i128)];
                for e in path { match e { Pe::F(i) => args.push(Lin::c(1000 + *i as i128)), Pe::I(l) => args.push(l.clone()) } }
                app("addr", args, 1, isize_max())
            }
        }
    }
    /// arithmetic op on exact integers: exact value (not wrapped) or an opaque one
    fn exact(&self, st: &St, op: BinOp, a: &Lin, b: &Lin, bits: u32) -> Option<Lin> {
        let c = |x: &Lin| x.is_c();
        match op {
            BinOp::Add | BinOp::AddUnchecked => Some(a.add(b)),
            BinOp::Sub | BinOp::SubUnchecked => Some(a.sub(b)),
            BinOp::Mul | BinOp::MulUnchecked => {
                if let Some(k) = c(a) { return Some(b.mul(k)); }
                if let Some(k) = c(b) { return Some(a.mul(k)); }
                let (al, ah) = a.interval(); let (bl, bh) = b.interval();
                let cs = [al.saturating_mul(bl), al.saturating_mul(bh), ah.saturating_mul(bl), ah.saturating_mul(bh)];
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                Some(app("mul", vec![a.clone(), b.clone()], *cs.iter().min().unwrap(), *cs.iter().max().unwrap()))
            }
            BinOp::Shl | BinOp::ShlUnchecked => { let k = c(b)?.rem_euclid(bits as i128) as u32; if k > 100 { return None; } Some(a.mul(1i128 << k)) }
            BinOp::Shr | BinOp::ShrUnchecked => { let k = c(b)?.rem_euclid(bits as i128) as u32; if k > 100 { return None; } Some(crate::sym::div(a, 1i128 << k)) }
            BinOp::Div => {
                let k = match c(b) { Some(k) => k, None => {
                    if st.st.prove_ge(a) && st.st.prove_ge(&b.addk(-1)) { let q = app("divv", vec![a.clone(), b.clone()], 0, a.interval().1.max(0)); return Some(q); }
                    return None;
                } };
                if k > 0 && st.st.prove_ge(a) { Some(crate::sym::div(a, k)) } else { None }
            }
            BinOp::Rem => {
                let k = match c(b) { Some(k) => k, None => { if st.st.prove_ge(a) && st.st.prove_ge(&b.addk(-1)) { return Some(app("remv", vec![a.clone(), b.clone()], 0, b.interval().1)); } return None; } };
                if k > 0 && st.st.prove_ge(a) { Some(crate::sym::rem(a, k)) } else { None }
            }
            BinOp::BitAnd => {
                if let (Some(x), Some(y)) = (c(a), c(b)) { return Some(Lin::c(x & y)); }
                let nn = |x: &Lin| st.st.prove_ge(x);
                if let Some(k) = c(b) { if k >= 0 && nn(a) { return Some(self.mask_in(st, a, k, bits)); } }
                if let Some(k) = c(a) { if k >= 0 && nn(b) { return Some(self.mask_in(st, b, k, bits)); } }
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                if nn(a) && nn(b) { return Some(app("and", vec![a.clone(), b.clone()], 0, a.interval().1.min(b.interval().1))); }
                None
            }
            BinOp::BitOr => {
                if let (Some(x), Some(y)) = (c(a), c(b)) { return Some(Lin::c(x | y)); }
                if c(a) == Some(0) { return Some(b.clone()); }
                if c(b) == Some(0) { return Some(a.clone()); }
                for (x, y) in [(a, b), (b, a)] {
                    // x a multiple of 2^t, 0 <= y < 2^t
                    let mut g = x.gcd(); if g == 0 { g = x.k.abs(); } else if x.k != 0 { g = gcd2(g, x.k.abs()); }
                    let t = g.trailing_zeros();
                    if t > 0 && t < 100 && st.st.prove_ge(y) && st.st.prove_ge(&y.neg().addk((1i128 << t) - 1)) && st.st.prove_ge(x) { return Some(a.add(b)); }
                }
                if st.st.prove_ge(a) && st.st.prove_ge(b) { let (a, b) = if a <= b { (a, b) } else { (b, a) }; return Some(app("or", vec![a.clone(), b.clone()], 0, bounds(bits, false).1)); }
                None
            }
            BinOp::BitXor => {
                if let (Some(x), Some(y)) = (c(a), c(b)) { return Some(Lin::c(x ^ y)); }
                if c(a) == Some(0) { return Some(b.clone()); }
                if c(b) == Some(0) { return Some(a.clone()); }
                if st.st.prove_ge(a) && st.st.prove_ge(b) {
                    // flatten
                    let mut v = vec![];
                    let mut k = 0i128;
                    for x in [a, b] {
                        let x = x.clone();
                        if let Some(n) = x.is_c() { k ^= n; continue; }
                        if x.k == 0 && x.t.len() == 1 && x.t[0].1 == 1 { if let Def::App(f, args) = def(x.t[0].0) { if &*f == "xor" { for y in args { if let Some(n) = y.is_c() { k ^= n } else { v.push(y) } } continue; } } }
                        v.push(x);
                    }
                    v.sort();
                    let mut w: Vec<Lin> = vec![];
                    for x in v { if w.last() == Some(&x) { w.pop(); } else { w.push(x); } }
                    if k != 0 { w.push(Lin::c(k)); }
                    if w.is_empty() { return Some(Lin::c(0)); }
                    if w.len() == 1 { return Some(w[0].clone()); }
                    return Some(app("xor", w, 0, bounds(bits, false).1));
                }
                None
            }
            _ => None,
        }
    }
    fn mask_in(&self, st: &St, a: &Lin, m: i128, bits: u32) -> Lin {
        // drop mask bits above the known size of a
        let mut hb = bits.min(100);
        let (_, hi) = a.interval();
        while hb > 0 && hi < (1i128 << (hb - 1)) { hb -= 1; }
        let full = (1i128 << hb) - 1;
        let _ = st;
        if m & full == full { return a.clone(); }
        crate::sym::mask(a, m & full)
    }
    pub fn binop(&self, st: St, op: BinOp, a: &V, b: &V, ty: Ty, checked: bool) -> Vec<(St, V)> {
        use BinOp::*;
        if matches!(op, Eq | Ne | Lt | Le | Gt | Ge | Cmp) { return self.compare(st, op, a, b, ty); }
        if is_bool(ty) && matches!(op, BitAnd | BitOr | BitXor) {
            let ca = self.as_cond(&st, a); let cb = self.as_cond(&st, b);
            return match op {
                BitAnd => vec![(st, V::Bool(mk_and(ca, cb)))],
                BitOr => vec![(st, V::Bool(mk_and(ca.not(), cb.not()).not()))],
                _ => { let mut o = vec![]; for s in self.assume(st.clone(), &ca) { o.push((s, V::Bool(cb.not()))); } for s in self.assume(st, &ca.not()) { o.push((s, V::Bool(cb.clone()))); } o }
            };
        }
        if op == Offset {
            if let (V::Ref(p), V::Int(n)) = (a, b) { let t = deref_ty(ty).unwrap_or(ty); let q = elem_ptr(p, n, t, false); return vec![(st, V::Ref(q))]; }
            return vec![(st, V::Undef)];
        }
        let (bits, signed) = int_ty(ty).unwrap_or((64, false));
        let mut out = vec![];
        for (s, x) in self.to_int(st, a, ty) { for (s, y) in self.to_int(s, b, ty) {
            let (lo, hi) = bounds(bits, signed);
            match self.exact(&s, op, &x, &y, bits) {
                None => {
                    // signed division by a positive constant: split on the sign
                    if matches!(op, Div | Rem | Shr) && signed {
                        if let Some(k) = y.is_c() { if k > 0 && op != Shr {
                            for s2 in self.assume(s.clone(), &C::Ge(x.clone())) { let r = if op == Div { crate::sym::div(&x, k) } else { crate::sym::rem(&x, k) }; out.push((s2, pack(r, checked))); }
                            for s2 in self.assume(s.clone(), &C::Ge(x.neg().addk(-1))) { let r = if op == Div { crate::sym::div(&x.neg(), k).neg() } else { crate::sym::rem(&x.neg(), k).neg() }; out.push((s2, pack(r, checked))); }
                            continue;
                        } }
                    }
                    let r = app(&format!("op{op:?}"), vec![x.clone(), y.clone(), Lin::c(bits as i128)], lo, hi);
                    out.push((s, pack(r, checked)));
                }
                Some(e) => {
                    if checked {
                        let e = s.norm(&e);
                        let ov = if matches!(op, Shl | Shr) { C::B(false) } else { mk_and(C::Ge(e.addk(-lo)), C::Ge(e.neg().addk(hi))).not() };
                        match self.decide(&s, &ov) {
                            Some(b) => { if b { let r = app("ovf", vec![e], lo, hi); out.push((s, agg(vec![V::Int(r), V::Bool(C::B(true))]))); } else { out.push((s, agg(vec![V::Int(e), V::Bool(C::B(false))]))); } }
                            None => {
                                for s2 in self.assume(s.clone(), &ov.not()) { out.push((s2, agg(vec![V::Int(e.clone()), V::Bool(C::B(false))]))); }
                                for s2 in self.assume(s, &ov) { for (s3, w) in self.wrap(s2, &e, bits, signed) { out.push((s3, agg(vec![V::Int(w), V::Bool(C::B(true))]))); } }
                            }
                        }
                    } else if matches!(op, AddUnchecked | SubUnchecked | MulUnchecked) { out.push((s, V::Int(e))); }
                    else { for (s2, w) in self.wrap(s, &e, bits, signed) { out.push((s2, V::Int(w))); } }
                }
            }
        } }
        out
    }
    pub fn as_cond(&self, st: &St, v: &V) -> C {
        match v {
            V::Bool(c) => c.clone(),
            V::Int(e) => C::Ne(st.norm(e)),
            _ => C::Eq(fresh("unkb", 0, 1).addk(-1)),
        }
    }
    pub fn compare(&self, st: St, op: BinOp, a: &V, b: &V, ty: Ty) -> Vec<(St, V)> {
        use BinOp::*;
        // pointers
        let pa = match a { V::Ref(p) | V::Fat(p, _) => Some(p.clone()), _ => None };
        let pb = match b { V::Ref(p) | V::Fat(p, _) => Some(p.clone()), _ => None };
        if let (Some(x), Some(y)) = (&pa, &pb) {
            let same = match (x, y) { (P::Obj(o, p), P::Obj(q, r)) => if o == q && p == r { Some(true) } else if o != q { Some(false) } else { None }, (P::Reg(r, _), P::Reg(q, _)) if r != q => Some(false), (P::Obj(..), P::Reg(..)) | (P::Reg(..), P::Obj(..)) => Some(false), _ => None };
            if let (Some(s), Eq | Ne) = (same, op) {
                // fat pointers also compare their metadata
                if s { if let (V::Fat(_, m), V::Fat(_, n)) = (a, b) { if let (V::Int(m), V::Int(n)) = (&**m, &**n) { let c = C::eq(m, n); return vec![(st, V::Bool(if op == Eq { c } else { c.not() }))]; } } }
                return vec![(st, V::Bool(C::B(s == (op == Eq))))];
            }
            let (ea, eb) = (self.addr(&st, x), self.addr(&st, y));
            return self.compare(st, op, &V::Int(ea), &V::Int(eb), Ty::usize_ty());
        }
        if let V::Fn(x) = a { if let V::Fn(y) = b { return vec![(st, V::Bool(C::B((x == y) == (op == Eq))))]; } }
        if is_bool(ty) && matches!(op, Eq | Ne) {
            let (ca, cb) = (self.as_cond(&st, a), self.as_cond(&st, b));
            if let C::B(k) = cb { let c = if k == (op == Eq) { ca } else { ca.not() }; return vec![(st, V::Bool(c))]; }
            if let C::B(k) = ca { let c = if k == (op == Eq) { cb } else { cb.not() }; return vec![(st, V::Bool(c))]; }
            let mut o = vec![];
            for s in self.assume(st.clone(), &ca) { o.push((s, V::Bool(if op == Eq { cb.clone() } else { cb.not() }))); }
            for s in self.assume(st, &ca.not()) { o.push((s, V::Bool(if op == Eq { cb.not() } else { cb.clone() }))); }
            return o;
        }
        let mut out = vec![];
        for (s, x) in self.to_int(st, a, ty) { for (s, y) in self.to_int(s, b, ty) {
            let c = match op { Eq => C::eq(&x, &y), Ne => C::eq(&x, &y).not(), Lt => C::lt(&x, &y), Le => C::le(&x, &y), Gt => C::lt(&y, &x), Ge => C::le(&y, &x),
                _ => {
                    for s2 in self.assume(s.clone(), &C::lt(&x, &y)) { out.push((s2, var(0, vec![]))); }
                    for s2 in self.assume(s.clone(), &C::eq(&x, &y)) { out.push((s2, var(1, vec![]))); }
                    for s2 in self.assume(s, &C::lt(&y, &x)) { out.push((s2, var(2, vec![]))); }
                    continue;
                } };
            let c = match self.decide(&s, &c) { Some(b) => C::B(b), None => c };
            out.push((s, V::Bool(c)));
        } }
        out
    }

    pub fn cast(&mut self, st: St, k: &CastKind, v: V, from: Ty, to: Ty) -> Outs {
        match k {
            CastKind::IntToInt => {
                let (bits, signed) = int_ty(to).unwrap_or((64, false));
                let mut out = vec![];
                for (s, e) in self.to_int(st, &v, from) { for (s, w) in self.wrap(s, &e, bits, signed) { out.push((s, V::Int(w))); } }
                out
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::PointerCoercion(PointerCoercion::MutToConstPointer) | CastKind::Subtype | CastKind::PointerCoercion(PointerCoercion::UnsafeFnPointer) => {
                let (ft, tt) = (deref_ty(from), deref_ty(to));
                if let (Some(ft), Some(tt)) = (ft, tt) {
                    let thin = !is_unsized(tt);
                    match v {
                        V::Fat(p, m) => { if thin { return vec![(st, V::Ref(p))]; } return vec![(st, V::Fat(p, m))]; }
                        V::Ref(p) => {
                            if array_len(ft).is_some() && elem_ty(ft) == Some(tt) { if let P::Obj(o, mut path) = p { path.push(Pe::I(Lin::c(0))); return vec![(st, V::Ref(P::Obj(o, path)))]; } }
                            return vec![(st, V::Ref(p))];
                        }
                        x => return vec![(st, x)],
                    }
                }
                vec![(st, v)]
            }
            CastKind::PointerCoercion(PointerCoercion::ArrayToPointer) => {
                if let V::Ref(P::Obj(o, mut path)) = v { path.push(Pe::I(Lin::c(0))); return vec![(st, V::Ref(P::Obj(o, path)))]; }
                vec![(st, v)]
            }
            CastKind::PointerExposeAddress => { let e = match &v { V::Ref(p) | V::Fat(p, _) => self.addr(&st, p), _ => fresh("addr", 0, usize_max()) }; vec![(st, V::Int(e))] }
            CastKind::PointerWithExposedProvenance => { let e = self.as_int(&st, &v).unwrap_or_else(|| fresh("addr", 0, usize_max())); vec![(st, V::Ref(P::Int(e)))] }
            CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                let (ft, tt) = (deref_ty(from), deref_ty(to));
                if let (Some(ft), Some(tt)) = (ft, tt) {
                    if let (Some(n), V::Ref(p)) = (array_len(ft), &v) { if elem_ty(tt).is_some() {
                        let mut p = p.clone();
                        if let P::Obj(_, path) = &mut p { path.push(Pe::I(Lin::c(0))); }
                        return vec![(st, V::Fat(p, Rc::new(num(n as i128))))];
                    } }
                    if let V::Ref(p) = &v { return vec![(st, V::Fat(p.clone(), Rc::new(V::Top(ft, Lin::c(0)))))]; }
                }
                vec![(st, v)]
            }
            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = from.kind() { if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) { return vec![(st, V::Fn(i))]; } }
                vec![(st, V::Undef)]
            }
            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                if let TyKind::RigidTy(RigidTy::Closure(d, a)) = from.kind() { if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { return vec![(st, V::Fn(i))]; } }
                vec![(st, V::Undef)]
            }
            CastKind::Transmute | CastKind::BoxDerefTransmute => crate::models::transmute_outs(self, &st, v, from, to),
            _ => vec![(st, top(to, &fresh("castf", -BIG, BIG)))],
        }
    }

    pub fn rvalue(&mut self, fr: &Frame, st: St, r: &Rvalue, dty: Ty) -> Outs {
        match r {
            Rvalue::Use(o, _) => { let (v, _) = self.operand(fr, &st, o); vec![(st, v)] }
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => { let (q, _, t) = self.place(fr, &st, p); let v = self.read(&st, &q, t); vec![(st, v)] }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => {
                let (q, m, _) = self.place(fr, &st, p);
                let v = match m { Some(m) => V::Fat(q, Rc::new(m)), None => V::Ref(q) };
                vec![(st, v)]
            }
            Rvalue::Len(p) => {
                let (_, m, t) = self.place(fr, &st, p);
                let v = match array_len(t) { Some(n) => num(n as i128), None => m.unwrap_or(V::Undef) };
                vec![(st, v)]
            }
            Rvalue::Repeat(o, n) => {
                let (v, _) = self.operand(fr, &st, o);
                let n = n.eval_target_usize().unwrap_or(0);
                let v = if n <= 8192 { agg(vec![v; n as usize]) } else { V::Undef };
                vec![(st, v)]
            }
            Rvalue::Aggregate(k, ops) => {
                let vs: Vec<V> = ops.iter().map(|o| self.operand(fr, &st, o).0).collect();
                let v = match k {
                    AggregateKind::Adt(d, vi, _, _, field) => if d.kind().is_union() { let mut f = vec![]; if let Some(i) = field { while f.len() < *i { f.push(V::Undef); } f.push(vs[0].clone()); } agg(f) } else { var(vi.to_index() as u32, vs) },
                    AggregateKind::RawPtr(t, _) => {
                        let p = match &vs[0] { V::Ref(p) | V::Fat(p, _) => p.clone(), _ => P::Int(fresh("wild", 0, usize_max())) };
                        if is_unsized(*t) { V::Fat(p, Rc::new(vs[1].clone())) } else { V::Ref(p) }
                    }
                    _ => agg(vs),
                };
                vec![(st, v)]
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (x, t) = self.operand(fr, &st, a); let (y, _) = self.operand(fr, &st, b);
                self.binop(st, *op, &x, &y, t, false)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (x, t) = self.operand(fr, &st, a); let (y, _) = self.operand(fr, &st, b);
                self.binop(st, *op, &x, &y, t, true)
            }
            Rvalue::UnaryOp(op, a) => {
                let (x, t) = self.operand(fr, &st, a);
                match op {
                    UnOp::Not => {
                        if is_bool(t) { let c = self.as_cond(&st, &x).not(); return vec![(st, V::Bool(c))]; }
                        let (bits, signed) = int_ty(t).unwrap_or((64, false));
                        let mut out = vec![];
                        for (s, e) in self.to_int(st, &x, t) { let r = if signed { e.neg().addk(-1) } else { e.neg().addk(bounds(bits, false).1) }; out.push((s, V::Int(r))); }
                        out
                    }
                    UnOp::Neg => {
                        let (bits, signed) = int_ty(t).unwrap_or((64, true));
                        let mut out = vec![];
                        for (s, e) in self.to_int(st, &x, t) { for (s, w) in self.wrap(s, &e.neg(), bits, signed) { out.push((s, V::Int(w))); } }
                        out
                    }
                    UnOp::PtrMetadata => { let v = match x { V::Fat(_, m) => (*m).clone(), V::Ref(_) => unit(), _ => V::Undef }; vec![(st, v)] }
                }
            }
            Rvalue::Cast(k, o, to) => { let (v, f) = self.operand(fr, &st, o); self.cast(st, k, v, f, *to) }
            Rvalue::Discriminant(p) => {
                let (q, _, t) = self.place(fr, &st, p);
                let v = self.read(&st, &q, t);
                self.discriminant(st, &q, v, t, dty).into_iter().map(|(s, e)| (s, V::Int(e))).collect()
            }
            Rvalue::ThreadLocalRef(_) => vec![(st, V::Undef)],
        }
    }
    pub fn discr_of(&self, t: Ty, n: u32, dty: Ty) -> Lin {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind().is_enum() => {
                let raw = d.discriminant_for_variant(VariantIdx::to_val(n as usize)).val;
                let (bits, signed) = int_ty(dty).unwrap_or((64, true));
                let v = if signed && bits < 128 { let s = 128 - bits; ((raw << s) as i128) >> s } else { raw as i128 };
                Lin::c(v)
            }
            _ => Lin::c(0),
        }
    }
    pub fn discriminant(&mut self, st: St, q: &P, v: V, t: Ty, dty: Ty) -> Vec<(St, Lin)> {
        match v {
            V::Agg(n, _) => vec![(st, self.discr_of(t, n, dty))],
            V::Top(ty, id) if ty.kind().is_enum() => {
                let mut out = vec![];
                for n in 0..num_variants(ty) {
                    let fs = field_tys(ty, n).unwrap_or_default();
                    // uninhabited variants cannot occur
                    if fs.iter().any(|f| matches!(f.kind(), TyKind::RigidTy(RigidTy::Never))) { continue; }
                    let d = app("disc", vec![id.clone()], 0, num_variants(ty) as i128 - 1);
                    for mut s in self.assume(st.clone(), &C::Eq(d.addk(-(n as i128)))) {
                        let val = expand_variant(ty, &id, n);
                        self.write(&mut s, q, val, t);
                        out.push((s, self.discr_of(t, n as u32, dty)));
                    }
                }
                out
            }
            _ => {
                if !t.kind().is_enum() { return vec![(st, Lin::c(0))]; }
                // unknown: consider all variants
                let id = fresh("unkenum", -BIG, BIG);
                self.discriminant(st, q, V::Top(t, id), t, dty)
            }
        }
    }

    // ---------- blocks ----------
    pub fn statement(&mut self, fr: &Frame, st: St, s: &Statement) -> Vec<St> {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let dty = match p.projection.is_empty() { true => fr.f.body.locals()[p.local].ty, false => p.ty(fr.f.body.locals()).unwrap_or(fr.f.body.locals()[p.local].ty) };
                let mut out = vec![];
                let mut mv = vec![];
                rv_moves(r, &mut mv);
                for (mut s, v) in self.rvalue(fr, st, r, dty) {
                    for p in &mv { self.moved(fr, &mut s, p); }
                    let (q, _, t) = self.place(fr, &s, p);
                    self.write(&mut s, &q, v, t);
                    if !s.st.dead { out.push(s); }
                }
                out
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let mut st = st;
                let (q, _, t) = self.place(fr, &st, place);
                let v = self.read(&st, &q, t);
                let f = match v { V::Agg(_, f) => f, _ => Rc::new(vec![]) };
                self.write(&mut st, &q, V::Agg(variant_index.to_index() as u32, f), t);
                vec![st]
            }
            StatementKind::StorageDead(l) => { let mut st = st; st.objs.remove(&(fr.base + *l as u32)); vec![st] }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let (v, _) = self.operand(fr, &st, o);
                let c = self.as_cond(&st, &v);
                self.assume(st, &c)
            }
            _ => vec![st],
        }
    }

    pub fn const_str(&self, st: &St, v: &V) -> Option<String> {
        if let V::Fat(P::Obj(o, _), m) = v { if let (V::Agg(_, f), V::Int(n)) = (st.obj(*o), &**m) { let n = n.is_c()? as usize; let b: Option<Vec<u8>> = f.iter().take(n).map(|x| if let V::Int(e) = x { e.is_c().map(|k| k as u8) } else { None }).collect(); return String::from_utf8(b?).ok(); } }
        None
    }

    /// run from `start`; blocks outside `within` and the loop head `head` end the run
    pub fn run(&mut self, fr: &Frame, start: usize, st: St, head: Option<usize>, within: Option<&BTreeSet<usize>>) -> Vec<Exit> {
        let mut exits = vec![];
        let mut work: BTreeMap<usize, (usize, Vec<St>)> = BTreeMap::new();
        let f = fr.f.clone();
        let mut first = true;
        work.insert(f.rpo[start], (start, vec![st]));
        while let Some((&k, _)) = work.iter().next() {
            let (bb, sts) = work.remove(&k).unwrap();
            if !first {
                if Some(bb) == head { for s in sts { exits.push(Exit::Back(s)); } continue; }
                if let Some(w) = within { if !w.contains(&bb) { for s in sts { exits.push(Exit::Out(bb, s)); } continue; } }
            }
            let is_loop = f.loops.contains_key(&bb) && !(first && Some(bb) == head);
            first = false;
            let sts = if sts.len() > 1 { self.merge(fr, bb, sts) } else { sts };
            for st in sts {
                if st.st.dead { continue; }
                if is_loop {
                    for e in crate::loops::do_loop(self, fr, bb, st) {
                        match e {
                            Exit::Out(t, s) => work.entry(f.rpo[t]).or_insert((t, vec![])).1.push(s),
                            x => exits.push(x),
                        }
                    }
                } else {
                    for e in self.block(fr, bb, st) {
                        match e {
                            Exit::Out(t, s) => work.entry(f.rpo[t]).or_insert((t, vec![])).1.push(s),
                            x => exits.push(x),
                        }
                    }
                }
                if self.gave_up.is_some() { return exits; }
            }
        }
        exits
    }

    pub fn prune(&self, fr: &Frame, bb: usize, st: &mut St) {
        for l in 0..fr.f.body.locals().len() {
            if !fr.f.live_in[bb].contains(&l) && !fr.f.addr_taken.contains(&l) { st.objs.remove(&(fr.base + l as u32)); }
        }
    }
    /// drop states subsumed by another one with identical contents
    pub fn merge(&mut self, fr: &Frame, bb: usize, mut sts: Vec<St>) -> Vec<St> {
        for s in sts.iter_mut() { self.prune(fr, bb, s); }
        crate::loops::merge_states(self, sts)
    }

    pub fn block(&mut self, fr: &Frame, bb: usize, st: St) -> Vec<Exit> {
        self.steps += 1;
        if self.steps > self.max_steps && self.gave_up.is_none() { self.gave_up = Some(format!("step limit in {}", self.trace())); return vec![]; }
        let f = fr.f.clone();
        let b = &f.body.blocks[bb];
        let mut sts = vec![st];
        for s in &b.statements {
            let mut next = vec![];
            for x in sts { let r = self.statement(fr, x, s); if crate::models::pending() { next.extend(self.drain(r)); } else { next.extend(r); } }
            sts = next;
        }
        let mut out = vec![];
        for st in sts {
            let n = out.len();
            self.terminator(fr, st, &b.terminator, &mut out);
            if crate::models::pending() {
                let new: Vec<Exit> = out.drain(n..).collect();
                let evs = crate::models::take_events();
                if self.in_hook || !self.in_library() { out.extend(new); continue; }
                for e in new { match e {
                    Exit::Out(t, s) => for s in self.fire(s, &evs) { out.push(Exit::Out(t, s)); },
                    Exit::Ret(s, v) => for s in self.fire(s, &evs) { out.push(Exit::Ret(s, v.clone())); },
                    Exit::Back(s) => for s in self.fire(s, &evs) { out.push(Exit::Back(s)); },
                } }
            }
        }
        out
    }
    /// is the library (or something it called) running, rather than a contract?
    fn in_library(&mut self) -> bool {
        for k in (0..self.stack.len()).rev() {
            let i = self.stack[k].0;
            let c = *self.crates.entry(i).or_insert_with(|| { use rustc_public::CrateDef; match i.def.krate().name.as_str() { "nt_hive" => 1, "contracts" => 2, _ => 0 } });
            if c != 0 { return c == 1; }
        }
        false
    }
    fn fire(&mut self, st: St, evs: &[crate::models::Event]) -> Vec<St> {
        self.in_hook = true;
        let r = crate::models::fire(self, st, evs);
        self.in_hook = false;
        crate::models::take_events();
        r
    }
    fn drain(&mut self, sts: Vec<St>) -> Vec<St> {
        let evs = crate::models::take_events();
        if self.in_hook || !self.in_library() { return sts; }
        let mut out = vec![];
        for s in sts { out.extend(self.fire(s, &evs)); }
        out
    }
    fn terminator(&mut self, fr: &Frame, st: St, t: &Terminator, out: &mut Vec<Exit>) {
        match &t.kind {
            TerminatorKind::Goto { target } => out.push(Exit::Out(*target, st)),
            TerminatorKind::Return => { let v = st.obj(fr.base); out.push(Exit::Ret(st, v)); }
            TerminatorKind::Unreachable => { self.report(&st, "unreachable", "unreachable code reached"); }
            TerminatorKind::Resume | TerminatorKind::Abort => {}
            TerminatorKind::Drop { place, target, .. } => {
                let _ = place;
                out.push(Exit::Out(*target, st));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let (v, ty) = self.operand(fr, &st, discr);
                if is_bool(ty) {
                    let c = self.as_cond(&st, &v);
                    let c = match self.decide(&st, &c) { Some(b) => C::B(b), None => c };
                    let mut rest = c.clone();
                    let _ = &mut rest;
                    let mut done: Vec<bool> = vec![];
                    for (val, t) in targets.branches() {
                        let want = val != 0;
                        done.push(want);
                        let cc = if want { c.clone() } else { c.not() };
                        for s in self.assume(st.clone(), &cc) { out.push(Exit::Out(t, s)); }
                    }
                    for want in [false, true] { if !done.contains(&want) {
                        let cc = if want { c.clone() } else { c.not() };
                        for s in self.assume(st.clone(), &cc) { out.push(Exit::Out(targets.otherwise(), s)); }
                    } }
                    return;
                }
                let (bits, signed) = int_ty(ty).unwrap_or((64, false));
                for (s0, e) in self.to_int(st, &v, ty) {
                    let e = s0.norm(&e);
                    if let Some(k) = e.is_c() {
                        let mut tgt = targets.otherwise();
                        for (val, t) in targets.branches() { if sx(val, bits, signed) == k { tgt = t; break; } }
                        out.push(Exit::Out(tgt, s0));
                        continue;
                    }
                    let mut rest = s0.clone();
                    for (val, t) in targets.branches() {
                        let k = sx(val, bits, signed);
                        for s in self.assume(s0.clone(), &C::Eq(e.addk(-k))) { out.push(Exit::Out(t, s)); }
                        rest.st.add_ne(&e.addk(-k));
                    }
                    if !rest.st.dead && rest.st.feasible_about(&e) { 
                        // a range exhausted by the listed values cannot reach the default
                        out.push(Exit::Out(targets.otherwise(), rest));
                    }
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (v, _) = self.operand(fr, &st, cond);
                let c = self.as_cond(&st, &v);
                let c = if *expected { c } else { c.not() };
                let d = match msg { AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(), m => m.description().unwrap_or("assertion").to_string() };
                let rule = if d.contains("overflow") { "overflow" } else { "panic" };
                for s in self.assume(st.clone(), &c.not()) { self.report(&s, rule, &d); }
                let good = self.assume(st, &c);
                if !good.is_empty() { self.proved("assertion"); }
                for s in good { out.push(Exit::Out(*target, s)); }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let mut vs = vec![];
                let mut tys = vec![];
                for a in args { let (v, t) = self.operand(fr, &st, a); vs.push(v); tys.push(t); }
                let mut st = st;
                // a moved-from local is uninitialised
                for a in args { if let Operand::Move(p) = a { self.moved(fr, &mut st, p); } }
                let dty = destination.ty(fr.f.body.locals()).unwrap_or(fr.f.body.locals()[0].ty);
                let (fv, fty) = self.operand(fr, &st, func);
                let inst = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => match self.resolve.get(&fty) { Some(r) => *r, None => { let r = Instance::resolve(d, &a).ok(); self.resolve.insert(fty, r); r } },
                    _ => match fv { V::Fn(i) => Some(i), _ => None },
                };
                let res = match inst {
                    Some(i) => self.call(st, i, vs, &tys, dty),
                    None => { let n = format!("{fty}"); crate::models::havoc_call(self, st, &format!("indirect {n}"), &vs, &tys, dty) }
                };
                if let Some(t) = target {
                    for (mut s, v) in res {
                        if s.st.dead { continue; }
                        let (q, _, ty) = self.place(fr, &s, destination);
                        self.write(&mut s, &q, v, ty);
                        out.push(Exit::Out(*t, s));
                    }
                }
            }
            TerminatorKind::InlineAsm { .. } => { self.report(&st, "unmodelled", "inline assembly"); }
        }
    }

    pub fn call(&mut self, st: St, inst: Instance, args: Vec<V>, tys: &[Ty], dty: Ty) -> Outs {
        self.calls += 1;
        let name = inst.def_name();
        if self.debug && std::env::var("SA_TRACE").is_ok() { eprintln!("{}call {} ({})", " ".repeat(self.stack.len()), name, args.iter().map(show_v).collect::<Vec<_>>().join(", ")); }
        if let Some(r) = crate::models::model(self, &st, inst, &name, &args, tys, dty) {
            if self.quiet == 0 { self.funcs.insert(format!("{name} [model]")); }
            if self.debug && std::env::var("SA_TRACE").is_ok() { for (_, v) in &r { eprintln!("{} = {}", " ".repeat(self.stack.len()), show_v(v)); } }
            if crate::models::pending() {
                let evs = crate::models::take_events();
                if self.in_hook || !self.in_library() { return r; }
                let mut out = vec![];
                for (s, v) in r { for s in self.fire(s, &evs) { out.push((s, v.clone())); } }
                return out;
            }
            return r;
        }
        if let Some(i) = crate::models::substitute(self, inst, &name) { if self.quiet == 0 { self.funcs.insert(format!("{name} [model]")); } return self.call(st, i, args, tys, dty); }
        if let InstanceKind::Virtual { .. } = inst.kind { return crate::models::havoc_call(self, st, &name, &args, tys, dty); }
        let f = match self.info(inst) {
            Some(f) => f,
            None => {
                // a tuple struct or variant used as a function
                if let TyKind::RigidTy(RigidTy::Adt(d, _)) = dty.kind() {
                    use rustc_public::CrateDef;
                    let last = name.rsplit("::").next().unwrap_or("").to_string();
                    if name.starts_with(&d.name().to_string()) {
                        for (i, v) in d.variants().iter().enumerate() { if v.name() == last && v.fields().len() == args.len() { return vec![(st, crate::val::var(i as u32, args))]; } }
                    }
                }
                return crate::models::havoc_call(self, st, &name, &args, tys, dty)
            }
        };
        if self.stack.iter().filter(|x| x.0 == inst).count() >= self.rec_depth { return crate::models::recursion(self, st, inst, &name, &args, tys, dty); }
        if self.stack.len() > 120 { self.gave_up = Some(format!("call depth: {}", self.trace())); return vec![]; }
        let Some((_, h)) = self.after.iter().find(|a| a.0 == name).cloned() else { return self.call_body(st, f, name, args) };
        let mut out = vec![];
        for (mut s, v) in self.call_body(st, f, name, args) {
            let o = alloc_objs(1);
            s.objs.insert(o, v);
            let hty = match h.ty().kind().fn_sig() { Some(g) => g.skip_binder().inputs()[0], None => dty };
            let arg = V::Ref(P::Obj(o, Default::default()));
            for (mut s, _) in self.call(s, h, vec![arg], &[hty], Ty::new_tuple(&[])) { if let Some(v) = s.objs.remove(&o) { out.push((s, v)); } }
        }
        out
    }
    pub fn call_body(&mut self, st: St, f: Rc<FnInfo>, name: String, mut args: Vec<V>) -> Outs {
        if self.debug { if let Ok(w) = std::env::var("SA_MIR") { if name.contains(&w) { let mut o = vec![]; let _ = f.body.dump(&mut o, &name); eprintln!("{}", String::from_utf8_lossy(&o)); } } }
        let n = f.body.locals().len() as u32;
        let base = alloc_objs(n);
        let fr = Frame { f: f.clone(), base };
        let nargs = f.body.arg_locals().len();
        let mut st = st;
        // rust-call untupling
        if let Some(sp) = f.body.spread_arg() {
            // the body takes its arguments as one tuple
            let k = sp as usize - 1;
            if args.len() != nargs || !matches!(args.get(k), Some(V::Agg(..))) || args.len() > nargs { let t = agg(args.split_off(k)); args.push(t); }
        } else if args.len() == 2 && args.len() != nargs || (args.len() == 2 && nargs == 2 && matches!(f.inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)))) {
            if let Some(V::Agg(_, t)) = args.get(1).cloned() { if nargs == 1 + t.len() { args.pop(); args.extend(t.iter().cloned()); } }
        }
        for (i, a) in args.into_iter().enumerate() { st.objs.insert(base + 1 + i as u32, a); }
        self.stack.push((f.inst, name.clone()));
        if self.quiet == 0 { self.funcs.insert(name); }
        let ex = self.run(&fr, 0, st, None, None);
        self.stack.pop();
        let mut out: Outs = vec![];
        for e in ex {
            if let Exit::Ret(mut s, v) = e {
                let keys: Vec<O> = s.objs.range(base..base + n).map(|x| *x.0).collect();
                for k in keys { s.objs.remove(&k); }
                out.push((s, v));
            }
        }
        if out.len() > 1 {
            if self.coarse {
                // which error it is does not matter: keep one state per shape of the result
                let rt = f.body.ret_local().ty;
                for o in out.iter_mut() { o.1 = blur(&o.1, rt); }
            }
            let n0 = out.len();
            out = crate::loops::merge_outs(self, out);
            if self.debug && std::env::var("SA_OUTS").is_ok() && out.len() > 2 { eprintln!("{}OUTS {} -> {} {}", " ".repeat(self.stack.len()), n0, out.len(), f.name); for (_, v) in &out { let t = show_v(v); eprintln!("{}   {}", " ".repeat(self.stack.len()), &t.chars().take(150).collect::<String>()); } }
        }
        out
    }
}

/// number of entries of the column below `b`, and not above `b`
/// `e` with the arguments of its loads and applications normalised as well; renamed symbols are recorded as equal
pub fn canon(st: &mut St, e: &Lin) -> Lin {
    let e = st.norm(e);
    let mut r = e.clone();
    for (s, _) in &e.t {
        let t = match def(*s) {
            Def::Load { reg, ver, off, w, en } => { let o = canon(st, &off); if o == off { continue } let (lo, hi) = range(*s); Lin::s(mk(Def::Load { reg, ver, off: o, w, en }, lo, hi)) }
            Def::App(f, a) => { let b: Vec<Lin> = a.iter().map(|x| canon(st, x)).collect(); if b == a { continue } let (lo, hi) = range(*s); Lin::s(mk(Def::App(f, b), lo, hi)) }
            _ => continue,
        };
        st.st.add_eq(&Lin::s(*s).sub(&t));
        r = r.subst(*s, &t);
    }
    st.norm(&r)
}
pub fn bounds_in(st: &mut St, f: &str, tab: &[i128], b: &Lin) -> (Lin, Lin) {
    let b = canon(st, b);
    if let Some(k) = b.is_c() { return (Lin::c(tab.iter().filter(|x| **x < k).count() as i128), Lin::c(tab.iter().filter(|x| **x <= k).count() as i128)); }
    let n = tab.len() as i128;
    // the same key under another name?
    let g = format!("lb{f}");
    let b = st.st.eq.iter().flat_map(|(k, e)| std::iter::once(*k).chain(e.t.iter().map(|t| t.0))).chain(st.st.ge.iter().flat_map(|e| e.t.iter().map(|t| t.0)))
        .find_map(|t| match def(t) { Def::App(h, a) if *h == *g && st.norm(&a[0]) == b => Some(a[0].clone()), _ => None }).unwrap_or(b);
    let (lb, fnd) = (app(&format!("lb{f}"), vec![b.clone()], 0, n), app(&format!("in{f}"), vec![b.clone()], 0, 1));
    st.st.add_ge(&Lin::c(n).sub(&lb).sub(&fnd));
    let ub = lb.add(&fnd);
    if !b.t.is_empty() {
        let (mut lo, mut hi) = b.interval();
        let nb = b.neg();
        for f in st.st.ge.iter() { if f.t == b.t { lo = lo.max(b.k - f.k); } if f.t == nb.t { hi = hi.min(f.k + b.k); } }
        st.st.add_ge(&lb.addk(-(tab.iter().filter(|x| **x < lo).count() as i128)));
        st.st.add_ge(&ub.neg().addk(tab.iter().filter(|x| **x <= hi).count() as i128));
        if tab.iter().all(|x| *x < lo || *x > hi) { st.st.add_eq(&fnd); }
    }
    (lb, ub)
}
pub fn gcd2(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a, b); while b != 0 { let r = a % b; a = b; b = r; } a }
pub fn sx(v: u128, bits: u32, signed: bool) -> i128 { if signed && bits < 128 { let s = 128 - bits; ((v << s) as i128) >> s } else { v as i128 } }
pub fn mk_and(a: C, b: C) -> C { match (a, b) { (C::B(false), _) | (_, C::B(false)) => C::B(false), (C::B(true), x) | (x, C::B(true)) => x, (C::And(mut v), C::And(w)) => { v.extend(w); C::And(v) } (C::And(mut v), x) | (x, C::And(mut v)) => { v.push(x); C::And(v) } (a, b) => C::And(vec![a, b]) } }
fn pack(r: Lin, checked: bool) -> V { if checked { agg(vec![V::Int(r), V::Bool(C::B(false))]) } else { V::Int(r) } }
pub fn num_variants(t: Ty) -> usize { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.num_variants(), _ => 1 } }
pub fn expand_variant(ty: Ty, id: &Lin, n: usize) -> V {
    let fs = field_tys(ty, n).unwrap_or_default();
    var(n as u32, fs.iter().enumerate().map(|(i, t)| top(*t, &id_child(&format!("v{n}f{i}"), id))).collect())
}
/// pointer to element `i`, `p` pointing to the array (`arr`) or to its first element
pub fn elem_ptr(p: &P, i: &Lin, elem: Ty, arr: bool) -> P {
    match p {
        P::Obj(o, path) => {
            let mut path = path.clone();
            if arr { path.push(Pe::I(i.clone())); }
            else if let Some(Pe::I(l)) = path.last_mut() { *l = l.add(i); }
            else if i.is_c() == Some(0) { }
            else { path.push(Pe::I(i.clone())); }
            P::Obj(*o, path)
        }
        P::Reg(r, off) => P::Reg(*r, off.axpy(size_of(elem).unwrap_or(1) as i128, i)),
        P::Int(l) => P::Int(l.axpy(size_of(elem).unwrap_or(1) as i128, i)),
    }
}

fn is_err(t: Ty) -> bool { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.kind().is_enum() && { use rustc_public::CrateDef; d.name().contains("NtHiveError") }, _ => false } }
/// error values become unknown error values
fn blur(v: &V, t: Ty) -> V {
    if is_err(t) { return V::Top(t, Lin::c(-4242)); }
    if let (V::Agg(n, f), TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Tuple(..))) = (v, t.kind()) {
        if let Some(ts) = field_tys(t, *n as usize) { if ts.len() == f.len() { return V::Agg(*n, Rc::new(f.iter().zip(ts).map(|(x, t)| blur(x, t)).collect())); } }
    }
    v.clone()
}
