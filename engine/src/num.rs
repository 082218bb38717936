//! The numeric part of an abstract state: a conjunction of linear equalities (solved form),
//! inequalities and disequalities over symbols, with entailment decided by a small exact
//! rational simplex plus integer tightening (the entailment test of a polyhedra domain).
use crate::sym::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Store {
    pub eq: Rc<BTreeMap<S, Lin>>,
    pub ge: Rc<Vec<Lin>>, // e >= 0
    pub ne: Rc<Vec<Lin>>, // e != 0
    pub dead: bool,
    pub ver: u64,
    models: RefCell<Vec<Rc<Model>>>,
}
/// an integer point known to satisfy the constraints (refutes failing entailment queries cheaply)
#[derive(Clone, Debug)]
struct Model { ver: u64, v: HashMap<S, i128> }
fn eval(m: &HashMap<S, i128>, e: &Lin) -> Option<i128> { let mut r = e.k; for (s, c) in &e.t { r = r.checked_add(c.checked_mul(*m.get(s)?)?)?; } Some(r) }

thread_local! {
    static VER: Cell<u64> = Cell::new(1);
    pub static STAT: Cell<(u64, u64)> = Cell::new((0, 0));
    pub static NANOS: Cell<u64> = Cell::new(0);
    static CACHE: RefCell<HashMap<(u64, Lin), bool>> = RefCell::new(HashMap::new());
}
pub fn reset_cache() { CACHE.with(|c| c.borrow_mut().clear()); }
fn newver() -> u64 { VER.with(|v| { v.set(v.get() + 1); v.get() }) }

/// divide by the gcd of the coefficients, rounding the constant down (e >= 0 over integers)
fn tighten(e: &Lin) -> Lin {
    let g = e.gcd();
    if g <= 1 { return e.clone(); }
    let mut r = e.clone();
    for x in r.t.iter_mut() { x.1 /= g; }
    r.k = r.k.div_euclid(g);
    r
}
fn norm_sign(e: &Lin) -> Lin { let g = e.gcd().max(1); let mut r = e.clone(); if e.k % g == 0 { for x in r.t.iter_mut() { x.1 /= g; } r.k /= g; } if r.t.first().map_or(false, |x| x.1 < 0) { r = r.neg(); } r }

impl Store {
    /// the facts stated literally in all of these
    pub fn common(sts: &[&Store]) -> Store {
        let mut r = Store::default();
        let f = sts[0];
        r.eq = Rc::new(f.eq.iter().filter(|(s, v)| sts[1..].iter().all(|x| x.eq.get(s) == Some(v))).map(|(s, v)| (*s, v.clone())).collect());
        let sets: Vec<std::collections::HashMap<&[(S, i128)], i128>> = sts[1..].iter().map(|x| { let mut m = HashMap::new(); for e in x.ge.iter() { let k = m.entry(&e.t[..]).or_insert(e.k); if e.k < *k { *k = e.k } } m }).collect();
        r.ge = Rc::new(f.ge.iter().filter_map(|e| { let mut k = e.k; for m in &sets { k = k.max(*m.get(&e.t[..])?) } Some(Lin { t: e.t.clone(), k }) }).collect());
        r.ver = newver();
        r
    }
    pub fn norm(&self, e: &Lin) -> Lin {
        if self.eq.is_empty() || e.t.iter().all(|(s, _)| !self.eq.contains_key(s)) { return e.clone(); }
        let mut r = Lin::c(e.k);
        for (s, c) in &e.t {
            match self.eq.get(s) { Some(v) => r = r.axpy(*c, v), None => r = r.axpy(*c, &Lin::s(*s)) }
        }
        r
    }
    fn touch(&mut self) { self.ver = newver(); }
    pub fn kill(&mut self) { self.dead = true; }

    fn push_ge(&mut self, e: Lin) {
        // e normalised
        let e = tighten(&e);
        if let Some(k) = e.is_c() { if k < 0 { self.dead = true; } return; }
        let neg = e.neg();
        let mut eq = None;
        // x = -lin + xk >= 0, e = lin + k >= 0 : -k <= lin <= xk
        if let Some(xk) = self.ge.iter().find(|x| x.t == neg.t).map(|x| x.k) {
            if xk + e.k < 0 { self.dead = true; return; }
            if xk + e.k == 0 { eq = Some(e.clone()); }
        }
        if eq.is_none() {
            let ge = Rc::make_mut(&mut self.ge);
            if let Some(x) = ge.iter_mut().find(|x| x.t == e.t) { if e.k < x.k { x.k = e.k; self.ver = newver(); } return; }
            ge.push(e);
        }
        self.touch();
        if let Some(e) = eq { self.add_eq(&e); }
    }
    pub fn add_ge(&mut self, e: &Lin) {
        if self.dead { return; }
        let e = tighten(&self.norm(e));
        if let Some(k) = e.is_c() { if k < 0 { self.dead = true; } return; }
        let (lo, hi) = e.interval();
        if lo >= 0 { return; }
        if hi < 0 { self.dead = true; return; }
        // every symbol is at the end of its range
        if hi == 0 { for (s, c) in &e.t { let (l, h) = range(*s); self.add_eq(&Lin::s(*s).addk(-if *c > 0 { h } else { l })); } return; }
        // single-symbol facts against opposite stored bound
        let opp: Option<i128> = { let n = e.neg(); self.ge.iter().find(|x| x.t == n.t).map(|x| x.k) };
        if let Some(xk) = opp { if xk + e.k < 0 { self.dead = true; return; } if xk + e.k == 0 { self.add_eq(&e); return; } }
        // integer cuts: eliminating one symbol may leave a row whose constant can be rounded
        let mut cuts = vec![];
        if !e.t.is_empty() {
            for f in self.ge.iter() {
                for (s, c) in &e.t {
                    let d = f.coef(*s);
                    if d == 0 || d != -c { continue; }
                    let r = e.add(f);
                    if r.t.is_empty() || r.t.len() > 4 { continue; }
                    let g = r.gcd();
                    if g > 1 && r.k.rem_euclid(g) != 0 { cuts.push(r); }
                    break;
                }
            }
        }
        self.push_ge(e);
        for r in cuts { if self.dead { return; } let r = tighten(&self.norm(&r)); if r.is_c().is_some() { if r.k < 0 { self.dead = true; } continue; } if r.interval().0 < 0 { self.push_ge(r); } }
        self.wake_ne();
    }
    fn wake_ne(&mut self) {
        if self.ne.is_empty() || self.dead { return; }
        // cheap: only direct matches with stored bounds are used here; the rest is done lazily in proves()
        let ne = self.ne.clone();
        for e in ne.iter() {
            let e = self.norm(e);
            if let Some(k) = e.is_c() { if k == 0 { self.dead = true; return; } continue; }
            for s in [1, -1] {
                let f = e.mul(s);
                let low = self.ge.iter().find(|x| x.t == f.t).map(|x| x.k);
                if low == Some(f.k) { let g = f.addk(-1); self.push_ge(g); if self.dead { return; } }
            }
        }
    }
    pub fn add_eq(&mut self, e: &Lin) {
        if self.dead { return; }
        let e = self.norm(e);
        if let Some(k) = e.is_c() { if k != 0 { self.dead = true; } return; }
        let g = e.gcd();
        if e.k % g != 0 { self.dead = true; return; }
        let mut e = e;
        if g > 1 { for x in e.t.iter_mut() { x.1 /= g; } e.k /= g; }
        let (lo, hi) = e.interval();
        if lo > 0 || hi < 0 { self.dead = true; return; }
        let mut pick: Option<(S, i128)> = None;
        for (s, c) in e.t.iter() { if c.abs() == 1 { 
            // prefer eliminating the newest symbol
            if pick.map_or(true, |p| p.0 < *s) { pick = Some((*s, *c)); } } }
        match pick {
            None => { 
                self.push_ge(e.clone()); 
                if self.dead { return; }
                let n = e.neg();
                if !self.ge.iter().any(|x| *x == n) { Rc::make_mut(&mut self.ge).push(n); self.touch(); }
            }
            Some((s, c)) => {
                // c*s + rest = 0  =>  s = -rest/c
                let mut rest = e.clone();
                rest.t.retain(|x| x.0 != s);
                let v = rest.mul(-c);
                self.touch();
                {
                    let eq = Rc::make_mut(&mut self.eq);
                    for (_, x) in eq.iter_mut() { if x.coef(s) != 0 { *x = x.subst(s, &v); } }
                    eq.insert(s, v.clone());
                }
                // keep the eliminated symbol's own range
                let (l, h) = range(s);
                let old: Vec<Lin> = self.ge.iter().filter(|x| x.coef(s) != 0).cloned().collect();
                Rc::make_mut(&mut self.ge).retain(|x| x.coef(s) == 0);
                for o in old { let o = o.subst(s, &v); if o.is_c().is_some() { if o.k < 0 { self.dead = true; } } else { self.push_ge(o); } if self.dead { return; } }
                if l > -BIG { let b = v.addk(-l); if b.interval().0 < 0 { self.push_ge(b); } }
                if h < BIG && !self.dead { let b = v.neg().addk(h); if b.interval().0 < 0 { self.push_ge(b); } }
                if let Some((x, k)) = div_of(s) {
                    // s = floor(x/k): keep its axioms after elimination
                    let r = self.norm(&x).axpy(-k, &v);
                    if r.interval().0 < 0 { self.push_ge(r.clone()); }
                    let r2 = r.neg().addk(k - 1);
                    if !self.dead && r2.interval().0 < 0 { self.push_ge(r2); }
                }
                if self.dead { return; }
                if self.ne.iter().any(|x| x.coef(s) != 0) {
                    let ne: Vec<Lin> = self.ne.iter().map(|x| x.subst(s, &v)).collect();
                    if ne.iter().any(|x| x.is_c() == Some(0)) { self.dead = true; return; }
                    self.ne = Rc::new(ne.into_iter().filter(|x| x.is_c().is_none()).collect());
                }
                self.wake_ne();
            }
        }
    }
    pub fn add_ne(&mut self, e: &Lin) {
        if self.dead { return; }
        let e = norm_sign(&self.norm(e));
        if let Some(k) = e.is_c() { if k == 0 { self.dead = true; } return; }
        let g = e.gcd();
        if e.k % g != 0 { return; }
        if self.prove_ge(&e) { self.add_ge(&e.addk(-1)); return; }
        if self.prove_ge(&e.neg()) { self.add_ge(&e.neg().addk(-1)); return; }
        if !self.ne.contains(&e) { Rc::make_mut(&mut self.ne).push(e); self.touch(); }
    }

    /// give the symbols of `e` values in the model (as a defined or arbitrary value)
    fn extend(&self, m: &mut HashMap<S, i128>, e: &Lin, want: Option<bool>) -> bool {
        for (s, c) in &e.t {
            if m.contains_key(s) { continue; }
            let (l, h) = range(*s);
            let v = match div_of(*s) {
                Some((x, k)) if self.norm(&x).coef(*s) == 0 => { let x = self.norm(&x); if x.t.iter().any(|t| t.0 > *s && div_of(t.0).is_some()) { return false; } if !self.extend(m, &x, None) { return false; } match eval(m, &x) { Some(n) => n.div_euclid(k), None => return false } }
                _ => {
                    let low = if l > -BIG { l } else { h.min(0) };
                    match want { Some(true) if *c > 0 && h < BIG => h, Some(false) if *c < 0 && h < BIG => h, _ => low }
                }
            };
            if v < l || v > h { return false; }
            m.insert(*s, v);
        }
        true
    }
    fn models(&self) -> Vec<Rc<Model>> {
        let mut ms = self.models.borrow_mut();
        if ms.iter().any(|m| m.ver != self.ver) {
            let old = std::mem::take(&mut *ms);
            for m in old {
                if m.ver == self.ver { ms.push(m); continue; }
                let mut v = m.v.clone();
                // rows touching the model have to hold in it
                let mut ok = true;
                let mut again = true;
                let mut rounds = 0;
                while ok && again {
                    again = false;
                    rounds += 1;
                    if rounds > 8 { ok = false; break; }
                    for g in self.ge.iter() {
                        let n = g.t.iter().filter(|t| v.contains_key(&t.0)).count();
                        if n == 0 { continue; }
                        if n < g.t.len() { again = true; if !self.extend(&mut v, g, Some(true)) { ok = false; break; } }
                        match eval(&v, g) { Some(x) if x >= 0 => {} _ => { ok = false; break; } }
                    }
                    if !ok { break; }
                    for g in self.ne.iter() {
                        let g = self.norm(g);
                        if g.t.iter().all(|t| !v.contains_key(&t.0)) { continue; }
                        if !self.extend(&mut v, &g, Some(true)) { ok = false; break; }
                        match eval(&v, &g) { Some(x) if x != 0 => {} _ => { ok = false; break; } }
                    }
                    if !ok { break; }
                    // defined symbols keep their definition; eliminated ones their equation
                    let keys: Vec<S> = v.keys().copied().collect();
                    for s in keys {
                        if let Some((x, k)) = div_of(s) {
                            let x = self.norm(&x);
                            if x.t.iter().any(|t| !v.contains_key(&t.0)) { again = true; }
                            if !self.extend(&mut v, &x, None) { ok = false; break; }
                            match eval(&v, &x) { Some(n) if n.div_euclid(k) == v[&s] => {} _ => { ok = false; break; } }
                        }
                        if let Some(e) = self.eq.get(&s) {
                            if e.t.iter().any(|t| !v.contains_key(&t.0)) { again = true; }
                            if !self.extend(&mut v, e, None) { ok = false; break; }
                            match eval(&v, e) { Some(n) if n == v[&s] => {} _ => { ok = false; break; } }
                        }
                    }
                }
                if ok { ms.push(Rc::new(Model { ver: self.ver, v })); }
            }
        }
        ms.clone()
    }
    fn refuted(&self, e: &Lin) -> bool {
        for m in self.models() {
            if let Some(x) = eval(&m.v, e) { if x < 0 { return true; } continue; }
            let touch = e.t.iter().any(|t| m.v.contains_key(&t.0));
            // a symbol outside the model may be constrained elsewhere: only if nothing mentions it
            let free = e.t.iter().all(|t| m.v.contains_key(&t.0) || (!self.ge.iter().any(|g| g.coef(t.0) != 0) && !div_of(t.0).is_some() && !self.ne.iter().any(|g| g.coef(t.0) != 0)));
            if touch && free { let mut v = m.v.clone(); if self.extend(&mut v, e, Some(false)) { if let Some(x) = eval(&v, e) { if x < 0 { return true; } } } }
        }
        false
    }
    fn learn(&self, v: HashMap<S, i128>) {
        for g in self.ne.iter() { let g = self.norm(g); if let Some(0) = eval(&v, &g) { return; } }
        for (s, n) in &v { if let Some((x, k)) = div_of(*s) { match eval(&v, &self.norm(&x)) { Some(y) if y.div_euclid(k) == *n => {} _ => return } } }
        let mut ms = self.models.borrow_mut();
        if ms.len() >= 12 { ms.remove(0); }
        ms.push(Rc::new(Model { ver: self.ver, v }));
    }
    pub fn prove_ge(&self, e: &Lin) -> bool {
        if self.dead { return true; }
        let e = tighten(&self.norm(e));
        if let Some(k) = e.is_c() { return k >= 0; }
        let (lo, hi) = e.interval();
        if lo >= 0 { return true; }
        if hi < 0 && false { return false; }
        for x in self.ge.iter() { if x.t == e.t { if x.k <= e.k { return true; } } }
        if let Some(b) = CACHE.with(|c| c.borrow().get(&(self.ver, e.clone())).copied()) { return b; }
        let r = !self.refuted(&e) && self.lp_prove(&e);
        CACHE.with(|c| { let mut c = c.borrow_mut(); if c.len() > 400_000 { c.clear(); } c.insert((self.ver, e), r); });
        r
    }
    pub fn prove_eq(&self, e: &Lin) -> bool {
        if self.dead { return true; }
        let e = self.norm(e);
        if let Some(k) = e.is_c() { return k == 0; }
        if e.k % e.gcd() != 0 { return false; }
        self.prove_ge(&e) && self.prove_ge(&e.neg())
    }
    pub fn prove_ne(&self, e: &Lin) -> bool {
        if self.dead { return true; }
        let e = norm_sign(&self.norm(e));
        if let Some(k) = e.is_c() { return k != 0; }
        if e.k % e.gcd() != 0 { return true; }
        if self.ne.iter().any(|x| norm_sign(&self.norm(x)) == e) { return true; }
        let (lo, hi) = e.interval();
        if lo > 0 || hi < 0 { return true; }
        if self.prove_ge(&e.addk(-1)) || self.prove_ge(&e.neg().addk(-1)) { return true; }
        // e = 0 assumed: does it contradict?
        let mut s = self.clone();
        s.add_eq(&e);
        s.dead || !s.feasible_about(&e)
    }
    pub fn feasible_about(&self, e: &Lin) -> bool {
        if self.dead { return false; }
        let probe = self.norm(e);
        if self.models().iter().any(|m| probe.t.iter().all(|t| m.v.contains_key(&t.0))) { return true; }
        !self.lp_infeasible(&probe, None)
    }
    /// Is the state as a whole consistent (as far as the domain can tell)?
    pub fn feasible(&self) -> bool {
        if self.dead { return false; }
        let mut all = Lin::c(0);
        let mut seen = BTreeSet::new();
        for g in self.ge.iter() { for (s, _) in &g.t { if seen.insert(*s) { all.t.push((*s, 1)); } } }
        all.t.sort();
        !self.lp_infeasible(&all, None)
    }
    fn lp_prove(&self, e: &Lin) -> bool {
        let neg = e.neg().addk(-1);
        if self.lp_infeasible(e, Some(&neg)) { return true; }
        // disequalities: e != 0 facts may close a gap of one
        if !self.ne.is_empty() {
            // if -e-1>=0 region touches a disequality hyperplane d: try splitting on one disequality sharing symbols
            for d in self.ne.iter() {
                if !d.t.iter().any(|(s, _)| e.coef(*s) != 0) { continue; }
                let a = d.addk(-1);
                let b = d.neg().addk(-1);
                let mut s1 = self.clone(); s1.ne = Rc::new(self.ne.iter().filter(|x| *x != d).cloned().collect()); s1.add_ge(&a);
                if !(s1.dead || s1.lp_infeasible(&s1.norm(e), Some(&s1.norm(&neg)))) { continue; }
                let mut s2 = self.clone(); s2.ne = s1.ne.clone(); s2.add_ge(&b);
                if s2.dead || s2.lp_infeasible(&s2.norm(e), Some(&s2.norm(&neg))) { return true; }
            }
        }
        false
    }
    /// LP infeasibility of the constraints connected with `probe`, plus `extra >= 0`
    fn lp_infeasible(&self, probe: &Lin, extra: Option<&Lin>) -> bool {
        STAT.with(|s| { let (a, b) = s.get(); s.set((a + 1, b)); });
        let mut rows: Vec<Lin> = vec![];
        let mut syms: BTreeSet<S> = probe.t.iter().map(|x| x.0).collect();
        let mut work: Vec<S> = syms.iter().copied().collect();
        let mut used = vec![false; self.ge.len()];
        while let Some(s) = work.pop() {
            let add = |e: &Lin, syms: &mut BTreeSet<S>, work: &mut Vec<S>| { for (x, _) in &e.t { if syms.insert(*x) { work.push(*x); } } };
            if let Some((x, k)) = div_of(s) {
                let r = self.norm(&x).axpy(-k, &Lin::s(s));
                add(&r, &mut syms, &mut work);
                rows.push(r.neg().addk(k - 1));
                rows.push(r);
            }
            for (i, g) in self.ge.iter().enumerate() {
                if !used[i] && g.coef(s) != 0 { used[i] = true; rows.push(g.clone()); add(g, &mut syms, &mut work); }
            }
        }
        // trivially satisfied rows go
        rows.retain(|r| r.interval().0 < 0);
        if let Some(x) = extra { if x.is_c().map_or(false, |k| k < 0) { return true; } rows.push(x.clone()); }
        let t0 = std::time::Instant::now();
        let mut m = None;
        let r = infeasible(&rows, 0, &mut m);
        NANOS.with(|n| n.set(n.get() + t0.elapsed().as_nanos() as u64));
        if let Some(sol) = m { let mut v: HashMap<S, i128> = sol.into_iter().collect(); if syms.iter().all(|s| v.contains_key(s) || self.extend(&mut v, &Lin::s(*s), None)) { self.learn(v); } }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct R { n: i128, d: i128 }
#[derive(Debug)]
struct Ovf;
fn g(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs()); while b != 0 { let r = a % b; a = b; b = r; } a as i128 }
impl R {
    const Z: R = R { n: 0, d: 1 };
    fn i(n: i128) -> R { R { n, d: 1 } }
    fn new(n: i128, d: i128) -> R { if d == 1 { return R { n, d }; } let x = g(n, d).max(1); let s = if d < 0 { -1 } else { 1 }; R { n: s * (n / x), d: s * (d / x) } }
    fn add(self, o: R) -> Result<R, Ovf> {
        if self.d == 1 && o.d == 1 { return Ok(R { n: self.n.checked_add(o.n).ok_or(Ovf)?, d: 1 }); }
        Ok(R::new(self.n.checked_mul(o.d).ok_or(Ovf)?.checked_add(o.n.checked_mul(self.d).ok_or(Ovf)?).ok_or(Ovf)?, self.d.checked_mul(o.d).ok_or(Ovf)?))
    }
    fn mul(self, o: R) -> Result<R, Ovf> { Ok(R::new(self.n.checked_mul(o.n).ok_or(Ovf)?, self.d.checked_mul(o.d).ok_or(Ovf)?)) }
    fn neg(self) -> R { R { n: -self.n, d: self.d } }
    fn sub(self, o: R) -> Result<R, Ovf> { self.add(o.neg()) }
    fn div(self, o: R) -> Result<R, Ovf> { self.mul(if o.n < 0 { R { n: -o.d, d: -o.n } } else { R { n: o.d, d: o.n } }) }
    fn lt(self, o: R) -> Result<bool, Ovf> { Ok(self.n.checked_mul(o.d).ok_or(Ovf)? < o.n.checked_mul(self.d).ok_or(Ovf)?) }
    fn zero(self) -> bool { self.n == 0 }
}

/// rows: each e >= 0; symbol ranges are implicit. true only if surely infeasible over the integers.
fn infeasible(rows: &[Lin], depth: u32, model: &mut Option<Vec<(S, i128)>>) -> bool {
    STAT.with(|s| { let (a, b) = s.get(); s.set((a, b + 1)); });
    match simplex(rows) {
        Ok(None) => true,
        Ok(Some(sol)) => {
            // branch on a fractional symbol (bounded depth)
            if depth >= 6 { return false; }
            let mut best: Option<(S, R)> = None;
            for (s, v) in &sol { if v.d != 1 { 
                let (l, h) = range(*s);
                let w = h.saturating_sub(l);
                if best.is_none() || { let (bl, bh) = range(best.unwrap().0); w < bh.saturating_sub(bl) } { best = Some((*s, *v)); } } }
            match best {
                None => { *model = Some(sol.iter().map(|(s, v)| (*s, v.n)).collect()); false }
                Some((s, v)) => {
                    let f = v.n.div_euclid(v.d);
                    let mut a = rows.to_vec();
                    a.push(Lin::s(s).neg().addk(f));
                    if !infeasible(&a, depth + 1, model) { return false; }
                    let mut b = rows.to_vec();
                    b.push(Lin::s(s).addk(-f - 1));
                    infeasible(&b, depth + 1, model)
                }
            }
        }
        Err(Ovf) => false,
    }
}

/// bound propagation: None if some row cannot hold; otherwise bounds per symbol
fn propagate(rows: &[Lin], syms: &[S]) -> Option<(Vec<i128>, Vec<i128>)> {
    let mut lo: Vec<i128> = vec![];
    let mut hi: Vec<i128> = vec![];
    for s in syms { let (l, h) = range(*s); lo.push(l.max(-BIG)); hi.push(h.min(BIG)); }
    let idx: Vec<Vec<(usize, i128)>> = rows.iter().map(|r| r.t.iter().map(|(s, c)| (syms.binary_search(s).unwrap(), *c)).collect()).collect();
    for _ in 0..6 {
        let mut ch = false;
        for (r, t) in rows.iter().zip(&idx) {
            // sum c*x + k >= 0; max of the others bounds each term from below
            let mut max = r.k;
            for (j, c) in t { max += if *c > 0 { c * hi[*j] } else { c * lo[*j] }; }
            if max < 0 { return None; }
            for (j, c) in t {
                let mine = if *c > 0 { c * hi[*j] } else { c * lo[*j] };
                let rest = max - mine; // c*x >= -rest
                if *c > 0 { let b = -(rest.div_euclid(*c)); if b > lo[*j] { lo[*j] = b; ch = true; } }
                else { let b = rest.div_euclid(-*c); if b < hi[*j] { hi[*j] = b; ch = true; } }
                if lo[*j] > hi[*j] { return None; }
            }
        }
        if !ch { break; }
    }
    Some((lo, hi))
}

fn simplex(rows: &[Lin]) -> Result<Option<Vec<(S, R)>>, Ovf> {
    let mut syms: Vec<S> = vec![];
    for r in rows { for (s, _) in &r.t { syms.push(*s); } }
    syms.sort();
    syms.dedup();
    let n = syms.len();
    for r in rows { if r.t.is_empty() && r.k < 0 { return Ok(None); } }
    let Some((plo, phi)) = propagate(rows, &syms) else { return Ok(None) };
    // variables 0..n originals, n.. slacks
    let mut lo: Vec<Option<i128>> = plo.iter().map(|l| if *l > -BIG { Some(*l) } else { None }).collect();
    let mut hi: Vec<Option<i128>> = phi.iter().map(|h| if *h < BIG { Some(*h) } else { None }).collect();
    let mut t: Vec<Vec<R>> = vec![];
    for r in rows {
        if r.t.len() <= 1 { continue; }
        let mut min = r.k;
        let mut row = vec![R::Z; n];
        for (s, c) in &r.t { let j = syms.binary_search(s).unwrap(); row[j] = R::i(*c); min += if *c > 0 { c * plo[j] } else { c * phi[j] }; }
        if min >= 0 { continue; }
        t.push(row);
        lo.push(Some(-r.k));
        hi.push(None);
    }
    let m = t.len();
    let mut val: Vec<R> = vec![R::Z; n + m];
    for j in 0..n { val[j] = match (lo[j], hi[j]) { (Some(l), _) => R::i(l), (None, Some(h)) => R::i(h), _ => R::Z }; }
    for i in 0..m { let mut v = R::Z; for j in 0..n { if !t[i][j].zero() { v = v.add(t[i][j].mul(val[j])?)?; } } val[n + i] = v; }
    let mut basis: Vec<usize> = (n..n + m).collect();
    let mut cols: Vec<usize> = (0..n).collect();
    for _ in 0..2000 {
        // violated basic variable with the smallest index
        let mut vi: Option<(usize, bool)> = None;
        for i in 0..m {
            let b = basis[i];
            if vi.map_or(false, |(x, _)| basis[x] < b) { continue; }
            if let Some(l) = lo[b] { if val[b].lt(R::i(l))? { vi = Some((i, true)); continue; } }
            if let Some(h) = hi[b] { if R::i(h).lt(val[b])? { vi = Some((i, false)); } }
        }
        let (i, low) = match vi { None => return Ok(Some((0..n).map(|j| (syms[j], val[j])).collect())), Some(x) => x };
        let b = basis[i];
        let mut pj: Option<usize> = None;
        for k in 0..n {
            if t[i][k].zero() { continue; }
            let j = cols[k];
            if pj.map_or(false, |p| cols[p] < j) { continue; }
            let pos = t[i][k].n > 0;
            let can = if low == pos { hi[j].map_or(Ok(true), |h| val[j].lt(R::i(h)))? } else { lo[j].map_or(Ok(true), |l| R::i(l).lt(val[j]))? };
            if can { pj = Some(k); }
        }
        let k = match pj { None => return Ok(None), Some(k) => k };
        let j = cols[k];
        let target = R::i(if low { lo[b].unwrap() } else { hi[b].unwrap() });
        let theta = target.sub(val[b])?.div(t[i][k])?;
        val[b] = target;
        val[j] = val[j].add(theta)?;
        for r in 0..m { if r != i && !t[r][k].zero() { let x = basis[r]; val[x] = val[x].add(t[r][k].mul(theta)?)?; } }
        // pivot: b = sum t[i][c] x_c  =>  x_j = (b - sum_{c!=k}) / t[i][k]; column k now belongs to b
        let p = t[i][k];
        let mut row = std::mem::take(&mut t[i]);
        for c in 0..n { if c != k && !row[c].zero() { row[c] = row[c].neg().div(p)?; } }
        row[k] = R::i(1).div(p)?;
        for r in 0..m {
            if r == i || t[r][k].zero() { continue; }
            let f = t[r][k];
            t[r][k] = R::Z;
            for c in 0..n { if !row[c].zero() { t[r][c] = t[r][c].add(f.mul(row[c])?)?; } }
        }
        t[i] = row;
        basis[i] = j;
        cols[k] = b;
    }
    Err(Ovf)
}
