//! Symbols (immutable unknowns) and linear expressions over them.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct S(pub u32);

/// k + sum(coef * symbol); `t` is sorted by symbol and has no zero coefficients.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Lin {
    pub k: i128,
    pub t: Vec<(S, i128)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum En { Le, Be, Native }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Def {
    Fresh(Rc<str>, u32),
    /// unsigned integer of `w` bytes stored at `off` in region `reg`
    Load { reg: u32, ver: u32, off: Lin, w: u8, en: En },
    Div(Lin, i128),
    App(Rc<str>, Vec<Lin>),
}

pub struct Info { pub def: Def, pub lo: i128, pub hi: i128, pub div: Option<(Rc<Lin>, i128)> }

#[derive(Default)]
pub struct Tab { pub v: Vec<Info>, m: HashMap<Def, S>, n: u32 }

thread_local! { pub static TAB: RefCell<Tab> = RefCell::new(Tab::default()); }

pub const BIG: i128 = 1 << 66;

pub fn reset() { TAB.with(|t| *t.borrow_mut() = Tab::default()) }
pub fn nsyms() -> usize { TAB.with(|t| t.borrow().v.len()) }

pub fn mk(def: Def, lo: i128, hi: i128) -> S {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(s) = t.m.get(&def) {
            let s = *s;
            let i = &mut t.v[s.0 as usize];
            i.lo = i.lo.max(lo);
            i.hi = i.hi.min(hi);
            return s;
        }
        let s = S(t.v.len() as u32);
        t.m.insert(def.clone(), s);
        let div = if let Def::Div(e, k) = &def { Some((Rc::new(e.clone()), *k)) } else { None };
        t.v.push(Info { def, lo, hi, div });
        s
    })
}
pub fn fresh(name: &str, lo: i128, hi: i128) -> Lin {
    let n = TAB.with(|t| { let mut t = t.borrow_mut(); t.n += 1; t.n });
    Lin::s(mk(Def::Fresh(name.into(), n), lo, hi))
}
pub fn def(s: S) -> Def { TAB.with(|t| t.borrow().v[s.0 as usize].def.clone()) }
pub fn div_of(s: S) -> Option<(Rc<Lin>, i128)> { TAB.with(|t| t.borrow().v[s.0 as usize].div.clone()) }
pub fn range(s: S) -> (i128, i128) { TAB.with(|t| { let t = t.borrow(); let i = &t.v[s.0 as usize]; (i.lo, i.hi) }) }
pub fn app(f: &str, a: Vec<Lin>, lo: i128, hi: i128) -> Lin { Lin::s(mk(Def::App(f.into(), a), lo, hi)) }
pub fn load(reg: u32, ver: u32, off: Lin, w: u8, en: En) -> Lin {
    let en = if w == 1 { En::Le } else { en };
    let hi = if w >= 16 { i128::MAX } else { (1i128 << (8 * w as u32)) - 1 };
    Lin::s(mk(Def::Load { reg, ver, off, w, en }, 0, hi))
}

fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let r = a % b; a = b; b = r; } a }

impl Lin {
    pub fn c(k: i128) -> Lin { Lin { k, t: vec![] } }
    pub fn s(s: S) -> Lin { Lin { k: 0, t: vec![(s, 1)] } }
    pub fn is_c(&self) -> Option<i128> { if self.t.is_empty() { Some(self.k) } else { None } }
    pub fn axpy(&self, a: i128, o: &Lin) -> Lin {
        // self + a*o
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) { t.push(self.t[i]); i += 1; }
            else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { let c = a.wrapping_mul(o.t[j].1); if c != 0 { t.push((o.t[j].0, c)); } j += 1; }
            else { let c = self.t[i].1.wrapping_add(a.wrapping_mul(o.t[j].1)); if c != 0 { t.push((self.t[i].0, c)); } i += 1; j += 1; }
        }
        Lin { k: self.k.wrapping_add(a.wrapping_mul(o.k)), t }
    }
    pub fn add(&self, o: &Lin) -> Lin { self.axpy(1, o) }
    pub fn sub(&self, o: &Lin) -> Lin { self.axpy(-1, o) }
    pub fn addk(&self, k: i128) -> Lin { let mut r = self.clone(); r.k += k; r }
    pub fn mul(&self, a: i128) -> Lin { Lin::c(0).axpy(a, self) }
    pub fn neg(&self) -> Lin { self.mul(-1) }
    pub fn coef(&self, s: S) -> i128 { match self.t.binary_search_by_key(&s, |x| x.0) { Ok(i) => self.t[i].1, Err(_) => 0 } }
    pub fn subst(&self, s: S, e: &Lin) -> Lin {
        let c = self.coef(s);
        if c == 0 { return self.clone(); }
        let mut r = self.clone();
        r.t.retain(|x| x.0 != s);
        r.axpy(c, e)
    }
    pub fn gcd(&self) -> i128 { self.t.iter().fold(0, |g, x| gcd(g, x.1)) }
    /// crude interval from the symbols' global ranges
    pub fn interval(&self) -> (i128, i128) {
        let (mut lo, mut hi) = (self.k, self.k);
        for (s, c) in &self.t {
            let (l, h) = range(*s);
            let (l, h) = (l.max(-BIG), h.min(BIG));
            if *c > 0 { lo = lo.saturating_add(c.saturating_mul(l)); hi = hi.saturating_add(c.saturating_mul(h)); }
            else { lo = lo.saturating_add(c.saturating_mul(h)); hi = hi.saturating_add(c.saturating_mul(l)); }
        }
        (lo, hi)
    }
}

/// floor(e / k) as a canonical expression
pub fn div(e: &Lin, k: i128) -> Lin {
    assert!(k > 0);
    if k == 1 { return e.clone(); }
    let mut outer = Lin::c(0);
    let mut rest = Lin::c(0);
    for (s, c) in &e.t {
        let q = c.div_euclid(k);
        let r = c - q * k;
        // keep small negative coefficients together with positive ones: only pull out exact multiples
        if r == 0 { outer = outer.axpy(q, &Lin::s(*s)); } else { rest = rest.axpy(*c, &Lin::s(*s)); }
    }
    let kq = e.k.div_euclid(k);
    outer.k += kq;
    rest.k = e.k - kq * k;
    if rest.t.is_empty() { return outer; } // 0 <= rest.k < k
    let g = gcd(rest.gcd(), k);
    let (rest, k) = if g > 1 {
        // floor((g*a + r)/(g*b)) = floor((a + floor(r/g))/b)
        let mut r = rest.clone();
        for x in r.t.iter_mut() { x.1 /= g; }
        r.k = r.k.div_euclid(g);
        (r, k / g)
    } else { (rest, k) };
    if k == 1 { return outer.add(&rest); }
    if rest.t.len() == 1 && rest.k == 0 && rest.t[0].1 == 1 {
        // floor(floor(x/a)/b) = floor(x/(ab))
        if let Def::Div(x, a) = def(rest.t[0].0) { return outer.add(&div(&x, a * k)); }
    }
    if rest.t.len() == 1 && rest.t[0].1 == 1 {
        if let Def::Div(x, a) = def(rest.t[0].0) { return outer.add(&div(&x.addk(rest.k * a), a * k)); }
    }
    let (lo, hi) = rest.interval();
    if lo >= 0 && hi < k { return outer; }
    let (ql, qh) = (lo.max(-BIG).div_euclid(k), hi.min(BIG).div_euclid(k));
    if ql == qh { return outer.addk(ql); }
    outer.add(&Lin::s(mk(Def::Div(rest, k), ql, qh)))
}
pub fn rem(e: &Lin, k: i128) -> Lin { e.axpy(-k, &div(e, k)) }
/// e & mask for a non-negative e
pub fn mask(e: &Lin, m: i128) -> Lin {
    let mut r = Lin::c(0);
    let mut b = 0u32;
    while b < 127 && (m >> b) != 0 {
        if (m >> b) & 1 == 0 { b += 1; continue; }
        let lo = b;
        while b < 127 && (m >> b) & 1 == 1 { b += 1; }
        // bits lo..b
        let x = div(e, 1 << lo);
        let y = if b < 100 { rem(&x, 1 << (b - lo)) } else { x };
        r = r.axpy(1 << lo, &y);
    }
    r
}

pub fn show(e: &Lin) -> String {
    let mut o = String::new();
    for (s, c) in &e.t {
        if !o.is_empty() { o += if *c < 0 { " - " } else { " + " }; } else if *c < 0 { o += "-"; }
        if c.abs() != 1 { o += &format!("{}*", c.abs()); }
        o += &show_s(*s);
    }
    if o.is_empty() { return format!("{}", e.k); }
    if e.k != 0 { o += &if e.k < 0 { format!(" - {}", -e.k) } else { format!(" + {}", e.k) }; }
    o
}
pub fn show_s(s: S) -> String {
    match def(s) {
        Def::Fresh(n, k) => format!("{n}#{k}"),
        Def::Load { reg, ver, off, w, en } => format!("load{}{}[r{}{}:{}]", w as u32 * 8, match en { En::Le => "", En::Be => "be", En::Native => "NATIVE" }, reg, if ver > 0 { format!("v{ver}") } else { String::new() }, show(&off)),
        Def::Div(e, k) => format!("({})/{}", show(&e), k),
        Def::App(f, a) => if a.len() > 8 { format!("{f}(..{} args)", a.len()) } else { format!("{f}({})", a.iter().map(show).collect::<Vec<_>>().join(", ")) },
    }
}
