//! Loops: deterministic unrolling, otherwise a fixpoint over loop-head abstract states
//! (one per control-relevant shape), ranking measures for termination, and joins.
use crate::exec::*;
use crate::sym::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
enum LV { L(Lin), B(C) }

/// visit (and possibly replace) the numeric leaves of a value; `key` receives everything else,
/// `h` identifies the position of a leaf independently of the variants of its neighbours
fn map_v(v: &V, h: u64, key: &mut String, f: &mut dyn FnMut(LV, u64) -> LV) -> V {
    fn mix(h: u64, k: u64) -> u64 { (h ^ k.wrapping_add(0x9e3779b97f4a7c15)).wrapping_mul(0xff51afd7ed558ccd).rotate_left(29) }
    fn l(e: &Lin, h: u64, f: &mut dyn FnMut(LV, u64) -> LV) -> Lin { match f(LV::L(e.clone()), h) { LV::L(e) => e, LV::B(_) => e.clone() } }
    use std::fmt::Write;
    fn p(q: &P, h: u64, key: &mut String, f: &mut dyn FnMut(LV, u64) -> LV) -> P {
        match q {
            P::Obj(o, path) => {
                let _ = write!(key, "O{o}");
                P::Obj(*o, path.iter().enumerate().map(|(n, e)| match e { Pe::F(i) => { let _ = write!(key, ".{i}"); Pe::F(*i) } Pe::I(e) => { key.push('[' ); Pe::I(l(e, mix(h, 7000 + n as u64), f)) } }).collect())
            }
            P::Reg(r, off) => { let _ = write!(key, "R{r}"); P::Reg(*r, l(off, mix(h, 8000), f)) }
            P::Int(e) => { key.push('P'); P::Int(l(e, mix(h, 8001), f)) }
        }
    }
    match v {
        V::Undef => { key.push('?'); V::Undef }
        V::Int(e) => { key.push('i'); V::Int(l(e, h, f)) }
        V::Bool(C::B(b)) => { key.push(if *b { 'T' } else { 'F' }); V::Bool(C::B(*b)) }
        V::Bool(c) => { key.push('b'); match f(LV::B(c.clone()), h) { LV::B(c) => V::Bool(c), _ => V::Bool(c.clone()) } }
        V::Ref(q) => { key.push('&'); V::Ref(p(q, h, key, f)) }
        V::Fat(q, m) => { key.push('*'); let q = p(q, h, key, f); let m = map_v(m, mix(h, 9000), key, f); V::Fat(q, Rc::new(m)) }
        V::Agg(n, fs) => {
            let _ = write!(key, "{n}{{");
            let fs = fs.iter().enumerate().map(|(i, x)| map_v(x, mix(h, (*n as u64) * 100_000 + 10_000 + i as u64), key, f)).collect();
            key.push('}');
            V::Agg(*n, Rc::new(fs))
        }
        V::Bytes(r, off, t) => { let _ = write!(key, "Y{r}:{t}"); V::Bytes(*r, l(off, h, f), *t) }
        V::Top(t, id) => { let _ = write!(key, "^{t}"); V::Top(*t, l(id, h, f)) }
        V::Fn(i) => { let _ = write!(key, "f{}", i.name()); V::Fn(*i) }
    }
}

struct Shape { key: String, leaves: Vec<LV>, ids: Vec<(O, u64)>, fat: Vec<(usize, usize, u32)> }
fn shape(st: &St) -> Shape {
    use std::fmt::Write;
    let mut s = Shape { key: String::new(), leaves: vec![], ids: vec![], fat: vec![] };
    for (o, v) in &st.objs {
        let _ = write!(s.key, ";{o}=");
        let (leaves, ids) = (&mut s.leaves, &mut s.ids);
        map_v(v, 1, &mut s.key, &mut |x, h| {
            let y = match x { LV::L(e) => LV::L(st.norm(&e)), b => b };
            leaves.push(y.clone()); ids.push((*o, h)); y
        });
    }
    // (offset, length) pairs of byte slices
    let mut k = 0;
    for v in st.objs.values() { fats(v, &mut k, &mut s.fat); }
    s
}
fn fats(v: &V, k: &mut usize, out: &mut Vec<(usize, usize, u32)>) {
    match v {
        V::Fat(P::Reg(r, _), m) if matches!(**m, V::Int(_)) => { out.push((*k, *k + 1, *r)); *k += 2; }
        V::Agg(_, f) => for x in f.iter() { fats(x, k, out) },
        _ => { map_v(v, 1, &mut String::new(), &mut |x, _| { *k += 1; x }); }
    }
}
fn rebuild(objs: &BTreeMap<O, V>, vals: &[LV]) -> BTreeMap<O, V> {
    let mut i = 0;
    let mut key = String::new();
    objs.iter().map(|(o, v)| (*o, map_v(v, 1, &mut key, &mut |_, _| { i += 1; vals[i - 1].clone() }))).collect()
}

#[derive(Clone, Debug)]
enum HK { Fix(Lin), Free(S), Stride(Lin, i128, S), FixB(C), FreeB(S) }

fn hk_val(h: &HK) -> Option<Lin> { match h { HK::Free(s) => Some(Lin::s(*s)), HK::Stride(b, d, q) => Some(b.axpy(*d, &Lin::s(*q))), HK::Fix(e) => Some(e.clone()), _ => None } }
struct Group { key: String, tmpl: St, hk: Vec<HK>, ids: Vec<(O, u64)>, fat: Vec<(usize, usize, u32)>, cands: Vec<Lin>, ver: BTreeMap<u32, u32>, vfree: BTreeSet<u32>, counters: BTreeSet<usize>, peeled: bool, regen: bool, dirty: bool, backs: Vec<Rc<Edge>>, outs: Vec<Exit> }
struct Edge { src: Option<usize>, dst: usize, st: St, leaves: Vec<LV>, heads: Vec<Option<Lin>> }

struct Stab { n0: usize, v0: u32, memo: HashMap<S, bool> }
impl Stab {
    fn s(&mut self, s: S) -> bool {
        if (s.0 as usize) < self.n0 { return true; }
        if let Some(b) = self.memo.get(&s) { return *b; }
        let b = match def(s) {
            Def::Fresh(..) => false,
            Def::Load { ver, off, .. } => ver <= self.v0 && self.l(&off),
            Def::Div(e, _) => self.l(&e),
            Def::App(_, a) => a.iter().all(|e| self.l(e)),
        };
        self.memo.insert(s, b);
        b
    }
    fn l(&mut self, e: &Lin) -> bool { e.t.iter().all(|x| self.s(x.0)) }
    fn c(&mut self, c: &C) -> bool { match c { C::B(_) => true, C::Ge(e) | C::Eq(e) | C::Ne(e) => self.l(e), C::And(v) | C::Or(v) => v.iter().all(|x| self.c(x)) } }
}
fn sym1(l: &Lin) -> S { l.t[0].0 }
fn exact_div(e: &Lin, d: i128) -> Option<Lin> {
    if e.k % d != 0 || e.t.iter().any(|x| x.1 % d != 0) { return None; }
    Some(Lin { k: e.k / d, t: e.t.iter().map(|x| (x.0, x.1 / d)).collect() })
}

impl Group {
    fn head(&self, entry: &St) -> St {
        let mut st = entry.clone();
        let vals: Vec<LV> = self.hk.iter().map(|h| match h {
            HK::Fix(e) => LV::L(e.clone()),
            HK::Free(s) => LV::L(Lin::s(*s)),
            HK::Stride(b, d, q) => LV::L(b.axpy(*d, &Lin::s(*q))),
            HK::FixB(c) => LV::B(c.clone()),
            HK::FreeB(s) => LV::B(C::Eq(Lin::s(*s).addk(-1))),
        }).collect();
        st.objs = rebuild(&self.tmpl.objs, &vals);
        let mut rv = (*st.regver).clone();
        for (r, v) in &self.ver { rv.insert(*r, *v); }
        st.regver = Rc::new(rv);
        for c in &self.cands { st.st.add_ge(c); if st.st.dead { break; } }
        // a 64-bit counter that starts small and grows by at most one per iteration does not reach 2^62
        for k in &self.counters { if let HK::Free(s) = self.hk[*k] { st.st.add_ge(&Lin::s(s).neg().addk(1 << 62)); } }
        st
    }
    /// values of the head symbols on an edge
    fn params(&self, e: &Edge) -> HashMap<S, Lin> {
        let mut m = HashMap::new();
        for (h, v) in self.hk.iter().zip(&e.leaves) {
            match (h, v) {
                (HK::Free(s), LV::L(x)) => { m.insert(*s, x.clone()); }
                (HK::Stride(b, d, q), LV::L(x)) => { if let Some(k) = exact_div(&e.st.norm(&x.sub(b)), *d) { m.insert(*q, k); } }
                _ => {}
            }
        }
        m
    }
}
fn subst(e: &Lin, m: &HashMap<S, Lin>) -> Lin {
    let mut r = Lin::c(e.k);
    for (s, c) in &e.t { match m.get(s) { Some(v) => r = r.axpy(*c, v), None => r = r.axpy(*c, &Lin::s(*s)) } }
    r
}

struct Snap { findings: BTreeMap<Finding, String>, proved: BTreeMap<String, u64>, unmodelled: BTreeMap<String, u64>, funcs: BTreeSet<String>, loops: BTreeMap<String, String> }
fn take(x: &mut X) -> Snap { Snap { findings: std::mem::take(&mut x.findings), proved: std::mem::take(&mut x.proved), unmodelled: std::mem::take(&mut x.unmodelled), funcs: std::mem::take(&mut x.funcs), loops: std::mem::take(&mut x.loops_done) } }
fn restore(x: &mut X, s: Snap) { x.findings = s.findings; x.proved = s.proved; x.unmodelled = s.unmodelled; x.funcs = s.funcs; x.loops_done = s.loops; }
fn commit(x: &mut X, s: Snap) {
    for (k, v) in s.findings { x.findings.entry(k).or_insert(v); }
    for (k, v) in s.proved { *x.proved.entry(k).or_insert(0) += v; }
    for (k, v) in s.unmodelled { *x.unmodelled.entry(k).or_insert(0) += v; }
    x.funcs.extend(s.funcs);
    x.loops_done.extend(s.loops);
}

pub fn do_loop(x: &mut X, fr: &Frame, bb: usize, st: St) -> Vec<Exit> {
    let mut st = st;
    x.prune(fr, bb, &mut st);
    let within = fr.f.loops[&bb].clone();
    // ---- deterministic unrolling
    let mut n = 0;
    let t_unroll = x.steps;
    loop {
        let snap = take(x);
        let ex = x.run(fr, bb, st.clone(), Some(bb), Some(&within));
        if x.gave_up.is_some() { commit(x, snap); return vec![]; }
        let backs = ex.iter().filter(|e| matches!(e, Exit::Back(_))).count();
        if backs == 0 { commit(x, snap); return ex; }
        if backs == 1 && ex.len() == 1 && n < 1200 && (n < 4 || x.steps - t_unroll < 400_000) {
            commit(x, snap);
            n += 1;
            if let Some(Exit::Back(s)) = ex.into_iter().next() { st = s; x.prune(fr, bb, &mut st); }
            continue;
        }
        restore(x, snap);
        break;
    }
    // ---- a loop that ends after a few iterations whatever happens
    let ctx: (Vec<rustc_public::mir::mono::Instance>, usize) = (x.stack.iter().map(|f| f.0).collect(), bb);
    if !x.long_loops.contains(&ctx) {
        let snap = take(x);
        let mut cur = vec![st.clone()];
        let mut outs: Vec<Exit> = vec![];
        let mut rounds = 0;
        while !cur.is_empty() && cur.len() <= 6 && rounds < 3 {
            rounds += 1;
            let mut next = vec![];
            for s in cur {
                for e in x.run(fr, bb, s, Some(bb), Some(&within)) { match e { Exit::Back(mut s) => { x.prune(fr, bb, &mut s); if !s.st.dead { next.push(s) } } e => outs.push(e) } }
                if x.gave_up.is_some() { commit(x, snap); return vec![]; }
            }
            cur = merge_states(x, next);
        }
        if cur.is_empty() {
            commit(x, snap);
            if x.quiet == 0 { x.loops_done.insert(format!("{} bb{}", fr.f.name, bb), format!("ends after at most {rounds} iterations")); }
            return outs;
        }
        restore(x, snap);
        x.long_loops.insert(ctx);
    }
    fixpoint(x, fr, bb, st, &within)
}

fn fixpoint(x: &mut X, fr: &Frame, bb: usize, entry: St, within: &BTreeSet<usize>) -> Vec<Exit> {
    let mut sb = Stab { n0: nsyms(), v0: crate::models::cur_ver(), memo: HashMap::new() };
    let lname = format!("{} bb{}", fr.f.name, bb);
    let mut groups: Vec<Group> = vec![];
    let mut edges: Vec<Rc<Edge>>;
    let mut entry_edge: Option<Rc<Edge>> = None;
    let mut rounds = 0;
    // the first iteration is kept apart: what happened at least once is then known to have
    let peel = !fr.f.name.starts_with("contracts::");
    let ctx: (Vec<rustc_public::mir::mono::Instance>, usize) = (x.stack.iter().map(|f| f.0).collect(), bb);
    let memo = x.warm.get(&ctx).cloned();
    let mut warmed: BTreeSet<usize> = BTreeSet::new();
    let dbg = x.debug && std::env::var("SA_LOOP").is_ok();
    if dbg { eprintln!("LOOP {lname} depth {} quiet {}", x.stack.len(), x.quiet); }
    loop {
        rounds += 1;
        if rounds > 60 { x.gave_up = Some(format!("no fixpoint for {lname} in {}", x.trace())); return vec![]; }
        let mut sts: Vec<(Option<usize>, St, Vec<Option<Lin>>)> = vec![];
        if rounds == 1 { sts.push((None, entry.clone(), vec![])); }
        x.quiet += 1;
        for g in 0..groups.len() {
            if !groups[g].dirty { continue; }
            groups[g].dirty = false;
            groups[g].outs.clear();
            groups[g].backs.clear();
            let h = groups[g].head(&entry);
            let hv: Vec<Option<Lin>> = groups[g].hk.iter().map(hk_val).collect();
            if h.st.dead { continue; }
            for e in x.run(fr, bb, h, Some(bb), Some(within)) { match e { Exit::Back(mut s) => { x.prune(fr, bb, &mut s); sts.push((Some(g), s, hv.clone())); } e => groups[g].outs.push(e) } }
            if x.gave_up.is_some() { x.quiet -= 1; return vec![]; }
        }
        x.quiet -= 1;
        let mut changed = false;
        for (src, s, heads) in sts {
            if s.st.dead { continue; }
            let sh = shape(&s);
            let g = match groups.iter().position(|g| g.key == sh.key && !g.peeled) {
                Some(g) => g,
                None => {
                    if groups.len() >= 24 { if x.debug { for g in &groups { eprintln!("GROUP {}", g.key); } eprintln!("NEW {}", sh.key); } x.gave_up = Some(format!("too many loop states for {lname} in {}", x.trace())); return vec![]; }
                    changed = true;
                    // what changed when this loop was last analysed in the same calling context changes again, most likely
                    let warm = if src.is_some() { memo.as_ref().and_then(|m| m.get(&norm_key(&sh.key))).filter(|w| w.len() == sh.leaves.len()) } else { None };
                    let hk = sh.leaves.iter().enumerate().map(|(i, l)| match l {
                        LV::L(e) if sb.l(e) && warm.map_or(false, |w| w[i] != 0) => { let d = warm.unwrap()[i]; if d == 1 { HK::Free(sym1(&fresh("h", -BIG, BIG))) } else { HK::Stride(e.clone(), d, sym1(&fresh("q", 0, BIG))) } }
                        LV::B(c) if sb.c(c) && warm.map_or(false, |w| w[i] != 0) => HK::FreeB(sym1(&fresh("hb", 0, 1))),
                        LV::L(e) => if sb.l(e) { HK::Fix(e.clone()) } else { HK::Free(sym1(&fresh("h", -BIG, BIG))) },
                        LV::B(c) => if sb.c(c) { HK::FixB(c.clone()) } else { HK::FreeB(sym1(&fresh("hb", 0, 1))) },
                    }).collect();
                    let mut ver = BTreeMap::new();
                    for (r, v) in s.regver.iter() { ver.insert(*r, *v); }
                    groups.push(Group { key: sh.key.clone(), tmpl: s.clone(), hk, ids: sh.ids.clone(), fat: sh.fat.clone(), cands: vec![], ver, vfree: BTreeSet::new(), counters: if ptrw() == 64 { (0..sh.leaves.len()).collect() } else { BTreeSet::new() }, peeled: peel && src.is_none(), dirty: true, backs: vec![], outs: vec![], regen: false });
                    let gi = groups.len() - 1;
                    if warm.is_some() { warmed.insert(gi); }
                    let ee = entry_edge.clone();
                    if src.is_some() { let e = Rc::new(Edge { src, dst: gi, st: s.clone(), leaves: sh.leaves.clone(), heads: vec![] }); gen_from_edge(x, &mut groups[gi], &e, &mut sb); gen_cands(x, &mut groups, gi, &[e], &mut sb, &entry, None, ee.as_ref()); }
                    gi
                }
            };
            let e = Rc::new(Edge { src, dst: g, st: s, leaves: sh.leaves, heads: if src == Some(g) { heads } else { vec![] } });
            match src { None => entry_edge = Some(e), Some(k) => groups[k].backs.push(e) }
        }
        edges = entry_edge.iter().cloned().collect();
        for g in &groups { edges.extend(g.backs.iter().cloned()); }
        // counters
        let mut drop: Vec<(usize, usize)> = vec![];
        for e in &edges {
            for &k in &groups[e.dst].counters {
                let LV::L(v) = &e.leaves[k] else { drop.push((e.dst, k)); continue };
                let ok = match e.src {
                    None => e.st.norm(v).is_c().map_or(false, |k| k >= 0 && k < (1 << 32)),
                    Some(s) => {
                        let id = groups[e.dst].ids[k];
                        let h = groups[s].ids.iter().position(|i| *i == id).and_then(|j| match &groups[s].hk[j] { HK::Fix(e) => Some(e.clone()), HK::Free(s) => Some(Lin::s(*s)), _ => None });
                        h.map_or(false, |h| { let d = e.st.norm(&v.sub(&h)).is_c(); d == Some(0) || d == Some(1) })
                    }
                };
                if !ok { drop.push((e.dst, k)); }
            }
        }
        for (g, k) in drop { groups[g].counters.remove(&k); if matches!(groups[g].hk[k], HK::Free(_)) { changed = true; groups[g].dirty = true; } }
        for g in 0..groups.len() {
            let mine: Vec<usize> = (0..edges.len()).filter(|i| edges[*i].dst == g).collect();
            let mut newsyms: Vec<usize> = vec![];
            for &i in &mine {
                let e = &edges[i];
                // region versions
                let regs: BTreeSet<u32> = e.st.regver.keys().copied().chain(groups[g].ver.keys().copied()).collect();
                for r in regs {
                    let cur = groups[g].ver.get(&r).copied().unwrap_or(entry.ver(r));
                    if e.st.ver(r) != cur && groups[g].vfree.insert(r) { let v = crate::models::new_ver(); groups[g].ver.insert(r, v); changed = true; groups[g].dirty = true; }
                }
                for k in 0..e.leaves.len() {
                    let nh = match (&groups[g].hk[k], &e.leaves[k]) {
                        (HK::Fix(h), LV::L(v)) => {
                            let d = e.st.norm(&v.sub(h));
                            if d.is_c() == Some(0) || e.st.st.prove_eq(&d) { None }
                            else if let Some(q) = exact_stride(&d) { if q.1 { Some(HK::Stride(h.clone(), q.0, sym1(&fresh("q", 0, BIG)))) } else { Some(HK::Free(sym1(&fresh("h", -BIG, BIG)))) } }
                            else { Some(HK::Free(sym1(&fresh("h", -BIG, BIG)))) }
                        }
                        (HK::Stride(b, d, _), LV::L(v)) => match exact_div(&e.st.norm(&v.sub(b)), *d) { Some(q) if e.st.st.prove_ge(&q) => None, _ => Some(HK::Free(sym1(&fresh("h", -BIG, BIG)))) },
                        (HK::FixB(c), LV::B(d)) => if c == d { None } else { Some(HK::FreeB(sym1(&fresh("hb", 0, 1)))) },
                        _ => None,
                    };
                    if let Some(nh) = nh { if dbg { eprintln!("   hk {:?} {:?} -> {:?} by {:?}->{} {}", groups[g].ids[k], groups[g].hk[k], nh, e.src, e.dst, match &e.leaves[k] { LV::L(v) => show(v), _ => String::new() }); }
                        groups[g].hk[k] = nh; newsyms.push(k); changed = true; groups[g].dirty = true; }
                }
            }
            // values freed in advance: relations that need a second edge to be seen
            let late = !newsyms.is_empty() || warmed.contains(&g) && mine.iter().any(|i| edges[*i].src == Some(g));
            if late && warmed.remove(&g) { newsyms.extend((0..groups[g].hk.len()).filter(|k| matches!(groups[g].hk[*k], HK::Free(_) | HK::Stride(..)))); if rounds > 1 { changed = true; groups[g].dirty = true; } }
            // a loop whose head values were all free from the start: linear relations between the values of all edges, kept only
            // when the next round, which assumes them at the head, proves them again
            let mut relations: Vec<Lin> = vec![];
            if newsyms.is_empty() && !groups[g].regen && mine.iter().any(|i| edges[*i].src == Some(g)) {
                groups[g].regen = true;
                let es: Vec<Rc<Edge>> = mine.iter().map(|i| edges[*i].clone()).collect();
                let known: HashSet<Lin> = groups[g].cands.iter().cloned().collect();
                let out: Vec<(usize, HashMap<S, Lin>)> = mine.iter().filter(|i| edges[**i].src != Some(g)).map(|i| (*i, groups[g].params(&edges[*i]))).collect();
                relations = affine(&groups[g], g, &es, &mut sb).into_iter().filter(|c| c.is_c().is_none() && !known.contains(c) && out.iter().all(|(i, m)| edges[*i].st.st.prove_ge(&subst(c, m)))).collect();
            }
            if !newsyms.is_empty() {
                // candidates mentioning abandoned symbols are gone
                let live: HashSet<S> = groups[g].hk.iter().filter_map(|h| match h { HK::Free(s) | HK::Stride(_, _, s) => Some(*s), _ => None }).collect();
                let n0 = sb.n0;
                let mut cs = std::mem::take(&mut groups[g].cands);
                cs.retain(|c| c.t.iter().all(|(s, _)| live.contains(s) || (s.0 as usize) < n0 || sb.s(*s)));
                groups[g].cands = cs;
                let es: Vec<Rc<Edge>> = mine.iter().map(|i| edges[*i].clone()).collect();
                for e in es.iter().take(4) { gen_from_edge(x, &mut groups[g], e, &mut sb); }
                newsyms.sort(); newsyms.dedup();
                { let ee = entry_edge.clone(); gen_cands(x, &mut groups, g, &es, &mut sb, &entry, Some(&newsyms), ee.as_ref()); }
            }
            // filter
            let ps: Vec<(usize, HashMap<S, Lin>)> = mine.iter().map(|i| (*i, groups[g].params(&edges[*i]))).collect();
            let before = groups[g].cands.len();
            let cs = std::mem::take(&mut groups[g].cands);
            // edges that lead to the same head values mostly agree: what their common facts imply needs no proof for each of them
            let mut clusters: Vec<Vec<usize>> = vec![];
            for (j, (i, _)) in ps.iter().enumerate() {
                match clusters.iter_mut().find(|c| { let o = &edges[ps[c[0]].0]; o.src == edges[*i].src && o.leaves == edges[*i].leaves }) { Some(c) => c.push(j), None => clusters.push(vec![j]) }
            }
            let cores: Vec<Option<(crate::num::Store, HashMap<S, Lin>)>> = clusters.iter().map(|c| if c.len() < 2 { None } else {
                let st = crate::num::Store::common(&c.iter().map(|j| &edges[ps[*j].0].st.st).collect::<Vec<_>>());
                let o = &edges[ps[c[0]].0];
                let e = Edge { src: o.src, dst: o.dst, st: { let mut s = o.st.clone(); s.st = st.clone(); s }, leaves: o.leaves.clone(), heads: vec![] };
                let m = groups[g].params(&e);
                if m.len() == ps[c[0]].1.len() { Some((st, m)) } else { None }
            }).collect();
            if dbg { for c in &cs { for (i, m) in &ps { if !edges[*i].st.st.prove_ge(&subst(c, m)) { eprintln!("  DROP {} on edge {i} from {:?}", show(c), edges[*i].src); if std::env::var("SA_LOOP").unwrap() == "2" { let e = &edges[*i]; for (s, l) in e.st.st.eq.iter() { eprintln!("       {} = {}", show_s(*s), show(l)); } for f in e.st.st.ge.iter() { eprintln!("       {} >= 0", show(f)); } for f in e.st.st.ne.iter() { eprintln!("       {} != 0", show(f)); } } break; } } } }
            groups[g].cands = cs.into_iter().filter(|c| clusters.iter().zip(&cores).all(|(cl, core)| core.as_ref().map_or(false, |(st, m)| st.prove_ge(&subst(c, m))) || cl.iter().all(|j| edges[ps[*j].0].st.st.prove_ge(&subst(c, &ps[*j].1))))).collect();
            if !relations.is_empty() { groups[g].cands.append(&mut relations); changed = true; groups[g].dirty = true; }
            if groups[g].cands.len() != before { changed = true; groups[g].dirty = true; }
        }
        if dbg { for (i, g) in groups.iter().enumerate() { eprintln!("  round {rounds} group {i}: {} edges, {} cands, free {}", edges.iter().filter(|e| e.dst == i).count(), g.cands.len(), g.hk.iter().filter(|h| !matches!(h, HK::Fix(_) | HK::FixB(_))).count()); } }
        if !changed { break; }
    }
    if dbg { for (i, g) in groups.iter().enumerate() {
        let h = g.head(&entry);
        eprintln!("  GROUP {i}"); for (o, v) in &h.objs { eprintln!("    o{o} = {}", show_v(v)); } for c in &g.cands { eprintln!("    {} >= 0", show(c)); }
    } for e in &edges { eprintln!("  edge {:?} -> {}", e.src, e.dst); } }
    let mut m: BTreeMap<String, Vec<i128>> = BTreeMap::new();
    for g in &groups { if !g.peeled { m.insert(norm_key(&g.key), g.hk.iter().map(|h| match h { HK::Fix(_) | HK::FixB(_) => 0, HK::Free(_) | HK::FreeB(_) => 1, HK::Stride(_, d, _) => *d }).collect()); } }
    x.warm.insert(ctx, Rc::new(m));
    // ---- termination
    if x.quiet == 0 {
        let ok = terminates(&groups, &edges, &mut sb, dbg);
        let contract = fr.f.name.starts_with("contracts::") && !fr.f.name.starts_with("contracts::c00");
        match ok {
            Ok(m) => { x.loops_done.insert(lname.clone(), format!("{} state group(s), {} edge(s), {} rounds; ranking: {}", groups.len(), edges.len(), rounds, m)); if !contract { x.proved("loop terminates"); } }
            Err(m) => { x.loops_done.insert(lname.clone(), format!("{} state group(s), {} edge(s); NO RANKING", groups.len(), edges.len())); if !contract { x.report(&entry, "term", &format!("no decreasing measure found for a loop: {m}")); } }
        }
    }
    // ---- reporting run
    let mut out = vec![];
    if x.quiet > 0 { for g in groups { out.extend(g.outs); } return out; }
    for g in 0..groups.len() {
        let h = groups[g].head(&entry);
        if h.st.dead { continue; }
        for e in x.run(fr, bb, h, Some(bb), Some(within)) { match e { Exit::Back(_) => {} e => out.push(e) } }
        if x.gave_up.is_some() { return vec![]; }
    }
    out
}
/// a shape key that does not depend on how many objects were created before
fn norm_key(k: &str) -> String {
    let mut out = String::with_capacity(k.len());
    let mut ids: HashMap<String, usize> = HashMap::new();
    let mut it = k.chars().peekable();
    while let Some(c) = it.next() {
        out.push(c);
        if c == 'O' || c == ';' {
            let mut d = String::new();
            while let Some(n) = it.peek() { if n.is_ascii_digit() { d.push(*n); it.next(); } else { break } }
            let n = ids.len();
            let i = *ids.entry(d).or_insert(n);
            out.push_str(&i.to_string());
        }
    }
    out
}
/// a constant difference other than +-1 suggests a stride
fn exact_stride(d: &Lin) -> Option<(i128, bool)> {
    if let Some(k) = d.is_c() { return if k.abs() > 1 { Some((k, true)) } else { Some((k, false)) }; }
    let mut g = d.gcd();
    if d.k != 0 { g = crate::exec::gcd2(g, d.k.abs()); }
    if g > 1 { Some((g, true)) } else { None }
}

/// candidate facts: those of an edge's store that only mention stable symbols and head values
fn gen_from_edge(x: &X, g: &mut Group, e: &Edge, sb: &mut Stab) {
    let _ = x;
    // invert leaf values of the form s + k
    let mut inv: HashMap<S, Lin> = HashMap::new();
    for (h, v) in g.hk.iter().zip(&e.leaves) {
        let (hl, v) = match (h, v) { (HK::Free(s), LV::L(v)) => (Lin::s(*s), v), (HK::Stride(b, d, q), LV::L(v)) => (b.axpy(*d, &Lin::s(*q)), v), _ => continue };
        let un: Vec<(S, i128)> = v.t.iter().filter(|t| !sb.s(t.0)).copied().collect();
        if un.len() == 1 && un[0].1.abs() == 1 {
            // hl = v = c*s + rest  =>  s = c*(hl - rest)
            let mut rest = v.clone();
            rest.t.retain(|t| t.0 != un[0].0);
            inv.entry(un[0].0).or_insert(hl.sub(&rest).mul(un[0].1));
        }
    }
    let mut add = vec![];
    for f in e.st.st.ge.iter() {
        let r = subst(f, &inv);
        let ok = f.t.iter().all(|(s, _)| inv.contains_key(s) || sb.s(*s));
        if ok && f.t.iter().any(|(s, _)| inv.contains_key(s) || (s.0 as usize) >= sb.n0 || true) { add.push(r); }
    }
    for (s, v) in e.st.st.eq.iter() {
        let f = Lin::s(*s).sub(v);
        if f.t.iter().all(|(s, _)| inv.contains_key(s) || sb.s(*s)) { let r = subst(&f, &inv); add.push(r.clone()); add.push(r.neg()); }
    }
    for a in add { if a.is_c().is_none() && a.interval().0 < 0 && !g.cands.contains(&a) && g.cands.len() < 600 { g.cands.push(a); } }
}

fn gen_cands(x: &X, groups: &mut [Group], gi: usize, es: &[Rc<Edge>], sb: &mut Stab, entry: &St, only: Option<&[usize]>, ee: Option<&Rc<Edge>>) {
    let g = &groups[gi];
    let mut cand: Vec<Lin> = vec![];
    let sy = |h: &HK| match h { HK::Free(s) | HK::Stride(_, _, s) => Some(*s), _ => None };
    // leaf expression (value, not parameter)
    let lv = |h: &HK| match h { HK::Free(s) => Some(Lin::s(*s)), HK::Stride(b, d, q) => Some(b.axpy(*d, &Lin::s(*q))), HK::Fix(e) => Some(e.clone()), _ => None };
    let all: Vec<usize> = (0..g.hk.len()).filter(|k| sy(&g.hk[*k]).is_some()).collect();
    let new: Vec<usize> = match only { Some(o) => o.iter().copied().filter(|k| all.contains(k)).collect(), None => all.clone() };
    let mut xs: Vec<Lin> = vec![];
    for t in &x.tracked { if sb.l(t) && !xs.contains(t) { xs.push(t.clone()); } }
    // places in constant tables
    for t in entry.st.eq.iter().flat_map(|(k, e)| std::iter::once(*k).chain(e.t.iter().map(|t| t.0))).chain(entry.st.ge.iter().flat_map(|e| e.t.iter().map(|t| t.0))) {
        if let Def::App(f, a) = def(t) { if f.starts_with("lbsel") { let (lb, inn) = (entry.norm(&Lin::s(t)), entry.norm(&app(&format!("in{}", &f[2..]), a, 0, 1))); for e in [lb.add(&inn), lb] { if e.is_c().is_none() && sb.l(&e) && !xs.contains(&e) && xs.len() < 8 { xs.push(e); } } } }
    }
    for h in &g.hk { if let HK::Fix(e) = h { if !xs.contains(e) && (e.is_c().is_none() || e.k.abs() > 1) { xs.push(e.clone()); } } }
    let nreg = REGS.with(|r| r.borrow().len());
    for r in 0..nreg { let l = entry.norm(&region(r as u32).len); if !xs.contains(&l) { xs.push(l); } }
    if xs.len() > 40 { xs.truncate(40); }
    let first = es.iter().find(|e| e.src.is_none()).or(ee.filter(|e| groups[e.dst].key == g.key)).or(es.first());
    let val = |e: &Edge, k: usize| -> Option<Lin> { match &e.leaves[k] { LV::L(v) => Some(v.clone()), _ => None } };
    for &k in &new {
        let h = lv(&g.hk[k]).unwrap();
        let q = Lin::s(sy(&g.hk[k]).unwrap());
        if let Some(v0) = first.and_then(|e| val(e, k)) { if sb.l(&v0) { cand.push(h.sub(&v0)); cand.push(v0.sub(&h)); } }
        cand.push(q.clone()); cand.push(q.addk(-1)); if h != q { cand.push(h.clone()); cand.push(h.addk(-1)); }
        for m in [1, 0xff, 0xffff, 0x10ffff, 0xffff_ffff, i32::MAX as i128, usize_max(), isize_max()] { cand.push(h.neg().addk(m)); }
        if h != q { for e in x.tracked.iter().filter(|t| sb.l(t)) { for c in [0, -1, 1] { cand.push(q.sub(e).addk(c)); cand.push(e.sub(&q).addk(c)); } } }
        for e in &xs { for c in [0, -1, 1] { cand.push(h.sub(e).addk(c)); cand.push(e.sub(&h).addk(c)); } }
        for j in 0..g.hk.len() {
            if j == k { continue; }
            if let HK::Free(_) | HK::Stride(..) = g.hk[j] {
                let hj = lv(&g.hk[j]).unwrap();
                for c in [0, -1, 1] { cand.push(h.sub(&hj).addk(c)); cand.push(hj.sub(&h).addk(c)); }
                if let Some(f) = first { if let (Some(a), Some(b)) = (val(f, k), val(f, j)) {
                    if sb.l(&a) && sb.l(&b) {
                        let d = h.sub(&hj).sub(&a).add(&b); cand.push(d.clone()); cand.push(d.neg());
                        let s = h.add(&hj).sub(&a).sub(&b); cand.push(s.clone()); cand.push(s.neg());
                        // ratios seen on another edge
                        for e in es { if e.src.is_none() { continue; } if let (Some(a2), Some(b2)) = (val(e, k), val(e, j)) {
                            let o = |k: usize, d: &Lin| e.heads.get(k).cloned().flatten().unwrap_or_else(|| d.clone());
                            let (da, db) = (e.st.norm(&a2.sub(&o(k, &a))), e.st.norm(&b2.sub(&o(j, &b))));
                            if let (Some(p), Some(r)) = (da.is_c(), db.is_c()) { if p != 0 && r != 0 {
                                // a fact known before the loop, with the change of one value made up for by the other
                                if !a.t.is_empty() { for f in f.st.st.ge.iter() {
                                    let co = |y: S| f.t.iter().find(|t| t.0 == y).map_or(0, |t| t.1);
                                    let m = co(a.t[0].0) / a.t[0].1;
                                    if m != 0 && a.t.iter().all(|t| co(t.0) == m * t.1) && (m * p) % r == 0 && f.t.iter().all(|t| sb.s(t.0)) { cand.push(f.axpy(m, &h.sub(&a)).axpy(-(m * p) / r, &hj.sub(&b))); }
                                } }
                                let d = h.sub(&a).mul(r).sub(&hj.sub(&b).mul(p)); cand.push(d.clone()); cand.push(d.neg());
                                if p.abs() > 1 || r.abs() > 1 { for e in &xs { let d = h.mul(r).sub(&hj.sub(e).mul(p)); cand.push(d.clone()); cand.push(d.neg()); let d = h.sub(e).mul(r).sub(&hj.mul(p)); cand.push(d.clone()); cand.push(d.neg()); } }
                            } }
                        } }
                    }
                } }
                if let (HK::Stride(_, _, q1), HK::Stride(_, _, q2)) = (&g.hk[k], &g.hk[j]) { let d = Lin::s(*q1).sub(&Lin::s(*q2)); cand.push(d.clone()); cand.push(d.neg()); }
                if let (HK::Stride(_, _, q1), HK::Free(s)) = (&g.hk[k], &g.hk[j]) { for c in [0, 1, -1] { let d = Lin::s(*q1).sub(&Lin::s(*s)).addk(c); cand.push(d.clone()); cand.push(d.neg()); } }
            }
        }
    }
    for (o, l, r) in &g.fat {
        if !new.contains(o) && !new.contains(l) { continue; }
        if let (Some(a), Some(b)) = (lv(&g.hk[*o]), lv(&g.hk[*l])) { let n = region(*r).len; let d = n.sub(&a).sub(&b); cand.push(d.clone()); cand.push(d.neg()); }
    }
    cand.extend(affine(g, gi, es, sb));
    let ps: Vec<HashMap<S, Lin>> = es.iter().map(|e| g.params(e)).collect();
    let mut seen: HashSet<Lin> = g.cands.iter().cloned().collect();
    let mut add = vec![];
    for c in cand {
        if c.is_c().is_some() || c.interval().0 >= 0 || !seen.insert(c.clone()) { continue; }
        if es.iter().zip(&ps).all(|(e, m)| e.st.st.prove_ge(&subst(&c, m))) { add.push(c); }
    }
    groups[gi].cands.extend(add);
}

/// affine relations between head values that hold on the edges into the loop and after one more iteration
fn affine(g: &Group, gi: usize, es: &[Rc<Edge>], sb: &mut Stab) -> Vec<Lin> {
    let cols: Vec<(usize, Lin)> = g.hk.iter().enumerate().filter_map(|(k, h)| match h { HK::Free(s) => Some((k, Lin::s(*s))), HK::Stride(b, d, q) => Some((k, b.axpy(*d, &Lin::s(*q)))), _ => None }).collect();
    if cols.len() < 2 || cols.len() > 24 { return vec![]; }
    let mut pts: Vec<Vec<Lin>> = vec![];
    let point = |e: &Edge| -> Option<Vec<Lin>> { cols.iter().map(|(k, _)| match &e.leaves[*k] { LV::L(v) => Some(v.clone()), _ => None }).collect() };
    for e in es { if e.src != Some(gi) { if let Some(p) = point(e) { if !pts.contains(&p) && pts.len() < 3 { pts.push(p); } } } }
    let Some(p0) = es.iter().find(|e| e.src != Some(gi)) else { return vec![] };
    let m0 = g.params(p0);
    for e in es { if e.src == Some(gi) { if let Some(p) = point(e) { let p: Vec<Lin> = p.iter().map(|l| subst(l, &m0)).collect(); if !pts.contains(&p) && pts.len() < 6 { pts.push(p); } } } }
    // stable symbols that occur get a column each; every other symbol must cancel out
    let mut stable: BTreeSet<S> = BTreeSet::new();
    for p in &pts { for l in p { for t in &l.t { if sb.s(t.0) { stable.insert(t.0); } } } }
    let stable: Vec<S> = stable.into_iter().take(12).collect();
    let n = cols.len() + 1 + stable.len();
    let mut rows: Vec<Vec<i128>> = vec![];
    for p in &pts {
        let mut syms: BTreeSet<S> = BTreeSet::new();
        for l in p { for t in &l.t { syms.insert(t.0); } }
        syms.extend(stable.iter().copied());
        let co = |l: &Lin, s: S| l.t.iter().find(|t| t.0 == s).map_or(0, |t| t.1);
        for s in syms {
            let mut r = vec![0i128; n];
            for (i, l) in p.iter().enumerate() { r[i] = co(l, s); }
            if let Some(j) = stable.iter().position(|x| *x == s) { r[cols.len() + 1 + j] = 1; }
            rows.push(r);
        }
        let mut r = vec![0i128; n];
        for (i, l) in p.iter().enumerate() { r[i] = l.k; }
        r[cols.len()] = 1;
        rows.push(r);
    }
    // reduced row echelon form over the integers; the stable columns and the constant are eliminated first
    let order: Vec<usize> = (cols.len()..n).chain(0..cols.len()).collect();
    let mut piv: Vec<(usize, usize)> = vec![];
    let mut rk = 0;
    for &c in &order {
        let Some(i) = (rk..rows.len()).find(|i| rows[*i][c] != 0) else { continue };
        rows.swap(rk, i);
        let p = rows[rk].clone();
        for i in 0..rows.len() {
            if i == rk || rows[i][c] == 0 { continue; }
            let (a, b) = (p[c], rows[i][c]);
            let mut g = 0;
            for k in 0..n {
                let Some(v) = rows[i][k].checked_mul(a).and_then(|x| p[k].checked_mul(b).and_then(|y| x.checked_sub(y))) else { return vec![] };
                rows[i][k] = v;
                g = crate::exec::gcd2(g, v.abs());
            }
            if g > 1 { for k in 0..n { rows[i][k] /= g; } }
        }
        piv.push((rk, c));
        rk += 1;
    }
    let mut out = vec![];
    for c in 0..n {
        if piv.iter().any(|p| p.1 == c) { continue; }
        // x_c = 1 (scaled), pivots follow
        let mut l = 1i128;
        for (r, pc) in &piv { if rows[*r][c] != 0 { let d = rows[*r][*pc].abs(); let Some(m) = (l / crate::exec::gcd2(l, d)).checked_mul(d) else { return out }; l = m; } }
        let mut v = vec![0i128; n];
        v[c] = l;
        for (r, pc) in &piv { if rows[*r][c] != 0 { v[*pc] = -rows[*r][c] * (l / rows[*r][*pc]); } }
        if v.iter().any(|x| x.abs() > 1 << 40) || v[..cols.len()].iter().all(|x| *x == 0) { continue; }
        let mut e = Lin::c(v[cols.len()]);
        for (i, (_, h)) in cols.iter().enumerate() { e = e.axpy(v[i], h); }
        for (j, s) in stable.iter().enumerate() { e = e.axpy(v[cols.len() + 1 + j], &Lin::s(*s)); }
        out.push(e.clone());
        out.push(e.neg());
    }
    out
}

fn sccs(n: usize, e: &[(usize, usize)]) -> Vec<usize> {
    // component ids by reachability (n is small)
    let mut r = vec![vec![false; n]; n];
    for (a, b) in e { r[*a][*b] = true; }
    for k in 0..n { for i in 0..n { if r[i][k] { for j in 0..n { if r[k][j] { r[i][j] = true; } } } } }
    (0..n).map(|i| (0..n).find(|j| *j == i || (r[i][*j] && r[*j][i])).unwrap()).collect()
}

fn terminates(groups: &[Group], edges: &[Rc<Edge>], sb: &mut Stab, dbg: bool) -> Result<String, String> {
    let mut live: Vec<usize> = (0..edges.len()).filter(|i| edges[*i].src.is_some()).collect();
    // leaf lookup by identity
    let idx: Vec<HashMap<(O, u64), usize>> = groups.iter().map(|g| g.ids.iter().enumerate().map(|(i, p)| (*p, i)).collect()).collect();
    let leaf = |g: usize, id: &(O, u64)| -> Option<Lin> { let k = *idx[g].get(id)?; match &groups[g].hk[k] { HK::Fix(e) => Some(e.clone()), HK::Free(s) => Some(Lin::s(*s)), HK::Stride(b, d, q) => Some(b.axpy(*d, &Lin::s(*q))), _ => None } };
    let lval = |e: &Edge, id: &(O, u64)| -> Option<Lin> { let k = *idx[e.dst].get(id)?; match &e.leaves[k] { LV::L(v) => Some(v.clone()), _ => None } };
    // a measure: linear combination of leaf identities plus a stable expression
    type M = (Vec<((O, u64), i128)>, Lin);
    let eval = |m: &M, f: &dyn Fn(&(O, u64)) -> Option<Lin>| -> Option<Lin> { let mut r = m.1.clone(); for (id, c) in &m.0 { r = r.axpy(*c, &f(id)?); } Some(r) };
    let mut cands: Vec<M> = vec![];
    let mut ids: BTreeSet<(O, u64)> = BTreeSet::new();
    for g in groups { for (k, h) in g.hk.iter().enumerate() { if matches!(h, HK::Free(_) | HK::Stride(..)) { ids.insert(g.ids[k]); } } }
    for i in &ids { cands.push((vec![(*i, 1)], Lin::c(0))); }
    for i in &ids { for j in &ids { if i != j { cands.push((vec![(*i, 1), (*j, -1)], Lin::c(0))); } } }
    // path conditions as measures
    for &ei in &live {
        let e = &edges[ei];
        let g = &groups[e.src.unwrap()];
        let mut inv: HashMap<S, ((O, u64), Lin, i128)> = HashMap::new();
        for (k, h) in g.hk.iter().enumerate() { match h { HK::Free(s) => { inv.entry(*s).or_insert((g.ids[k], Lin::c(0), 1)); } HK::Stride(b, d, q) => { inv.entry(*q).or_insert((g.ids[k], b.clone(), *d)); } _ => {} } }
        for f in e.st.st.ge.iter() {
            if !f.t.iter().any(|t| inv.contains_key(&t.0)) { continue; }
            if !f.t.iter().all(|t| inv.contains_key(&t.0) || sb.s(t.0)) { continue; }
            let mut m: M = (vec![], Lin::c(f.k));
            let mut scale = 1i128;
            for (s, _) in &f.t { if let Some((_, _, d)) = inv.get(s) { scale *= d.abs(); } }
            m.1 = m.1.mul(scale);
            for (s, c) in &f.t { match inv.get(s) { Some((id, b, d)) => { let cc = c * scale / d; m.0.push((*id, cc)); m.1 = m.1.axpy(-cc, b); } None => m.1 = m.1.axpy(*c * scale, &Lin::s(*s)) } }
            if !cands.contains(&m) { cands.push(m); }
        }
    }
    // a bound as large as the assumption on counters, or as a whole machine word, shows no progress
    cands.retain(|m| m.1.k.abs() < 1 << 48);
    let mut used: Vec<String> = vec![];
    loop {
        let pairs: Vec<(usize, usize)> = live.iter().map(|i| (edges[*i].src.unwrap(), edges[*i].dst)).collect();
        let comp = sccs(groups.len(), &pairs);
        // a trivial component without a self edge is no cycle
        live.retain(|i| { let (a, b) = (edges[*i].src.unwrap(), edges[*i].dst); comp[a] == comp[b] });
        if live.is_empty() { return Ok(if used.is_empty() { "acyclic".into() } else { used.join("; ") }); }
        let c0 = comp[edges[live[0]].src.unwrap()];
        let here: Vec<usize> = live.iter().copied().filter(|i| comp[edges[*i].src.unwrap()] == c0).collect();
        let mut best: Option<(usize, Vec<usize>)> = None;
        for (mi, m) in cands.iter().enumerate() {
            let mut strict = vec![];
            let mut good = true;
            for &ei in &here {
                let e = &edges[ei];
                let s = eval(m, &|id| leaf(e.src.unwrap(), id));
                let d = eval(m, &|id| lval(e, id));
                let (Some(s), Some(d)) = (s, d) else { good = false; break };
                let dec = s.sub(&d);
                if !e.st.st.prove_ge(&dec) { good = false; break; }
                if e.st.st.prove_ge(&dec.addk(-1)) && (e.st.st.prove_ge(&s) || e.st.st.prove_ge(&d)) { strict.push(ei); }
            }
            if good && !strict.is_empty() && best.as_ref().map_or(true, |b| strict.len() > b.1.len()) { best = Some((mi, strict)); if best.as_ref().unwrap().1.len() == here.len() { break; } }
        }
        match best {
            Some((mi, strict)) => {
                let m = &cands[mi];
                used.push(format!("{} + {}", m.0.iter().map(|(id, c)| format!("{c}*leaf{}.{}", id.0 % 100000, id.1)).collect::<Vec<_>>().join(" + "), show(&m.1)));
                live.retain(|i| !strict.contains(i));
            }
            None => { if dbg {
                for m in &cands {
                    let mut bad = vec![];
                    let mut strict = 0;
                    for &ei in &here { let e = &edges[ei];
                        let (s, d) = (eval(m, &|id| leaf(e.src.unwrap(), id)), eval(m, &|id| lval(e, id)));
                        match (s, d) { (Some(s), Some(d)) => { let dec = s.sub(&d); if !e.st.st.prove_ge(&dec) { bad.push(format!("{}->{}: {}", e.src.unwrap(), e.dst, show(&e.st.norm(&dec)))); } else if e.st.st.prove_ge(&dec.addk(-1)) && (e.st.st.prove_ge(&s) || e.st.st.prove_ge(&d)) { strict += 1; } } _ => bad.push(format!("{}->{}: none", e.src.unwrap(), e.dst)) } }
                    eprintln!("  CAND {:?} + {}: strict {} of {}, bad {}: {}", m.0, show(&m.1), strict, here.len(), bad.len(), bad.first().cloned().unwrap_or_default());
                }
                eprintln!("  used {used:?}");
                eprintln!("  no ranking among {} candidates", cands.len()); } return Err(format!("{} cyclic path(s)", here.len())); }
        }
    }
}

// ---------- joins ----------
fn same(a: &St, b: &St) -> bool { a.regver == b.regver && a.objs == b.objs }
fn entails(a: &St, b: &St) -> bool {
    // every constraint of b holds in a
    b.st.eq.iter().all(|(s, v)| a.st.prove_eq(&Lin::s(*s).sub(v))) && b.st.ge.iter().all(|e| a.st.prove_ge(e)) && b.st.ne.iter().all(|e| a.st.prove_ne(e))
}
fn join(a: &St, b: &St) -> St {
    let mut r = a.clone();
    r.st = Default::default();
    let mut add = |p: &St, q: &St| {
        for (s, v) in p.st.eq.iter() { let e = Lin::s(*s).sub(v); if q.st.prove_eq(&e) { r.st.add_eq(&e); } else { for f in [e.clone(), e.neg()] { if q.st.prove_ge(&f) { r.st.add_ge(&f); } } } }
        for e in p.st.ge.iter() { if q.st.prove_ge(e) { r.st.add_ge(e); } else { 
            // weaker version of the same constraint
            if let Some(o) = q.st.ge.iter().find(|x| x.t == e.t) { if o.k > e.k { r.st.add_ge(o); } } } }
        for e in p.st.ne.iter() { if q.st.prove_ne(e) { r.st.add_ne(e); } }
    };
    add(a, b);
    add(b, a);
    r
}
fn blurred(v: &V) -> bool { match v { V::Top(_, e) => e.is_c() == Some(-4242), V::Agg(_, f) => f.iter().any(blurred), _ => false } }
fn reduce(x: &X, sts: Vec<(St, V)>, join_at: usize) -> Vec<(St, V)> {
    let _ = x;
    let mut out: Vec<(St, V)> = vec![];
    // groups with identical contents
    let mut left: Vec<(St, V)> = sts.into_iter().filter(|s| !s.0.st.dead).collect();
    while let Some(f) = left.first().cloned() {
        let (mine, rest): (Vec<_>, Vec<_>) = left.into_iter().partition(|s| s.1 == f.1 && same(&s.0, &f.0));
        left = rest;
        if mine.len() == 1 { out.extend(mine); continue; }
        let mut keep: Vec<(St, V)> = vec![];
        for s in mine {
            if keep.len() < 40 && keep.iter().any(|k| entails(&s.0, &k.0)) { continue; }
            if keep.len() < 40 { keep.retain(|k| !entails(&k.0, &s.0)); }
            keep.push(s);
        }
        if keep.len() > if x.coarse && blurred(&keep[0].1) { 1 } else { join_at } {
            let v = keep[0].1.clone();
            let mut it = keep.into_iter();
            let mut acc = it.next().unwrap().0;
            for s in it { acc = join(&acc, &s.0); }
            keep = vec![(acc, v)];
        }
        out.extend(keep);
    }
    out
}
pub fn merge_states(x: &mut X, sts: Vec<St>) -> Vec<St> {
    let j = x.join_at;
    reduce(x, sts.into_iter().map(|s| (s, V::Undef)).collect(), j).into_iter().map(|s| s.0).collect()
}
pub fn merge_outs(x: &mut X, outs: Outs) -> Outs { let j = x.join_at; reduce(x, outs, j) }
