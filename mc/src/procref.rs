//! reference of the procedural part: learning from events, anticipation, decisions
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use parking_lot::RwLock;
use nar20_1::NarMem::Mem;
use nar20_1::NarProc::{Op, ProcNar};
use nar20_1::NarWorkingCycle::Mem2;
use nar20_1::Term::Term;
use crate::goal::*;
use crate::nar::*;
use crate::refrules;
use crate::rt::*;
use crate::tf;

/// operation which records its calls
pub struct RecOp { pub name: String, pub babble: bool, pub cnt: i64, pub log: Arc<Mutex<Vec<(String, Vec<R>)>>> }
impl Op for RecOp {
    fn retName(&self) -> String { self.name.clone() }
    fn call(&self, _n: &mut ProcNar, _m: &Option<Arc<RwLock<Mem2>>>, args: &Vec<Term>) { self.log.lock().unwrap().push((self.name.clone(), args.iter().map(|a| R::of(a)).collect())); }
    fn isBabbleable(&self) -> bool { self.babble }
    fn ret_evi_cnt(&self) -> i64 { self.cnt }
}
#[derive(Clone, Debug)]
pub struct OpInfo { pub name: String, pub babble: bool, pub cnt: i64 }
pub fn opinfo(name: &str, babble: bool, cnt: i64) -> OpInfo { OpInfo{name: name.into(), babble, cnt} }
pub fn register(nar: &mut ProcNar, ops: &[OpInfo]) -> Arc<Mutex<Vec<(String, Vec<R>)>>> {
    let log = Arc::new(Mutex::new(vec![]));
    for o in ops { nar.ops.push(Rc::new(Box::new(RecOp{name: o.name.clone(), babble: o.babble, cnt: o.cnt, log: Arc::clone(&log)}))); }
    log
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev { pub name: R, pub evi: i64, pub t: i64 }
pub fn trace_of(n: &ProcNar) -> Vec<Ev> { n.trace.ret_view().iter().map(|e| Ev{name: R::of(&e.name), evi: e.evi, t: e.occT}).collect() }

pub fn op_name(t: &R) -> Option<String> { if !is_op(t) { return None; } match t { R::St(_, _, p) => match &**p { R::N(s) => Some(s.clone()), _ => None }, _ => None } }
pub fn op_args(t: &R) -> Vec<R> {
    if let R::St(_, s, _) = t { if let R::C(_, v) = &**s { if let R::C(_, a) = &v[0] { return a.clone(); } } }
    vec![]
}
pub fn callable<'a>(t: &R, ops: &'a [OpInfo]) -> Option<&'a OpInfo> { let n = op_name(t)?; ops.iter().find(|o| o.name == n) }

/// intervals: integer parts of the powers of the base, without repetitions, up to a maximum
pub fn intervals(base: f64, max: i64) -> Vec<i64> {
    let mut r: Vec<i64> = vec![];
    let mut x = 1.0f64;
    while x as i64 <= max { if r.last().map(|l| *l < x as i64).unwrap_or(true) { r.push(x as i64); } x *= base; }
    r
}
/// index of the longest interval which isn't longer than the time (the first one for shorter times)
pub fn interval_idx(dt: i64, tab: &[i64]) -> i64 { tab.iter().rposition(|x| *x <= dt).unwrap_or(0) as i64 }

/// knowledge which can be learned from the events: a earlier event, a own operation after it, and the newest event (or the one before it when it follows the operation and isn't a operation itself)
pub fn observations(tr: &[Ev], ops: &[OpInfo], tab: &[i64]) -> Vec<B> {
    let k = tr.len();
    let mut r = vec![];
    if k < 3 { return r; }
    for j in 1..k - 1 {
        let o = match callable(&tr[j].name, ops) { Some(o) => o, None => continue };
        for i in 0..j { for e in [k - 1, k - 2] {
            if e <= j || callable(&tr[i].name, ops).is_some() || callable(&tr[e].name, ops).is_some() || tr[i].name == tr[e].name { continue; }
            r.push(B{term: pred(seq(&[tr[i].name.clone(), tr[j].name.clone()]), tr[e].name.clone()), punct: '.', f: 1.0, c: o.cnt as f64 / (o.cnt as f64 + 1.0), ids: vec![tr[i].evi, tr[j].evi, tr[e].evi], dt: Some(interval_idx(tr[e].t - tr[j].t, tab)), cnt: Some((o.cnt, o.cnt))});
        } }
    }
    r
}

pub type Tab = BTreeMap<R, [Vec<B>; 2]>;
pub fn tab_of(m: &Mem) -> Tab { concepts(m).into_iter().map(|c| (c.name, [c.by_exp, c.by_usage])).collect() }
/// names of introduced variables don't matter
pub fn anon(t: &R) -> R { t.map(&|x| match x { R::I(s) if s.len() == 25 && s.starts_with('Q') => Some(R::I("V".into())), _ => None }) }
pub fn canon(t: &Tab) -> String {
    let mut m: BTreeMap<R, [Vec<String>; 2]> = BTreeMap::new();
    for (k, v) in t { let e = m.entry(anon(k)).or_default(); for i in 0..2 { for b in &v[i] { let mut b2 = b.clone(); b2.term = anon(&b.term); b2.ids.sort(); e[i].push(b2.key()); } } }
    let mut s = String::new();
    for (k, mut v) in m { v[0].sort(); v[1].sort(); s += &format!("{}: {} / {}\n", k.printed(), v[0].join("; "), v[1].join("; ")); }
    s
}
fn cond(t: &R) -> R { match t { R::St(_, s, _) => match &**s { R::C(K::Seq, v) => v[0].clone(), x => x.clone() }, _ => t.clone() } }
pub fn effect(t: &R) -> R { match t { R::St(_, _, p) => (**p).clone(), _ => t.clone() } }
pub fn homes(t: &R) -> Vec<R> { let mut v = cond(t).subs(); v.extend(effect(t).subs()); v.sort(); v.dedup(); v }
fn retruth(b: &mut B) { if let Some((p, n)) = b.cnt { b.f = p as f64 / n as f64; b.c = n as f64 / (n as f64 + 1.0); } }

/// condition about a property of something which occurs at least twice: it is generalized
pub fn generalize(t: &R, name: &str) -> Option<R> {
    if let R::St(Cop::Pred, s, _) = t { if let R::C(K::Seq, v) = &**s { if v.len() == 2 { if let R::St(Cop::Inh, x, y) = &v[0] { if matches!(&**y, R::C(K::SetInt, _)) && t.count(x) >= 2 {
        return Some(t.replace(x, &R::I(name.into())));
    } } } } }
    None
}
fn store(tab: &mut Tab, b: &B) {
    for h in homes(&b.term) {
        match tab.get_mut(&h) {
            None => { tab.insert(h, [vec![b.clone()], vec![b.clone()]]); },
            Some(v) => for i in 0..2 { if !v[i].iter().any(|x| x.term == b.term && x.overlaps(&b.ids)) { v[i].push(b.clone()); } },
        }
    }
}
pub fn add_new(tab: &mut Tab, b: &B, fresh: &mut u64) {
    store(tab, b);
    *fresh += 1;
    if let Some(g) = generalize(&b.term, &format!("Q{:024}", fresh)) { let mut x = b.clone(); x.term = g; store(tab, &x); }
}
pub fn learn(tab: &mut Tab, o: &B, fresh: &mut u64) {
    let mut merged = false;
    for h in homes(&o.term) { if let Some(v) = tab.get_mut(&h) { for i in 0..2 { for b in v[i].iter_mut() {
        if b.term == o.term && !b.overlaps(&o.ids) && b.dt.map(|d| d >= o.dt.unwrap()).unwrap_or(false) {
            b.ids.extend(o.ids.iter());
            let (p, c) = b.cnt.unwrap();
            b.cnt = Some((p + o.cnt.unwrap().0, c + o.cnt.unwrap().1));
            retruth(b);
            merged = true;
        }
    } } } }
    if !merged { add_new(tab, o, fresh); }
}
/// every memory which is possible after at most k observations
pub fn reachable(tab: &Tab, obs: &[B], k: usize) -> HashMap<String, Tab> {
    let mut all: HashMap<String, Tab> = HashMap::new();
    all.insert(canon(tab), tab.clone());
    let mut front = vec![tab.clone()];
    let mut fresh = 0u64;
    for _ in 0..k {
        let mut next = vec![];
        for t in &front { for o in obs {
            let mut x = t.clone();
            fresh += 1;
            learn(&mut x, o, &mut fresh);
            let key = canon(&x);
            if !all.contains_key(&key) { all.insert(key, x.clone()); next.push(x); }
        } }
        front = next;
    }
    all
}
/// all copies of a piece of knowledge get one more negative evidence
pub fn disappoint(tab: &mut Tab, b: &B) {
    for h in homes(&b.term) { if let Some(v) = tab.get_mut(&h) { for i in 0..2 { for x in v[i].iter_mut() {
        if x.term == b.term && x.set() == b.set() && x.dt == b.dt { let (p, c) = x.cnt.unwrap(); x.cnt = Some((p, c + 1)); retruth(x); }
    } } } }
}

/// what a decision depends on
#[derive(Clone, Debug)]
pub struct Sit { pub t: i64, pub trace: Vec<Ev>, pub goals: Vec<G>, pub know: Vec<B>, pub thr: f64, pub window: usize, pub tab: Vec<i64>, pub ops: Vec<OpInfo>, pub queued: Vec<(R, f64, Option<B>)> }
/// outcome of a decision: executed operation (term), whether it was by a decision and by which knowledge, goals about operations which are left
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Act { pub op: Option<R>, pub by: Option<String>, pub active: Vec<String> }

fn akey(g: &G) -> String { format!("{} by {:?}", g.b.key(), g.evib.as_ref().map(|e| e.key())) }
/// predictions of up to two steps from the newest event which hit a goal: (sequence, expectation, knowledge)
fn predictions(s: &Sit) -> Vec<Option<(R, f64, B)>> {
    let last = match s.trace.last() { Some(e) => e.name.clone(), None => return vec![None] };
    let from = |t: &R| -> Vec<&B> { s.know.iter().filter(|b| matches!(&b.term, R::St(Cop::Pred, x, _) if matches!(&**x, R::C(K::Seq, v) if v[0] == *t))).collect() };
    let mut res = vec![];
    let mut hit = |chain: &[&B], res: &mut Vec<Option<(R, f64, B)>>| -> bool {
        let e = effect(&chain[chain.len() - 1].term);
        let gs: Vec<&G> = s.goals.iter().filter(|g| g.b.term == e).collect();
        for g in &gs {
            let mut v = (g.b.f, g.b.c);
            for b in chain.iter().rev() { v = tf::ded_goal(v, (b.f, b.c)); }
            let sq = match &chain[0].term { R::St(_, x, _) => (**x).clone(), _ => unreachable!() };
            res.push(Some((sq, tf::exp(v), chain[0].clone())));
        }
        !gs.is_empty()
    };
    let f0 = from(&last);
    if f0.is_empty() { return vec![None]; }
    for a in f0 {
        if hit(&[a], &mut res) { continue; }
        let f1 = from(&effect(&a.term));
        if f1.is_empty() { res.push(None); continue; }
        for b in f1 { if !hit(&[a, b], &mut res) { res.push(None); } }
    }
    res
}
/// for every possible prediction the set of admissible outcomes (equally good alternatives)
pub fn decide(s: &Sit) -> Vec<Vec<Act>> {
    let mut direct: Vec<(R, f64, Option<B>)> = s.queued.clone();
    for e in s.trace.iter().rev().take(s.window) { for g in &s.goals { if let R::C(K::Seq, v) = &g.b.term { if !v.is_empty() {
        let c = if v.len() == 2 { v[0].clone() } else { seq(&v[..v.len() - 1]) };
        if let Some(m) = refrules::unify(&c, &e.name) { if g.b.exp() > 0.0 { direct.push((refrules::subst(&g.b.term, &m), g.b.exp(), g.evib.clone())); } }
    } } } }
    let mut out = vec![];
    for p in predictions(s) {
        let mut cand = direct.clone();
        if let Some((sq, x, b)) = p { cand.push((sq, x, Some(b))); }
        let best = cand.iter().map(|c| c.1).fold(f64::MIN, f64::max);
        let mut winners: Vec<Option<(R, B)>> = vec![];
        for w in cand.iter().filter(|c| c.1 >= best - 1e-9) {
            let op = match &w.0 { R::C(K::Seq, v) => v.last().cloned(), _ => None };
            match (op, &w.2) { (Some(o), Some(b)) if w.1 > s.thr && is_op(&o) => winners.push(Some((o, b.clone()))), _ => winners.push(None) }
        }
        if winners.is_empty() { winners.push(None); }
        let mut acts = vec![];
        for w in winners {
            let mut active: Vec<G> = s.goals.iter().filter(|g| g.is_op()).cloned().collect();
            if let Some((o, b)) = w {
                let ng = G{b: B{term: o, punct: '!', f: b.f, c: b.c, ids: b.ids.clone(), dt: None, cnt: None}, depth: 0, des: 1.0, created: s.t, evi: Some(b.term.clone()), evib: Some(b)};
                if !active.iter().any(|g| g.same(&ng)) { active.push(ng); }
            }
            let ks = |v: &[G]| { let mut r: Vec<String> = v.iter().map(akey).collect(); r.sort(); r };
            let good: Vec<usize> = (0..active.len()).filter(|i| active[*i].des > 0.0001 && active[*i].b.exp() > s.thr).collect();
            let best = good.iter().map(|i| active[*i].b.exp()).fold(f64::MIN, f64::max);
            if good.is_empty() { acts.push(Act{op: None, by: None, active: ks(&active)}); }
            for i in good { if active[i].b.exp() < best - 1e-9 { continue; }
                match &active[i].evib {
                    None => acts.push(Act{op: None, by: None, active: ks(&active)}),
                    Some(b) => { let mut rest = active.clone(); rest.remove(i); acts.push(Act{op: Some(active[i].b.term.clone()), by: Some(b.key()), active: ks(&rest)}); }
                }
            }
        }
        acts.sort(); acts.dedup();
        out.push(acts);
    }
    out
}
pub fn active_keys(v: &[G]) -> Vec<String> { let mut r: Vec<String> = v.iter().filter(|g| g.is_op()).map(akey).collect(); r.sort(); r }
/// deadline of a anticipation
pub fn deadline(t: i64, b: &B, tab: &[i64]) -> i64 { t + tab[b.dt.unwrap_or(0) as usize] }
