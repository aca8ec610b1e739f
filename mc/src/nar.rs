//! access to the state of a reasoner: construction of sentences, listing of beliefs, tasks and goals
use std::sync::Arc;
use parking_lot::RwLock;
use nar20_1::NarMem::Mem;
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::newStamp;
use nar20_1::NarWorkingCycle::Mem2;
use nar20_1::Tv::Tv;
use crate::rt::R;

pub use nar20_1::NarSentence::EnumPunctation as P;

pub fn tv(f: f64, c: f64) -> Tv { Tv{f, c} }

pub fn sent(t: &R, p: P, f: f64, c: f64, ids: &[i64]) -> Sentence {
    newEternalSentenceByTv(&t.t(), p, &tv(f, c), newStamp(&ids.to_vec()))
}
pub fn judge(t: &R, f: f64, c: f64, ids: &[i64]) -> Sentence { sent(t, P::JUGEMENT, f, c, ids) }

/// what is observable of a sentence
#[derive(Clone, Debug)]
pub struct B { pub term: R, pub punct: char, pub f: f64, pub c: f64, pub ids: Vec<i64>, pub dt: Option<i64>, pub cnt: Option<(i64, i64)> }
impl B {
    pub fn of(s: &Sentence) -> B {
        let (f, c) = match retTv(s) { Some(t) => (t.f, t.c), None => (-1.0, -1.0) };
        let cnt = match &s.evi { Some(Evidence::CNT{pos, cnt}) => Some((*pos, *cnt)), _ => None };
        B{term: R::of(&s.term), punct: match s.punct { P::JUGEMENT => '.', P::GOAL => '!', P::QUESTION => '?' }, f, c, ids: s.stamp.ids.clone(), dt: s.expDt, cnt}
    }
    pub fn exp(&self) -> f64 { self.c * (self.f - 0.5) + 0.5 }
    /// text which identifies the sentence (floats are rounded)
    pub fn key(&self) -> String {
        let mut ids = self.ids.clone();
        ids.sort();
        format!("{}{} {{{:.6} {:.6}}} {:?} dt={:?} cnt={:?}", self.term.printed(), self.punct, self.f, self.c, ids, self.dt, self.cnt)
    }
    pub fn set(&self) -> Vec<i64> { let mut v = self.ids.clone(); v.sort(); v }
    pub fn overlaps(&self, o: &[i64]) -> bool { self.ids.iter().any(|i| o.contains(i)) }
}

/// both belief tables of a concept
#[derive(Clone, Debug)]
pub struct Con { pub name: R, pub by_exp: Vec<B>, pub by_usage: Vec<B> }
impl Con {
    pub fn all(&self) -> impl Iterator<Item = &B> { self.by_exp.iter().chain(self.by_usage.iter()) }
}

pub fn concepts(mem: &Mem) -> Vec<Con> {
    let d = |v: &Vec<Arc<RwLock<Sentence>>>| v.iter().map(|s| B::of(&s.read())).collect::<Vec<_>>();
    let mut r: Vec<Con> = mem.concepts.iter().map(|(_, c)| Con{name: R::of(&c.name), by_exp: d(&c.payload.beliefsByExp), by_usage: d(&c.payload.beliefsByUsage)}).collect();
    r.sort_by(|a, b| a.name.cmp(&b.name));
    r
}
pub fn concepts_of(m: &Arc<RwLock<Mem2>>) -> Vec<Con> {
    let m = m.read();
    let sh = m.shared.read();
    let r = concepts(&sh.mem.read());
    r
}

#[derive(Clone, Debug)]
pub struct T { pub b: B, pub credit: f64, pub qa: f64, pub mul: f64, pub id: i64, pub deriv: i64, pub used: (i64, i64) }
pub fn tasks_of(m: &Arc<RwLock<Mem2>>) -> Vec<T> {
    let m = m.read();
    let sh = m.shared.read();
    sh.judgementTasks.iter().map(|t| { let t = t.read(); T{b: B::of(&t.sentence), credit: t.credit, qa: t.qaCredit, mul: t.mulCredit, id: t.id, deriv: t.derivTime, used: { let u = t.sentence.usage.read(); (u.lastUsed, u.useCount) }} }).collect()
}
/// index of the tasks by subterm: ids of the tasks
pub fn index_of(m: &Arc<RwLock<Mem2>>) -> Vec<(R, Vec<i64>)> {
    let m = m.read();
    let sh = m.shared.read();
    let ix = sh.judgementTasksByTerm.read();
    let mut r: Vec<(R, Vec<i64>)> = ix.iter().map(|(t, v)| (R::of(t), v.iter().map(|x| x.read().id).collect())).collect();
    r.sort();
    r
}
/// digest of the declarative memory
pub fn digest(m: &Arc<RwLock<Mem2>>) -> String {
    let mut s = String::new();
    for c in concepts_of(m) {
        let mut a: Vec<String> = c.by_exp.iter().map(|b| b.key()).collect();
        let mut u: Vec<String> = c.by_usage.iter().map(|b| b.key()).collect();
        a.sort(); u.sort();
        s += &format!("{}: {} | {}\n", c.name.printed(), a.join("; "), u.join("; "));
    }
    let mut t: Vec<String> = tasks_of(m).iter().map(|t| format!("{} {:.6}", t.b.key(), t.credit)).collect();
    t.sort();
    s + &t.join("\n")
}
