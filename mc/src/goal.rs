//! observable goals
use std::sync::Arc;
use parking_lot::RwLock;
use nar20_1::NarGoalSystem::{self as gs, GoalSystem};
use nar20_1::NarSentence::Sentence;
use crate::nar::*;
use crate::rt::*;

pub type GS = Arc<RwLock<GoalSystem>>;

/// observable goal
#[derive(Clone, Debug)]
pub struct G { pub b: B, pub depth: i64, pub des: f64, pub created: i64, pub evi: Option<R>, pub evib: Option<B> }
impl G {
    pub fn key(&self) -> String { format!("{} depth={} des={:.4} created={} by {:?}", self.b.key(), self.depth, self.des, self.created, self.evi.as_ref().map(|e| e.printed())) }
    pub fn same(&self, o: &G) -> bool { self.b.term == o.b.term && self.b.ids == o.b.ids }
    pub fn is_op(&self) -> bool { is_op(&self.b.term) }
    pub fn utility(&self, t: i64) -> f64 { self.b.exp() * self.des.abs() * (-0.01 * (t - self.created) as f64).exp() }
}
pub fn is_op(t: &R) -> bool {
    matches!(t, R::St(Cop::Inh, s, p) if matches!(&**p, R::N(_)) && matches!(&**s, R::C(K::SetExt, v) if v.len() == 1 && matches!(&v[0], R::C(K::Prod, _))))
}
pub fn op(name: &str) -> R { inh(c(K::SetExt, &[c(K::Prod, &[c(K::SetExt, &[n("SELF")]), n("x")])]), n(name)) }
pub fn seq(v: &[R]) -> R { c(K::Seq, v) }
pub fn list(g: &GS) -> Vec<G> {
    gs::retEntries(&g.read()).iter().map(|e| { let e = e.read(); G{b: B::of(&e.sentence), depth: e.depth, des: e.desirability as f64, created: e.createTime, evi: e.evidence.as_ref().map(|x| R::of(&x.read().term)), evib: e.evidence.as_ref().map(|x| B::of(&x.read()))} }).collect()
}
pub fn keys(v: &[G]) -> Vec<String> { let mut r: Vec<String> = v.iter().map(|g| g.key()).collect(); r.sort(); r }
pub fn goal(t: &R, v: (f64, f64), ids: &[i64]) -> Sentence { sent(t, P::GOAL, v.0, v.1, ids) }

