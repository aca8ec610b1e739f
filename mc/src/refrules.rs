//! reference inference rules over reference terms
use crate::rt::*;
use crate::tf::{self, V};
use R::*;

/// pattern a (with variables) against term b
pub fn ref_unify(a: &R, b: &R, m: &mut Vec<(R, R)>) -> bool {
    if a.is_var() {
        if b.is_var() { return false; }
        if let Some((_, v)) = m.iter().find(|(k, _)| k == a) { return v == b; }
        m.push((a.clone(), b.clone()));
        return true;
    }
    let same_head = match (a, b) {
        (R::N(x), R::N(y)) => x == y,
        (R::St(x, ..), R::St(y, ..)) => x == y,
        (R::Neg(_), R::Neg(_)) => true,
        (R::C(k, v), R::C(l, w)) => k == l && v.len() == w.len(),
        (R::Img(_, i, v), R::Img(_, j, w)) => i == j && v.len() == w.len(),
        _ => false
    };
    same_head && a.kids().iter().zip(b.kids()).all(|(x, y)| ref_unify(x, y, m))
}
pub fn unify(a: &R, b: &R) -> Option<Vec<(R, R)>> { let mut m = vec![]; if ref_unify(a, b, &mut m) { Some(m) } else { None } }
pub fn subst(t: &R, m: &[(R, R)]) -> R { t.map(&|x| m.iter().find(|(k, _)| k == x).map(|v| v.1.clone())) }

/// premise: term, punctuation, truth value
#[derive(Clone, Debug)]
pub struct Pr { pub t: R, pub p: char, pub v: V }

fn directed(a: &Pr, b: &Pr) -> Vec<(R, V)> {
    let mut r: Vec<(R, V)> = vec![];
    if b.p != '.' { return r; }
    if a.p == '?' {
        // a ==> x?  x'.  |-  a ==> x' .
        if let St(Cop::Impl, _, x) = &a.t { if let Some(m) = unify(x, &b.t) { r.push((subst(&a.t, &m), b.v)); } }
        return r;
    }
    if a.p != '.' { return r; }
    let (va, vb) = (a.v, b.v);
    if let (St(ca, sa, pa), St(cb, sb, pb)) = (&a.t, &b.t) {
        let (sa, pa, sb, pb) = (&**sa, &**pa, &**sb, &**pb);
        let symm = |c: &Cop| *c == Cop::Inh || *c == Cop::Sim;
        if *ca == Cop::Inh && *cb == Cop::Inh && sa == sb {
            if let (C(K::SetInt, x), C(K::SetInt, y)) = (pa, pb) {
                r.push((inh(sa.clone(), C(K::SetInt, x.iter().chain(y.iter()).cloned().collect())), tf::int(va, vb)));
            }
            if pa != pb {
                r.push((inh(sa.clone(), c(K::ExtInt, &[pa.clone(), pb.clone()])), tf::int(va, vb)));
                r.push((inh(pa.clone(), pb.clone()), tf::ind(va, vb)));
            }
        }
        if *ca == Cop::Inh && *cb == Cop::Inh && pa == pb && sa != sb {
            r.push((inh(sa.clone(), sb.clone()), tf::abd(va, vb)));
        }
        if symm(ca) && symm(cb) {
            if sa == sb && pa != pb { r.push((sim(pa.clone(), pb.clone()), tf::comp(va, vb))); }
            if pa == pb && sa != sb { r.push((sim(sa.clone(), sb.clone()), tf::comp(va, vb))); }
        }
        if ca == cb && [Cop::Inh, Cop::Impl, Cop::Pred].contains(ca) && pa == sb && sa != pb {
            r.push((st(*ca, sa.clone(), pb.clone()), tf::ded(va, vb)));
        }
    }
    if let St(Cop::Impl, cond, x) = &a.t {
        if let Some(m) = unify(cond, &b.t) { r.push((subst(x, &m), tf::ded(va, vb))); }
        if let C(K::Conj, parts) = &**cond {
            for i in 0..parts.len().min(4) {
                if let Some(m) = unify(&parts[i], &b.t) {
                    let rest: Vec<R> = (0..parts.len()).filter(|j| *j != i).map(|j| subst(&parts[j], &m)).collect();
                    let cond2 = if rest.len() == 1 { rest[0].clone() } else { C(K::Conj, rest) };
                    r.push((imp(cond2, subst(x, &m)), tf::ded(va, vb)));
                }
            }
        }
    }
    r
}

/// all conclusions of two premises with disjoint evidence
pub fn two(a: &Pr, b: &Pr) -> Vec<(R, V)> {
    let mut r = directed(a, b);
    r.extend(directed(b, a));
    r
}

/// all conclusions of one judgement: term, truth, factor of attention
pub fn one(t: &R, v: V) -> Vec<(R, V, f64)> {
    let mut r = vec![];
    match t {
        Neg(x) => r.push(((**x).clone(), tf::neg(v), 0.5)),
        St(Cop::Inh, s, p) => {
            if let C(K::IntInt, xs) = &**s { for x in xs.iter().take(3) { r.push((inh(x.clone(), (**p).clone()), v, 0.9)); } }
            if let C(K::IntInt, xs) = &**p { for x in xs.iter().take(3) { r.push((inh((**s).clone(), x.clone()), v, 1.0)); } }
            if let C(K::Prod, xs) = &**s { if xs.len() == 2 {
                r.push((inh(xs[0].clone(), img((**p).clone(), 0, xs[1].clone())), v, 0.8));
                r.push((inh(xs[1].clone(), img((**p).clone(), 1, xs[0].clone())), v, 0.8));
            } }
            if let Img(rel, i, xs) = &**p { if xs.len() == 1 && *i <= 1 {
                let prod = if *i == 0 { c(K::Prod, &[(**s).clone(), xs[0].clone()]) } else { c(K::Prod, &[xs[0].clone(), (**s).clone()]) };
                r.push((inh(prod, (**rel).clone()), v, 0.9));
            } }
        },
        St(Cop::Sim, s, p) => {
            if let (C(ka, x), C(kb, y)) = (&**s, &**p) {
                if ka == kb && [K::SetInt, K::SetExt].contains(ka) && x.len() == 1 && y.len() == 1 { r.push((sim(x[0].clone(), y[0].clone()), v, 1.0)); }
            }
        },
        St(Cop::Pred, s, p) => if let C(K::Par, xs) = &**p { for x in xs { r.push((pred((**s).clone(), x.clone()), v, 0.9)); } },
        _ => {}
    }
    r
}
