//! independent reference representation of terms and its conversions from and to the terms of the implementation
use nar20_1::Term::{Copula, Term};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cop { Inh, Sim, Impl, Pred, Equiv }
pub const COPS: [Cop; 5] = [Cop::Inh, Cop::Sim, Cop::Impl, Cop::Pred, Cop::Equiv];

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum K { Seq, SetInt, SetExt, Conj, Prod, IntInt, ExtInt, Par }
pub const KINDS: [K; 8] = [K::Seq, K::SetInt, K::SetExt, K::Conj, K::Prod, K::IntInt, K::ExtInt, K::Par];

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum R {
    N(String), Q(String), D(String), I(String),
    St(Cop, Box<R>, Box<R>),
    Neg(Box<R>),
    C(K, Vec<R>),
    Img(Box<R>, usize, Vec<R>),
}
use R::*;

pub fn n(s: &str) -> R { N(s.to_string()) }
pub fn st(c: Cop, a: R, b: R) -> R { St(c, Box::new(a), Box::new(b)) }
pub fn inh(a: R, b: R) -> R { st(Cop::Inh, a, b) }
pub fn sim(a: R, b: R) -> R { st(Cop::Sim, a, b) }
pub fn imp(a: R, b: R) -> R { st(Cop::Impl, a, b) }
pub fn pred(a: R, b: R) -> R { st(Cop::Pred, a, b) }
pub fn equiv(a: R, b: R) -> R { st(Cop::Equiv, a, b) }
pub fn neg(a: R) -> R { Neg(Box::new(a)) }
pub fn c(k: K, v: &[R]) -> R { C(k, v.to_vec()) }
pub fn img(rel: R, i: usize, x: R) -> R { Img(Box::new(rel), i, vec![x]) }

pub fn cop_to(c: Cop) -> Copula {
    match c { Cop::Inh => Copula::INH, Cop::Sim => Copula::SIM, Cop::Impl => Copula::IMPL, Cop::Pred => Copula::PREDIMPL, Cop::Equiv => Copula::EQUIV }
}

impl R {
    pub fn t(&self) -> Term {
        let bs = |v: &Vec<R>| -> Vec<Box<Term>> { v.iter().map(|x| Box::new(x.t())).collect() };
        match self {
            N(s) => Term::Name(s.clone()), Q(s) => Term::QVar(s.clone()), D(s) => Term::DepVar(s.clone()), I(s) => Term::IndepVar(s.clone()),
            St(c, a, b) => Term::Stmt(cop_to(*c), Box::new(a.t()), Box::new(b.t())),
            Neg(a) => Term::Neg(Box::new(a.t())),
            C(K::Seq, v) => Term::Seq(bs(v)), C(K::SetInt, v) => Term::SetInt(bs(v)), C(K::SetExt, v) => Term::SetExt(bs(v)),
            C(K::Conj, v) => Term::Conj(bs(v)), C(K::Prod, v) => Term::Prod(bs(v)), C(K::IntInt, v) => Term::IntInt(bs(v)),
            C(K::ExtInt, v) => Term::ExtInt(bs(v)), C(K::Par, v) => Term::Par(bs(v)),
            Img(r, i, v) => Term::Img(Box::new(r.t()), *i, bs(v)),
        }
    }
    pub fn of(t: &Term) -> R {
        let vs = |v: &Vec<Box<Term>>| -> Vec<R> { v.iter().map(|x| R::of(x)).collect() };
        match t {
            Term::Name(s) => N(s.clone()), Term::QVar(s) => Q(s.clone()), Term::DepVar(s) => D(s.clone()), Term::IndepVar(s) => I(s.clone()),
            Term::Stmt(c, a, b) => {
                let c = match c { Copula::INH => Cop::Inh, Copula::SIM => Cop::Sim, Copula::IMPL => Cop::Impl, Copula::PREDIMPL => Cop::Pred, Copula::EQUIV => Cop::Equiv };
                st(c, R::of(a), R::of(b))
            },
            Term::Neg(a) => neg(R::of(a)),
            Term::Seq(v) => C(K::Seq, vs(v)), Term::SetInt(v) => C(K::SetInt, vs(v)), Term::SetExt(v) => C(K::SetExt, vs(v)),
            Term::Conj(v) => C(K::Conj, vs(v)), Term::Prod(v) => C(K::Prod, vs(v)), Term::IntInt(v) => C(K::IntInt, vs(v)),
            Term::ExtInt(v) => C(K::ExtInt, vs(v)), Term::Par(v) => C(K::Par, vs(v)),
            Term::Img(r, i, v) => Img(Box::new(R::of(r)), *i, vs(v)),
        }
    }
    /// direct components
    pub fn kids(&self) -> Vec<&R> {
        match self {
            N(_) | Q(_) | D(_) | I(_) => vec![],
            St(_, a, b) => vec![a, b],
            Neg(a) => vec![a],
            C(_, v) => v.iter().collect(),
            Img(r, _, v) => { let mut x: Vec<&R> = v.iter().collect(); x.push(r); x },
        }
    }
    pub fn map(&self, f: &dyn Fn(&R) -> Option<R>) -> R {
        if let Some(x) = f(self) { return x; }
        match self {
            N(_) | Q(_) | D(_) | I(_) => self.clone(),
            St(c, a, b) => st(*c, a.map(f), b.map(f)),
            Neg(a) => neg(a.map(f)),
            C(k, v) => C(*k, v.iter().map(|x| x.map(f)).collect()),
            Img(r, i, v) => Img(Box::new(r.map(f)), *i, v.iter().map(|x| x.map(f)).collect()),
        }
    }
    /// all subterms including itself (with repetitions)
    pub fn subs(&self) -> Vec<R> {
        let mut r = vec![self.clone()];
        for k in self.kids() { r.extend(k.subs()); }
        r
    }
    pub fn uniq(&self) -> Vec<R> {
        let mut s = self.subs();
        s.sort();
        s.dedup();
        s
    }
    /// reference complexity: atoms and statements and negations count, containers are as complex as their content
    pub fn complexity(&self) -> i64 {
        let k: i64 = self.kids().iter().map(|x| x.complexity()).sum();
        match self { N(_) | Q(_) | D(_) | I(_) => 1, St(..) | Neg(_) => 1 + k, C(..) | Img(..) => k }
    }
    pub fn is_var(&self) -> bool { matches!(self, Q(_) | D(_) | I(_)) }
    pub fn has_var(&self) -> bool { self.is_var() || self.kids().iter().any(|k| k.has_var()) }
    pub fn replace(&self, what: &R, with: &R) -> R { self.map(&|x| if x == what { Some(with.clone()) } else { None }) }
    /// occurrences (not looking into a occurrence)
    pub fn count(&self, what: &R) -> i64 { if self == what { 1 } else { self.kids().iter().map(|k| k.count(what)).sum() } }

    /// canonical text as a user types it
    pub fn nal(&self) -> String { self.fmt("") }
    /// sp: spacing around "*"
    pub fn fmt(&self, sp: &str) -> String {
        let j = |v: &Vec<R>, s: &str| v.iter().map(|x| x.fmt(sp)).collect::<Vec<_>>().join(s);
        match self {
            N(s) => s.clone(), Q(s) => format!("?{}", s), D(s) => format!("#{}", s), I(s) => format!("${}", s),
            St(c, a, b) => format!("<{} {} {}>", a.fmt(sp), cop_str(*c), b.fmt(sp)),
            Neg(a) => format!("(!{})", a.fmt(sp)),
            C(K::Seq, v) => format!("({})", j(v, ",")),
            C(K::SetInt, v) => format!("[{}]", j(v, " ")),
            C(K::SetExt, v) => format!("{{{}}}", j(v, " ")),
            C(K::Conj, v) => format!("({})", j(v, "&&")),
            C(K::Prod, v) => format!("({})", j(v, &format!("{}*{}", sp, sp))),
            C(K::IntInt, v) => format!("({})", j(v, "|")),
            C(K::ExtInt, v) => format!("({})", j(v, "&")),
            C(K::Par, v) => format!("({})", j(v, ";")),
            Img(r, i, v) => format!("({} /{} {})", r.fmt(sp), i + 1, j(v, " ")),
        }
    }
    /// can this term be written in Narsese?
    pub fn writable(&self) -> bool {
        let own = match self {
            C(K::Seq, v) | C(K::Prod, v) => v.len() >= 2,
            C(K::SetInt, v) | C(K::SetExt, v) => v.len() == 1,
            C(K::Conj, v) => v.len() >= 2 && v.len() <= 4,
            C(K::IntInt, v) | C(K::ExtInt, v) => v.len() == 2,
            C(K::Par, _) => false,
            Img(_, i, v) => *i <= 1 && v.len() == 1,
            _ => true
        };
        own && self.kids().iter().all(|k| k.writable())
    }
    /// text the system prints for the term
    pub fn printed(&self) -> String {
        let j = |v: &Vec<R>, s: &str| v.iter().map(|x| x.printed()).collect::<Vec<_>>().join(s);
        match self {
            N(s) => s.clone(), Q(s) => format!("?{}", s), D(s) => format!("#{}", s), I(s) => format!("${}", s),
            St(c, a, b) => format!("<{} {} {}>", a.printed(), cop_str(*c), b.printed()),
            Neg(a) => format!("(! {} )", a.printed()),
            C(K::Seq, v) => format!("( {} )", j(v, " , ")),
            C(K::SetInt, v) => format!("[{}]", j(v, " ")),
            C(K::SetExt, v) => format!("{{{}}}", j(v, " ")),
            C(K::Conj, v) => format!("( {} )", j(v, " && ")),
            C(K::Prod, v) => format!("( {} )", j(v, " * ")),
            C(K::IntInt, v) => format!("( {} )", j(v, " | ")),
            C(K::ExtInt, v) => format!("( {} )", j(v, " & ")),
            C(K::Par, v) => format!("( {} )", j(v, " ; ")),
            Img(r, i, v) => format!("( {} /{} {} )", r.printed(), i + 1, j(v, " ")),
        }
    }
}
pub fn cop_str(c: Cop) -> &'static str { match c { Cop::Inh => "-->", Cop::Sim => "<->", Cop::Impl => "==>", Cop::Pred => "=/>", Cop::Equiv => "<=>" } }

/// all terms with exactly one constructor over the given components
pub fn layer(xs: &[R], par: bool, arity3: bool) -> Vec<R> {
    let mut r = vec![];
    for a in xs {
        r.push(neg(a.clone()));
        r.push(c(K::SetInt, &[a.clone()]));
        r.push(c(K::SetExt, &[a.clone()]));
        for b in xs {
            for cc in COPS { r.push(st(cc, a.clone(), b.clone())); }
            for k in [K::Seq, K::Conj, K::Prod, K::IntInt, K::ExtInt] { r.push(c(k, &[a.clone(), b.clone()])); }
            if par { r.push(c(K::Par, &[a.clone(), b.clone()])); }
            r.push(img(a.clone(), 0, b.clone()));
            r.push(img(a.clone(), 1, b.clone()));
            if arity3 {
                for d in xs {
                    for k in [K::Seq, K::Conj, K::Prod] { r.push(c(k, &[a.clone(), b.clone(), d.clone()])); }
                    if par { r.push(c(K::Par, &[a.clone(), b.clone(), d.clone()])); }
                }
            }
        }
    }
    r
}
