//! C07, C08: inference rules
use mc::engine::*;
use mc::nar::*;
use mc::refrules::{self, Pr};
use mc::rt::*;
use nar20_1::NarWorkingCycle as wc;

fn v(s: &str) -> R { R::I(s.into()) }
fn fmtc(x: &[(R, f64, f64)]) -> String { if x.is_empty() { "nothing".into() } else { x.iter().map(|(t, f, c)| format!("{} {{{:.4} {:.4}}}", t.printed(), f, c)).collect::<Vec<_>>().join(" , ") } }
fn has(l: &[(R, f64, f64)], x: &(R, f64, f64)) -> bool { l.iter().any(|y| y.0 == x.0 && near(x.1, y.1) && near(x.2, y.2)) }
fn same(got: &[(R, f64, f64)], want: &[(R, f64, f64)]) -> Result<(), String> {
    for g in got { if !has(want, g) { return Err(format!("unjustified conclusion {}\n  expected {}", fmtc(&[g.clone()]), fmtc(want))); } }
    for w in want { if !has(got, w) { return Err(format!("missing conclusion {}\n  got {}", fmtc(&[w.clone()]), fmtc(got))); } }
    Ok(())
}

fn universe(ctx: &Ctx) -> Vec<R> {
    let (a, b, cc, d) = (n("a"), n("b"), n("c"), n("d"));
    let mut u = vec![];
    let at = [a.clone(), b.clone(), cc.clone()];
    for x in &at { for y in &at { for k in COPS { u.push(st(k, x.clone(), y.clone())); } } }
    u.push(inh(cc.clone(), d.clone()));
    u.push(a.clone());
    u.push(b.clone());
    let ab = inh(a.clone(), b.clone());
    let bc = inh(b.clone(), cc.clone());
    // sets and compounds on either side
    let si = |x: &R| c(K::SetInt, &[x.clone()]);
    let se = |x: &R| c(K::SetExt, &[x.clone()]);
    for x in [si(&a), si(&b), c(K::SetInt, &[a.clone(), b.clone()]), c(K::SetInt, &[b.clone(), a.clone()]), se(&a), c(K::Prod, &[a.clone(), b.clone()]), c(K::IntInt, &[a.clone(), b.clone()]), c(K::ExtInt, &[a.clone(), b.clone()]), img(a.clone(), 0, b.clone()), c(K::Seq, &[a.clone(), b.clone()])] {
        for k in [Cop::Inh, Cop::Sim, Cop::Impl, Cop::Pred] {
            u.push(st(k, cc.clone(), x.clone()));
            u.push(st(k, x.clone(), cc.clone()));
        }
        u.push(inh(x.clone(), si(&a)));
    }
    // implications between statements, with variables
    let pats = [ab.clone(), bc.clone(), inh(v("x"), b.clone()), inh(a.clone(), v("x")), inh(v("x"), v("y")), sim(v("x"), b.clone()), v("x"), a.clone(), neg(ab.clone()), inh(c(K::Prod, &[v("x"), v("y")]), cc.clone()), inh(R::D("x".into()), b.clone()), inh(R::Q("x".into()), b.clone())];
    let cons = [cc.clone(), inh(v("x"), cc.clone()), inh(v("y"), v("x")), ab.clone(), inh(R::D("x".into()), d.clone()), inh(R::Q("x".into()), d.clone())];
    for p in &pats { for q in &cons { u.push(imp(p.clone(), q.clone())); } }
    for p in &pats[..4] { u.push(pred(p.clone(), bc.clone())); u.push(equiv(p.clone(), bc.clone())); }
    u.push(pred(bc.clone(), ab.clone()));
    // conjunctive conditions of 2 to 5 parts
    for p in &pats[..9] { for q in &pats[..7] { u.push(imp(c(K::Conj, &[p.clone(), q.clone()]), inh(v("x"), v("y")))); } }
    for p in &pats[..5] {
        u.push(imp(c(K::Conj, &[p.clone(), a.clone(), inh(v("x"), cc.clone())]), inh(v("x"), d.clone())));
        u.push(imp(c(K::Conj, &[a.clone(), b.clone(), p.clone()]), inh(v("y"), d.clone())));
        u.push(imp(c(K::Conj, &[a.clone(), p.clone(), b.clone(), inh(v("y"), cc.clone())]), inh(v("y"), d.clone())));
        u.push(imp(c(K::Conj, &[a.clone(), b.clone(), inh(v("y"), cc.clone()), p.clone()]), inh(v("x"), d.clone())));
    }
    u.push(imp(c(K::Conj, &[a.clone(), b.clone()]), cc.clone()));
    u.push(c(K::Conj, &[a.clone(), b.clone()]));
    u.push(c(K::Conj, &[ab.clone(), bc.clone()]));
    u.push(inh(c(K::Prod, &[a.clone(), b.clone()]), cc.clone()));
    u.push(inh(c(K::Prod, &[a.clone(), ab.clone()]), cc.clone()));
    u.push(neg(ab.clone()));
    u.push(imp(ab.clone(), bc.clone()));
    u.push(imp(bc.clone(), inh(cc.clone(), d.clone())));
    u.push(sim(si(&a), si(&b)));
    u.push(sim(se(&a), se(&b)));
    {
        let x: Vec<R> = [ab.clone(), si(&a), c(K::Prod, &[a.clone(), b.clone()]), v("x"), R::Q("x".into()), cc.clone(), img(a.clone(), 1, b.clone()), neg(a.clone())].to_vec();
        let x: Vec<R> = if ctx.thorough { x.into_iter().chain([c(K::IntInt, &[a.clone(), cc.clone()]), b.clone(), imp(a.clone(), b.clone())]).collect() } else { x };
        for y in layer(&x, true, false) { if !u.contains(&y) { u.push(y); } }
    }
    u.sort();
    u.dedup();
    u
}

const TVS: &[(f64, f64)] = &[(1.0, 0.9), (0.6, 0.8), (0.0, 0.5), (0.3, 0.0)];

fn c07(ctx: &mut Ctx) {
    let u = universe(ctx);
    ctx.note("terms", if ctx.shard == 0 { u.len() as u64 } else { 0 });
    for a in &u {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let at = a.t();
        ctx.case("two premises", || format!("conclusions of {} with each of {} terms", a.printed(), u.len()), |ctx| {
            for (ib, b) in u.iter().enumerate() {
                let bt = b.t();
                for (k, (pa, pb)) in [(P::JUGEMENT, P::JUGEMENT), (P::QUESTION, P::JUGEMENT), (P::JUGEMENT, P::QUESTION), (P::QUESTION, P::QUESTION), (P::GOAL, P::JUGEMENT), (P::JUGEMENT, P::GOAL)].iter().enumerate() {
                    let (va, vb) = if k == 0 { (TVS[ib % 4], TVS[(ib / 4) % 4]) } else { (TVS[1], TVS[0]) };
                    let pc = |p: &P| match p { P::JUGEMENT => '.', P::QUESTION => '?', P::GOAL => '!' };
                    let d = || format!("{}{} {:?} , {}{} {:?}", a.printed(), pc(pa), va, b.printed(), pc(pb), vb);
                    let ds = d();
                    crumb(&ds);
                    ctx.state(&ds);
                    ctx.transitions += 1;
                    let tvo = |p: &P, x: (f64, f64)| if *p == P::QUESTION { None } else { Some(tv(x.0, x.1)) };
                    let mut applied = false;
                    let got = wc::infBinary(&at, *pa, &tvo(pa, va), &bt, *pb, &tvo(pb, vb), &mut applied);
                    let want: Vec<(R, f64, f64)> = refrules::two(&Pr{t: a.clone(), p: pc(pa), v: va}, &Pr{t: b.clone(), p: pc(pb), v: vb}).into_iter().map(|(t, v)| (t, v.0, v.1)).collect();
                    let g: Vec<(R, f64, f64)> = got.iter().map(|x| (R::of(&x.0), x.1.f, x.1.c)).collect();
                    same(&g, &want).map_err(|e| format!("{}\n  {}", d(), e))?;
                    if let Some(x) = got.iter().find(|x| x.2 != P::JUGEMENT) { return Err(format!("{}: {} is not a judgement", d(), R::of(&x.0).printed())); }
                    if applied != !want.is_empty() { return Err(format!("{}: rules applied = {}", d(), applied)); }
                    // sentences: evidence of both premises, nothing if evidence is shared
                    if k < 3 {
                        let ids: &[(&[i64], &[i64])] = if want.is_empty() { &[(&[1], &[2])] } else { &[(&[1], &[2]), (&[1, 2], &[3]), (&[1], &[1]), (&[1, 2], &[3, 1]), (&[5, 2, 3], &[4, 3])] };
                        for (x, y) in ids {
                            let (sa, sb) = (sent(a, *pa, va.0, va.1, x), sent(b, *pb, vb.0, vb.1, y));
                            let mut applied = false;
                            let got: Vec<B> = wc::inference(&sa, &sb, &mut applied).iter().map(|s| B::of(&s.0)).collect();
                            let overlap = x.iter().any(|i| y.contains(i));
                            let g: Vec<(R, f64, f64)> = got.iter().map(|x| (x.term.clone(), x.f, x.c)).collect();
                            same(&g, if overlap { &[] } else { &want }).map_err(|e| format!("{} evidence {:?} {:?}\n  {}", d(), x, y, e))?;
                            let mut all: Vec<i64> = x.iter().chain(y.iter()).cloned().collect();
                            all.sort();
                            for o in &got { if o.set() != all || o.punct != '.' { return Err(format!("{} evidence {:?} {:?}: conclusion is {}", d(), x, y, o.key())); } }
                        }
                    }
                }
            }
            Ok(())
        });
    }
    // the truth value of every conclusion for every pair of truth values
    let reps: Vec<(R, R)> = {
        let mut seen: Vec<String> = vec![];
        let mut out = vec![];
        for a in &u { for b in &u {
            let w = refrules::two(&Pr{t: a.clone(), p: '.', v: (0.7, 0.6)}, &Pr{t: b.clone(), p: '.', v: (0.4, 0.8)});
            if w.is_empty() { continue; }
            // one representative per pattern of truth values
            let k = w.iter().map(|x| format!("{:?}", x.1)).collect::<Vec<_>>().join("|");
            if !seen.contains(&k) { seen.push(k); out.push((a.clone(), b.clone())); }
        } }
        out
    };
    // evidence of every length, shared at every position
    let lens = [1usize, 2, 3, 4, 7, 12, 30, 60];
    for (a, b) in &reps {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("evidence", || format!("evidence of {} and {}", a.printed(), b.printed()), |ctx| {
            let (va, vb) = ((0.7, 0.6), (0.4, 0.8));
            let want: Vec<(R, f64, f64)> = refrules::two(&Pr{t: a.clone(), p: '.', v: va}, &Pr{t: b.clone(), p: '.', v: vb}).into_iter().map(|(t, v)| (t, v.0, v.1)).collect();
            for la in lens { for lb in lens {
                let x: Vec<i64> = (0..la as i64).collect();
                let at = |l: usize| -> Vec<Option<usize>> { let mut v: Vec<Option<usize>> = vec![Some(0), Some(l / 2), Some(l - 1)]; v.dedup(); v };
                let mut cs: Vec<(Option<usize>, Option<usize>)> = vec![(None, None)];
                for i in at(la) { for j in at(lb) { cs.push((i, j)); } }
                for (i, j) in cs {
                    ctx.transitions += 1;
                    let mut y: Vec<i64> = (0..lb as i64).map(|k| 1000 + k).collect();
                    if let (Some(i), Some(j)) = (i, j) { y[j] = x[i]; }
                    let mut applied = false;
                    let got: Vec<B> = wc::inference(&sent(a, P::JUGEMENT, va.0, va.1, &x), &sent(b, P::JUGEMENT, vb.0, vb.1, &y), &mut applied).iter().map(|s| B::of(&s.0)).collect();
                    let g: Vec<(R, f64, f64)> = got.iter().map(|x| (x.term.clone(), x.f, x.c)).collect();
                    same(&g, if i.is_some() { &[] } else { &want }).map_err(|e| format!("{} and {} pieces of evidence, shared {:?} {:?}\n  {}", la, lb, i, j, e))?;
                    let mut all: Vec<i64> = x.iter().chain(y.iter()).cloned().collect();
                    all.sort();
                    for o in &got { if o.set() != all { return Err(format!("{} and {} pieces of evidence: conclusion is {}", la, lb, o.key())); } }
                }
            } }
            Ok(())
        });
    }
    // premises of every size
    let mut u2: Vec<R> = vec![];
    let atoms = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"];
    let part = |o: usize, k: usize| -> Vec<R> { (0..k).map(|i| n(atoms[(o + i) % 10])).collect() };
    for k in 1..=(if ctx.thorough { 8 } else { 6 }) {
        for o in [0usize, 2, 4] {
            for kind in [K::SetInt, K::SetExt, K::Prod, K::IntInt, K::ExtInt] { u2.push(inh(n("z"), R::C(kind, part(o, k)))); if o < 4 { u2.push(inh(R::C(kind, part(o, k)), n("z"))); } }
            u2.push(sim(n("z"), R::C(K::SetInt, part(o, k))));
            u2.push(sim(R::C(K::SetExt, part(o, k)), n("z")));
        }
        for p in 0..k {
            // condition of k parts, the variable of part p is in all others and in the consequence
            let parts: Vec<R> = (0..k).map(|i| if i == p { inh(v("x"), n(&format!("k{}", i))) } else if i % 2 == 0 { inh(v("x"), n(&format!("k{}", i))) } else { inh(c(K::Prod, &[v("x"), v("y")]), n(&format!("k{}", i))) }).collect();
            u2.push(imp(R::C(K::Conj, parts.clone()), inh(v("x"), n("z"))));
            u2.push(imp(R::C(K::Conj, parts), inh(c(K::Prod, &[v("x"), v("y")]), n("z"))));
            u2.push(inh(n("m"), n(&format!("k{}", p))));
            u2.push(inh(c(K::Prod, &[n("m"), n("o")]), n(&format!("k{}", p))));
        }
    }
    u2.sort();
    u2.dedup();
    for a in &u2 {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("sized", || format!("conclusions of {} with each of {} terms", a.printed(), u2.len()), |ctx| {
            let at = a.t();
            for b in &u2 {
                ctx.transitions += 1;
                let mut ap = false;
                let got: Vec<(R, f64, f64)> = wc::infBinary(&at, P::JUGEMENT, &Some(tv(0.7, 0.6)), &b.t(), P::JUGEMENT, &Some(tv(0.4, 0.8)), &mut ap).iter().map(|x| (R::of(&x.0), x.1.f, x.1.c)).collect();
                let want: Vec<(R, f64, f64)> = refrules::two(&Pr{t: a.clone(), p: '.', v: (0.7, 0.6)}, &Pr{t: b.clone(), p: '.', v: (0.4, 0.8)}).into_iter().map(|(t, v)| (t, v.0, v.1)).collect();
                same(&got, &want).map_err(|e| format!("{}\n {}", b.printed(), e))?;
            }
            Ok(())
        });
    }
    let g: Vec<f64> = (0..=10).map(|i| i as f64 / 10.0).collect();
    for (a, b) in &reps {
        if !ctx.mine() { continue; }
        ctx.case("truth", || format!("truth of the conclusions of {} and {}", a.printed(), b.printed()), |ctx| {
            let (at, bt) = (a.t(), b.t());
            for fa in &g { for ca in &g { for fb in &g { for cb in &g {
                ctx.transitions += 1;
                let mut ap = false;
                let got: Vec<(R, f64, f64)> = wc::infBinary(&at, P::JUGEMENT, &Some(tv(*fa, *ca)), &bt, P::JUGEMENT, &Some(tv(*fb, *cb)), &mut ap).iter().map(|x| (R::of(&x.0), x.1.f, x.1.c)).collect();
                let want: Vec<(R, f64, f64)> = refrules::two(&Pr{t: a.clone(), p: '.', v: (*fa, *ca)}, &Pr{t: b.clone(), p: '.', v: (*fb, *cb)}).into_iter().map(|(t, v)| (t, v.0, v.1)).collect();
                same(&got, &want).map_err(|e| format!("{{{} {}}} {{{} {}}}: {}", fa, ca, fb, cb, e))?;
            } } } }
            Ok(())
        });
    }
}

fn c08(ctx: &mut Ctx) {
    let at = [n("a"), n("b"), v("x"), R::Q("q".into())];
    let mut u: Vec<R> = at.to_vec();
    let l1 = layer(&at, true, true);
    u.extend(l1.clone());
    let mut inner: Vec<R> = vec![n("a"), n("b")];
    let ab = [n("a"), n("b")];
    inner.extend(layer(&ab, true, ctx.thorough));
    for k in [K::IntInt, K::ExtInt, K::Prod, K::Conj, K::Seq, K::Par, K::SetInt, K::SetExt] {
        for m in 1..=4 { inner.push(C_(k, m)); }
    }
    inner.push(R::Img(Box::new(n("r")), 0, vec![n("a"), n("b")]));
    inner.push(R::Img(Box::new(n("r")), 1, vec![n("a"), n("b")]));
    inner.push(img(n("r"), 2, n("a")));
    for i in 0..3 { for j in 0..2 {
        inner.push(img(img(n("r"), j, n("b")), i, n("a")));
        inner.push(img(n("r"), i, img(n("r"), j, n("b"))));
        inner.push(img(n("r"), i, c(K::Prod, &[n("a"), n("b")])));
        inner.push(img(c(K::SetInt, &[n("r")]), i, c(K::SetExt, &[n("a")])));
    } }
    for k in [K::IntInt, K::ExtInt, K::Prod, K::Conj, K::Par, K::SetInt, K::SetExt] {
        for m in [5usize, 6, 8] { inner.push(R::C(k, (0..m).map(|i| n(&format!("p{}", i))).collect())); }
        inner.push(c(k, &[c(k, &[n("a"), n("b")]), n("r")]));
        inner.push(c(k, &[n("r"), c(k, &[n("a"), n("b")])]));
    }
    inner.push(img(c(K::Prod, &[n("a"), n("b")]), 0, inh(n("a"), n("b"))));
    inner.sort();
    inner.dedup();
    for x in &inner { for y in &inner { for k in COPS { u.push(st(k, x.clone(), y.clone())); } } u.push(neg(x.clone())); u.push(neg(neg(x.clone()))); u.push(c(K::Conj, &[x.clone(), n("b")])); }
    ctx.note("terms", if ctx.shard == 0 { u.len() as u64 } else { 0 });
    let tvs: &[(f64, f64)] = &[(1.0, 0.9), (0.3, 0.6), (0.0, 1.0)];
    for t in &u {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let is_img = matches!(t, R::St(Cop::Inh, _, p) if matches!(**p, R::Img(..)));
        ctx.case("single premise", || format!("conclusions of {}", t.printed()), |ctx| {
            for (f, c) in tvs {
                ctx.transitions += 1;
                let ids: Vec<i64> = if *f == 0.3 { (0..40).map(|i| (i * 7) % 41 + 3).collect() } else { vec![7, 3] };
                let mut sids = ids.clone();
                sids.sort();
                let got = wc::infSinglePremise2(&sent(t, P::JUGEMENT, *f, *c, &ids));
                let want = refrules::one(t, (*f, *c));
                let g: Vec<(R, f64, f64)> = got.iter().map(|x| { let b = B::of(&x.0); (b.term, b.f, b.c) }).collect();
                let w: Vec<(R, f64, f64)> = want.iter().map(|x| (x.0.clone(), x.1 .0, x.1 .1)).collect();
                same(&g, &w)?;
                for (s, att) in &got {
                    let b = B::of(s);
                    if b.set() != sids || b.punct != '.' { return Err(format!("conclusion is {}", b.key())); }
                    if !(*att > 0.0 && *att <= 1.0) { return Err(format!("{}: attention of the conclusion is scaled by {}", b.key(), att)); }
                    if !want.iter().any(|x| x.0 == b.term && near(x.2, *att)) { return Err(format!("{}: attention of the conclusion is scaled by {}", b.key(), att)); }
                }
                // there is no way back to a different truth: what follows from the conclusions about the premise agrees
                for (t2, v2, _) in &want { for (t3, v3, _) in refrules::one(t2, *v2) { if t3 == *t && !(near(v3.0, *f) && near(v3.1, *c)) { return Err("reference rules are inconsistent".into()); } } }
            }
            // only judgements
            if wc::infSinglePremise2(&sent(t, P::GOAL, 1.0, 0.9, &[1])).len() > 0 { return Err("conclusions from a goal".into()); }
            if !is_img && wc::infSinglePremise2(&sent(t, P::QUESTION, 1.0, 0.9, &[1])).len() > 0 { return Err("conclusions from a question".into()); }
            Ok(())
        });
    }
}
#[allow(non_snake_case)]
fn C_(k: K, m: usize) -> R { R::C(k, ["a", "b", "c", "d"][..m].iter().map(|s| n(s)).collect()) }

fn main() {
    main_of(&[
        Check{id: "C07", rule: "every ordered pair of an enumerated universe of terms, with every combination of punctuation, through the binary rules; for each distinct truth pattern every pair of truth values of a 11x11 grid; the set of conclusions must equal the one of the reference rules", assumptions: &["conclusions are compared as a set"], run: c07},
        Check{id: "C08", rule: "every term of an enumerated universe (every copula over every pair of compounds) through the single premise rules; the set of conclusions must equal the one of the reference rules", assumptions: &["conclusions are compared as a set"], run: c08},
    ]);
}
