//! C05, C06: truth values and evidence
use mc::engine::*;
use mc::nar::*;
use mc::refrules;
use mc::rt::*;
use mc::{seq_world, tf};
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::{self as ns, newStamp, Stamp};
use nar20_1::Tv::{self as ti, Tv};

type F2 = fn(&Tv, &Tv) -> Tv;

fn grid(n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = (0..=n).map(|i| i as f64 / n as f64).collect();
    v.extend([1e-12, 1e-6, 0.001, 0.333333, 0.999, 0.999999, 0.9999999]);
    v
}
fn valid(what: &str, t: &Tv) -> Result<(), String> {
    let ok = |x: f64| x.is_finite() && x >= -1e-9 && x <= 1.0 + 1e-9;
    if ok(t.f) && ok(t.c) { Ok(()) } else { Err(format!("{} gives {{{} {}}}, which is not a truth value", what, t.f, t.c)) }
}
fn same(what: &str, got: &Tv, want: tf::V) -> Result<(), String> {
    valid(what, got)?;
    if near(got.f, want.0) && near(got.c, want.1) { Ok(()) } else { Err(format!("{} gives {{{} {}}}, expected {{{} {}}}", what, got.f, got.c, want.0, want.1)) }
}

fn c05(ctx: &mut Ctx) {
    let g = grid(if ctx.thorough { 100 } else { 40 });
    let fns: &[(&str, F2, fn(tf::V, tf::V) -> tf::V)] = &[
        ("deduction", ti::ded, tf::ded), ("goal deduction", ti::dedGoal, tf::ded_goal), ("abduction", ti::abd, tf::abd), ("induction", ti::ind, tf::ind),
        ("comparison", ti::comp, tf::comp), ("intersection", ti::int, tf::int), ("revision", ti::rev, tf::rev)];
    for &fa in &g { for &ca in &g {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let a = tv(fa, ca);
        ctx.case("functions", || format!("functions of {{{} {}}} and every truth value of the grid", fa, ca), |ctx| {
            same("negation", &ti::neg(&a), (1.0 - fa, ca))?;
            let back = ti::neg(&ti::neg(&a));
            same("double negation", &back, (fa, ca))?;
            let e = ti::calcExp(&a);
            if !near(e, tf::exp((fa, ca))) || !(e >= -1e-12 && e <= 1.0 + 1e-12) { return Err(format!("expectation is {}", e)); }
            if ca < 1.0 && !near(ti::w2c(ti::c2w(ca)), ca) { return Err(format!("confidence {} is not restored from its weight", ca)); }
            for &fb in &g { for &cb in &g {
                let b = tv(fb, cb);
                ctx.transitions += 1;
                for (name, f, r) in fns {
                    let d = || format!("{} of {{{} {}}} {{{} {}}}", name, fa, ca, fb, cb);
                    let got = f(&a, &b);
                    // a certain premise: frequency depends on the limit of certainty, amount of evidence doesn't
                    if *name == "revision" && (ca > 0.99999 || cb > 0.99999) {
                        valid(&d(), &got)?;
                        if got.c < ca.max(cb) - 1e-6 { return Err(format!("{} lost evidence: c={}", d(), got.c)); }
                        if got.f < fa.min(fb) - 1e-6 || got.f > fa.max(fb) + 1e-6 { return Err(format!("{} has frequency {} outside of the premises", d(), got.f)); }
                        if ca > 0.9999999 && cb < 0.99 && (got.f - fa).abs() > 1e-4 { return Err(format!("{}: certain premise was overruled: {}", d(), got.f)); }
                        continue;
                    }
                    same(&d(), &got, r((fa, ca), (fb, cb)))?;
                    if *name == "revision" {
                        let sw = f(&b, &a);
                        if !near(sw.f, got.f) || !near(sw.c, got.c) { return Err(format!("{} depends on the order", d())); }
                        if got.c < ca.max(cb) - 1e-9 { return Err(format!("{} lost evidence", d())); }
                    } else if got.c > ca.min(cb) + 1e-9 && *name != "revision" { return Err(format!("{} is more confident ({}) than its premises", d(), got.c)); }
                }
                if ctx.transitions % 8 == 0 {
                    // vector forms
                    let (x, y) = (vec![a, b, a], vec![b, b]);
                    let rv = nar20_1::TvVec::revVec(&x, &y);
                    let cv = nar20_1::TvVec::compVec(&x, &y);
                    if rv.len() != 2 || cv.len() != 2 { return Err("length of vector".into()); }
                    if ca < 0.99999 && cb < 0.99999 {
                        for i in 0..2 {
                            let (p, q) = ((x[i].f, x[i].c), (y[i].f, y[i].c));
                            same("revision of vectors", &rv[i], tf::rev(p, q))?;
                            same("comparison of vectors", &cv[i], tf::comp(p, q))?;
                        }
                        let w = tf::c2w(ca) * 2.0 + tf::c2w(cb);
                        let want = if w > 0.0 { ((tf::c2w(ca) * 2.0 * fa + tf::c2w(cb) * fb) / w, tf::w2c(w)) } else { (0.0, 0.0) };
                        same("fold of a vector", &nar20_1::TvVec::foldVec(&x), want)?;
                    }
                }
            } }
            Ok(())
        });
    } }
    // chains of functions: every sequence of operations, each starting from every value of a small grid
    let depth = if ctx.thorough { 4 } else { 3 };
    let small: Vec<Tv> = [(0.0, 0.0), (1.0, 0.0), (0.0, 0.9), (1.0, 0.9), (0.5, 0.5), (1.0, 1.0), (0.0, 1.0), (0.3, 0.99), (1.0, 0.999999)].iter().map(|v| tv(v.0, v.1)).collect();
    for (i, a) in small.iter().enumerate() {
        if !ctx.mine() { continue; }
        ctx.case("chains", || format!("chains of truth functions from start value {}", i), |ctx| {
            let mut cur = vec![*a];
            for lv in 0..depth {
                let mut next: Vec<Tv> = vec![];
                let mut seen = std::collections::HashSet::new();
                for x in &cur {
                    let mut out = vec![ti::neg(x)];
                    for b in &small { for (_, f, _) in fns { out.push(f(x, b)); out.push(f(b, x)); } }
                    for o in out {
                        ctx.transitions += 1;
                        valid("chain of truth functions", &o)?;
                        if lv + 1 < depth && seen.insert(((o.f * 1e6) as i64, (o.c * 1e6) as i64)) { ctx.state(&format!("tv{:.6} {:.6}", o.f, o.c)); next.push(o); }
                    }
                }
                cur = next;
            }
            Ok(())
        });
    }
    // counted evidence
    let n = if ctx.thorough { 1500 } else { 300 };
    let more = [500i64, 998, 999, 1000, 1001, 1999, 2000, 4095, 4096, 5000, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 100000, 999999, 1000000, 1000001, 2147483646, 2147483647, 2147483648, 4294967296, 10000000000];
    for cnt in (1..=n).chain(more) { 
        if !ctx.mine() { continue; }
        ctx.case("counted", || format!("counted evidence of {} observations", cnt), |ctx| {
            for pos in (0..=cnt.min(1500)).chain(if cnt > 1500 { vec![cnt / 3, cnt / 2, cnt - 2, cnt - 1, cnt] } else { vec![] }) {
                ctx.transitions += 1;
                let mut s = sent(&n_ab(), P::JUGEMENT, 1.0, 0.9, &[1]);
                s.evi = Some(Evidence::CNT{pos, cnt});
                let t = retTv(&s).ok_or("no truth value")?;
                same(&format!("{} of {} observations", pos, cnt), &t, (pos as f64 / cnt as f64, cnt as f64 / (cnt as f64 + 1.0)))?;
                if pos == cnt {
                    s.evi = Some(Evidence::CNT{pos: pos + 1, cnt: cnt + 1});
                    let t2 = retTv(&s).unwrap();
                    if !(t2.c > t.c || cnt > 1_000_001 && t2.c >= t.c) { return Err("more evidence is not more confidence".into()); }
                }
            }
            Ok(())
        });
    }
    // usefulness
    let big = [30i64, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 65535, 65536, 1000000, 2147483647, 2147483648];
    for last in (0..12i64).chain(big) { for now in (0..24i64).chain(big) { 
        if !ctx.mine() { continue; }
        ctx.case("usage", || format!("usefulness last used {} at {}", last, now), |_| {
            let mut prev = -1.0;
            for cnt in (0..20).chain([99, 100, 101, 127, 128, 255, 256, 257, 1000, 65535, 65536, 1000000]) {
                let mut u = Usage{lastUsed: last, useCount: cnt};
                let v = calcUsageUsefulness(&u, now);
                let q = cnt as f64 / ((now - last).max(0) as f64 + 1.0);
                if !near(v, q / (q + 1.0)) { return Err(format!("count {}: {}", cnt, v)); }
                if v <= prev { return Err("not increasing".into()); }
                prev = v;
                usageUpdate(&mut u, now);
                if u.lastUsed != now || u.useCount != cnt + 1 { return Err("use was not recorded".into()); }
            }
            Ok(())
        });
    } }
    // printed value is read back
    for &f in &g { for &c in &g {
        if !ctx.mine() { continue; }
        ctx.case("text", || format!("text of {{{} {}}}", f, c), |_| {
            for p in [P::JUGEMENT, P::GOAL] {
                let s = convSentenceTermPunctToStr(&sent(&n_ab(), p, f, c, &[1]), true);
                let b = mc::refp::impl_parse(&s).ok_or(format!("{} is not readable", s))?;
                if b.term != n_ab() || !near(b.f, f) || !near(b.c, c) || b.punct != (if p == P::GOAL { '!' } else { '.' }) { return Err(format!("{} is read as {:?}", s, b)); }
            }
            Ok(())
        });
    } }
}
fn n_ab() -> R { inh(n("a"), n("b")) }

fn stamps(ids: &[i64], max: usize) -> Vec<Vec<i64>> {
    let mut r = vec![vec![]];
    let mut cur: Vec<Vec<i64>> = vec![vec![]];
    for _ in 0..max {
        let mut nx = vec![];
        for s in &cur { for i in ids { if !s.contains(i) { let mut v = s.clone(); v.push(*i); nx.push(v); } } }
        r.extend(nx.iter().cloned());
        cur = nx;
    }
    r
}
const CAP: usize = 120;
fn check_merge(a: &[i64], b: &[i64], got: &[i64]) -> Result<(), String> {
    let count = |v: &[i64], x: i64| v.iter().filter(|y| **y == x).count();
    if got.len() != (a.len() + b.len()).min(CAP) { return Err(format!("{} ids merged with {} ids has {} ids", a.len(), b.len(), got.len())); }
    // both premises contribute: the shorter one completely, up to half of the space
    let ka = a.len().min(CAP.saturating_sub(b.len()).max(CAP / 2));
    let kb = b.len().min(CAP.saturating_sub(a.len()).max(CAP / 2));
    let mut want: Vec<i64> = a[..ka].iter().chain(b[..kb].iter()).cloned().collect();
    let mut g = got.to_vec();
    want.sort(); g.sort();
    if want != g { return Err(format!("merge of {:?} and {:?} is {:?} (count {})", a, b, got, count(got, 0))); }
    Ok(())
}

fn c06(ctx: &mut Ctx) {
    // evidential bases
    let all = stamps(&[1, 2, 3, 4, 5], if ctx.thorough { 4 } else { 3 });
    for a in &all {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let sa = newStamp(a);
        ctx.case("base", || format!("base {:?} with every base", a), |ctx| {
            for b in &all {
                ctx.transitions += 1;
                let sb = newStamp(b);
                let o = a.iter().any(|x| b.contains(x));
                if ns::checkOverlap(&sa, &sb) != o { return Err(format!("{:?} and {:?}: overlap {}", a, b, !o)); }
                if ns::checkSame(&sa, &sb) != (a == b) { return Err(format!("{:?} and {:?}: same {}", a, b, a != b)); }
                let m: Stamp = ns::merge(&sa, &sb);
                check_merge(a, b, &m.ids)?;
                for x in &all { let sx = newStamp(x); if x.len() == 1 && ns::checkOverlap(&m, &sx) != (a.contains(&x[0]) || b.contains(&x[0])) { return Err(format!("merge of {:?} and {:?} lost {:?}", a, b, x)); } }
            }
            Ok(())
        });
    }
    // all lengths: the base stays bounded and keeps both sides
    let step = if ctx.thorough { 1 } else { 3 };
    for la in (1..=125usize).step_by(1) {
        if !ctx.mine() { continue; }
        ctx.case("length", || format!("base of length {}", la), |ctx| {
            let a: Vec<i64> = (0..la as i64).collect();
            for lb in (1..=125usize).step_by(step) {
                ctx.transitions += 1;
                let b: Vec<i64> = (1000..1000 + lb as i64).collect();
                check_merge(&a, &b, &ns::merge(&newStamp(&a), &newStamp(&b)).ids)?;
            }
            Ok(())
        });
    }
    // one shared evidence at every place of bases of all lengths
    let lens: Vec<usize> = if ctx.thorough { (1..=125).collect() } else { vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 119, 120, 121] };
    for la in lens.iter().cloned() { for lb in lens.iter().cloned() {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("shared", || format!("bases of length {} and {}", la, lb), |ctx| {
            let a: Vec<i64> = (0..la as i64).collect();
            let b: Vec<i64> = (1000..1000 + lb as i64).collect();
            if ns::checkOverlap(&newStamp(&a), &newStamp(&b)) { return Err("overlap of disjoint bases".into()); }
            for i in 0..la { for j in (0..lb).filter(|j| la * lb < 300 || [0, 1, lb / 2, lb - 1].contains(j) || i == 0 || i + 1 == la) {
                ctx.transitions += 1;
                let mut b2 = b.clone();
                b2[j] = a[i];
                if !ns::checkOverlap(&newStamp(&a), &newStamp(&b2)) { return Err(format!("shared evidence at {} and {} isn't noticed", i, j)); }
            } }
            if la == lb {
                if !ns::checkSame(&newStamp(&a), &newStamp(&a)) { return Err("a base isn't the same as itself".into()); }
                for i in 0..la { let mut x = a.clone(); x[i] = -1; if ns::checkSame(&newStamp(&a), &newStamp(&x)) { return Err(format!("different evidence at {} isn't noticed", i)); } }
            } else if ns::checkSame(&newStamp(&a), &newStamp(&b)) { return Err("bases of different length are the same".into()); }
            Ok(())
        });
    } }
    // histories of a whole reasoner
    let sents: Vec<(R, f64, f64)> = vec![
        (inh(n("a"), n("b")), 1.0, 0.9), (inh(n("b"), n("c")), 1.0, 0.9), (inh(n("a"), n("c")), 0.0, 0.5), (sim(n("a"), n("b")), 0.8, 0.9),
        (imp(inh(R::I("x".into()), n("b")), inh(R::I("x".into()), n("d"))), 1.0, 0.9), (inh(c(K::Prod, &[n("a"), n("b")]), n("r")), 1.0, 0.9),
        (neg(inh(n("a"), n("b"))), 0.9, 0.8), (inh(n("a"), c(K::SetInt, &[n("p")])), 1.0, 0.9), (inh(c(K::IntInt, &[n("a"), n("b")]), n("c")), 1.0, 0.9),
    ];
    let k = sents.len();
    let plans: &[(usize, usize)] = if ctx.thorough { &[(2, 12), (3, 8), (4, 5), (5, 2)] } else { &[(2, 8), (3, 6), (4, 2)] };
    for (len, cycles) in plans.iter().cloned() { for code in 0..k.pow(len as u32) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let hist: Vec<usize> = (0..len).map(|i| code / k.pow(i as u32) % k).collect();
        let sents = sents.clone();
        let d = hist.iter().map(|i| format!("{}. {{{} {}}}", sents[*i].0.nal(), sents[*i].1, sents[*i].2)).collect::<Vec<_>>().join(" , ");
        ctx.case("history", || format!("inputs {} with {} cycles after each", d, cycles), |ctx| {
            let states = seq_world(1, move || -> Result<Vec<String>, String> {
                let mut nar = nar20_1::Nar::createNar();
                let mut by_id: std::collections::HashMap<i64, usize> = Default::default();
                let mut states = vec![];
                for (step, i) in hist.iter().enumerate() {
                    let (t, f, c) = &sents[*i];
                    nar20_1::Nar::inputT(&mut nar, &t.t(), P::JUGEMENT, &tv(*f, *c));
                    // the input is its own, new evidence
                    let fresh: Vec<i64> = tasks_of(&nar.mem).iter().filter(|x| x.b.term == *t && x.b.ids.len() == 1 && !by_id.contains_key(&x.b.ids[0])).map(|x| x.b.ids[0]).collect();
                    if fresh.len() != 1 { return Err(format!("input {} has no new evidence of its own: {:?}", step, fresh)); }
                    by_id.insert(fresh[0], *i);
                    for cy in 0..=cycles {
                        if cy > 0 { nar20_1::Nar::cycle(&mut nar); vpmc::quiesce(); }
                        let mut seen: Vec<B> = tasks_of(&nar.mem).into_iter().map(|x| x.b).collect();
                        for c in concepts_of(&nar.mem) { seen.extend(c.by_exp); seen.extend(c.by_usage); }
                        for b in &seen {
                            let mut ids = b.ids.clone();
                            ids.sort();
                            let l = ids.len();
                            ids.dedup();
                            if ids.is_empty() || ids.len() != l { return Err(format!("{} counts evidence twice", b.key())); }
                            let mut w = 0.0;
                            let mut names: Vec<R> = vec![];
                            for id in &ids {
                                let i = match by_id.get(id) { Some(i) => *i, None => return Err(format!("{} is based on evidence {} which was never given", b.key(), id)) };
                                w += tf::c2w(sents[i].2);
                                names.extend(sents[i].0.subs());
                            }
                            if b.c >= 1.0 || tf::c2w(b.c) > w * 1.000001 { return Err(format!("{} has more weight than its evidence ({})", b.key(), w)); }
                            for s in b.term.subs() { if let R::N(_) = s { if !names.contains(&s) { return Err(format!("{} contains {} which is not part of its evidence", b.key(), s.nal())); } } }
                            if ids.len() == 1 {
                                // one piece of evidence: the input itself or a structural consequence of it
                                let i = by_id[&ids[0]];
                                let mut cl = vec![(sents[i].0.clone(), (sents[i].1, sents[i].2))];
                                let mut j = 0;
                                while j < cl.len() { for (t, v, _) in refrules::one(&cl[j].0.clone(), cl[j].1) { if !cl.iter().any(|x| x.0 == t) { cl.push((t, v)); } } j += 1; }
                                if !cl.iter().any(|x| x.0 == b.term && near(x.1 .0, b.f) && near(x.1 .1, b.c)) { return Err(format!("{} doesn't follow from its evidence", b.key())); }
                            }
                        }
                        let mut kx: Vec<String> = seen.iter().map(|b| b.key()).collect();
                        kx.sort(); kx.dedup();
                        states.push(kx.join("\n"));
                    }
                }
                Ok(states)
            })??;
            ctx.transitions += states.len() as u64;
            for s in states { ctx.state(&s); }
            Ok(())
        });
    } }
}

fn main() {
    main_of(&[
        Check{id: "C05", rule: "every pair of truth values of a grid (with values close to and at the borders) through every truth function, every chain of functions from a small grid, every count of evidence, every usage; compared with the NAL formulas, range and order laws", assumptions: &["floats are compared with relative tolerance 1e-6", "frequency of revision of a premise with confidence 1.0 is only required to lie between the premises"], run: c05},
        Check{id: "C06", rule: "every pair of evidential bases over 5 ids, every pair of lengths up to 125 with a shared evidence at every place, and every history of inputs over 9 sentences up to a length with reasoning after each input; every task and belief of every reached state is checked", assumptions: &["one schedule per history (all schedules of small histories are explored by C22 and C23)"], run: c06},
    ]);
}
