//! C13, C14: goal store and goal derivation
use std::collections::HashSet;
use std::sync::Arc;
use parking_lot::RwLock;
use mc::engine::*;
use mc::explore::*;
use mc::nar::*;
use mc::goal::*;
use mc::rt::*;
use mc::{seq_world_n, tf};
use nar20_1::Nar::{createNar, inputN, Nar};
use nar20_1::NarGoalSystem::{self as gs, GoalSystem};
use nar20_1::NarInfProcedural as inf;
use nar20_1::NarMem::{self, Mem};
use nar20_1::NarProc::{self, narStep0, narStep1};
use nar20_1::NarSentence::{Evidence, Sentence};
use nar20_1::NarWorkingCycle::{createMem2, Mem2};
use vpmc::ChooserCfg;

#[derive(Clone, Debug)]
enum Op { Add(R, (f64, f64), Vec<i64>, i64), Event(R), Limit, Des(usize, f64) }
impl Op {
    fn text(&self) -> String {
        match self {
            Op::Add(t, v, i, d) => format!("goal {}! {:?} evidence {:?} depth {}", t.printed(), v, i, d),
            Op::Event(t) => format!("event {}", t.printed()),
            Op::Limit => "limit".into(),
            Op::Des(i, d) => format!("desirability of goal {} := {}", i, d),
        }
    }
}

/// reference: returns Err if the implementation's reaction isn't admissible
fn step(model: &mut Vec<G>, g: &GS, mem: &Arc<RwLock<Mem2>>, o: &Op, t: i64, max: usize) -> Result<(), String> {
    match o {
        Op::Add(x, v, ids, d) => {
            gs::addEntry(g, &mem.read(), t, Arc::new(goal(x, *v, ids)), None, *d);
            let ng = G{b: B::of(&goal(x, *v, ids)), depth: *d, des: 1.0, created: t, evi: None, evib: None};
            if !model.iter().any(|m| m.same(&ng)) { model.push(ng); }
        },
        Op::Event(x) => {
            gs::event_occurred(&mut g.write(), &x.t());
            for m in model.iter_mut() { if m.b.term == *x { m.des = 0.0; } }
        },
        Op::Des(i, d) => {
            // a goal which got less desired (any stored goal): set on the model and the implementation, an unrelated event lets the implementation take notice
            let es = gs::retEntries(&g.read());
            if let Some(e) = es.get(*i) {
                let k = { let mut e = e.write(); e.desirability = *d as f32; B::of(&e.sentence) };
                for m in model.iter_mut() { if m.b.term == k.term && m.b.ids == k.ids { m.des = *d as f32 as f64; } }
            }
            gs::event_occurred(&mut g.write(), &n("unrelated").t());
        },
        Op::Limit => {
            gs::limitMemory(g, &mem.read(), t);
            // the best ones are kept, any of equal ones
            let kept = list(g);
            let want = model.len().min(max);
            if kept.len() != want { return Err(format!("{} goals are kept, expected {}", kept.len(), want)); }
            let ks: HashSet<String> = kept.iter().map(|k| k.key()).collect();
            if ks.len() != kept.len() { return Err("a goal is stored twice after limiting".into()); }
            let (k, dropped): (Vec<G>, Vec<G>) = model.iter().cloned().partition(|m| ks.contains(&m.key()));
            if k.len() != want { return Err(format!("goals changed by limiting: {:?} from {:?}", keys(&kept), keys(model))); }
            let worst = k.iter().map(|x| x.utility(t)).fold(f64::MAX, f64::min);
            if let Some(d) = dropped.iter().find(|d| d.utility(t) > worst + 1e-9) { return Err(format!("the more useful goal {} (utility {}) is dropped, worst kept has {}", d.key(), d.utility(t), worst)); }
            *model = k;
        }
    }
    let (a, b) = (keys(&list(g)), keys(model));
    if a != b { return Err(format!("goals are {:#?}, expected {:#?}", a, b)); }
    for m in model.iter() {
        let q = gs::query(&g.read(), &m.b.term.t());
        if q.map(|e| R::of(&e.read().sentence.term)) != Some(m.b.term.clone()) { return Err(format!("the stored goal {} isn't found by its term", m.b.term.printed())); }
    }
    if gs::query(&g.read(), &n("unrelated").t()).is_some() { return Err("a goal was found for a term without goal".into()); }
    Ok(())
}

/// chance of each goal: each depth with goals is equally likely, within a depth in proportion to the desirability
fn check_sample(ctx: &mut Ctx, g: &GS, model: &[G], maxdepth: i64) -> Result<(), String> { check_sample2(ctx, g, model, maxdepth, 16) }
#[allow(non_snake_case)]
fn check_sample2(ctx: &mut Ctx, g: &GS, model: &[G], maxdepth: i64, N: u32) -> Result<(), String> {
    let cand: Vec<&G> = model.iter().filter(|m| !m.is_op()).collect();
    let lvl = |m: &G| m.depth.min(maxdepth - 1);
    let mut ds: Vec<i64> = cand.iter().map(|m| lvl(m)).collect();
    ds.sort(); ds.dedup();
    let cfg = ChooserCfg{rng_first: 4, rng_bound: 4, rng_max_n: 64, float_grid: N, ..ChooserCfg::default()};
    let mut rng = rand::thread_rng();
    let out = all_draws(&cfg, || gs::sample(&g.read(), &mut rng).map(|(s, d)| (B::of(&s), d)));
    ctx.transitions += out.len() as u64;
    ctx.note("draws of goals", out.len() as u64);
    let mut p: Vec<f64> = vec![0.0; cand.len()];
    for (o, pr) in &out {
        match o {
            None => {},
            Some((b, d)) => match cand.iter().position(|m| m.b.key() == b.key() && m.depth == *d) {
                None => return Err(format!("{} with depth {} was chosen but isn't such a goal", b.key(), d)),
                Some(i) => { if cand[i].des <= 0.0 { return Err(format!("satisfied goal {} was chosen", b.key())); } p[i] += pr; }
            }
        }
    }
    for (i, m) in cand.iter().enumerate() {
        let sum: f64 = cand.iter().filter(|x| lvl(x) == lvl(m)).map(|x| x.des.max(0.0)).sum();
        let want = if m.des <= 0.0 { 0.0 } else { m.des / sum / ds.len() as f64 };
        if (p[i] - want).abs() > 2.1 / N as f64 / 1.0f64.max(ds.len() as f64 * 0.5) { return Err(format!("goal {} is chosen with a chance of {:.3}, expected {:.3} (among {:?})", m.key(), p[i], want, keys(model))); }
    }
    Ok(())
}

fn c13(ctx: &mut Ctx) {
    let (a, b) = (n("a"), n("b"));
    let ab = inh(a.clone(), b.clone());
    let alphabet = vec![
        Op::Add(a.clone(), (1.0, 0.9), vec![1], 0), Op::Add(a.clone(), (0.3, 0.8), vec![1], 2), Op::Add(a.clone(), (0.9, 0.9), vec![2], 1), Op::Add(a.clone(), (1.0, 0.5), vec![1, 2], 0),
        Op::Add(ab.clone(), (0.9, 0.6), vec![1], 0), Op::Add(seq(&[b.clone(), op("^x")]), (0.8, 0.9), vec![3], 1), Op::Add(op("^x"), (1.0, 0.8), vec![3], 0), Op::Add(op("^x"), (0.7, 0.8), vec![4], 9), Op::Add(b.clone(), (0.0, 0.9), vec![5], 9),
        Op::Event(a.clone()), Op::Event(op("^x")), Op::Event(seq(&[b.clone(), op("^x")])), Op::Limit, Op::Des(0, 0.5), Op::Des(1, 0.25)];
    let cfgs: &[(i64, i64)] = &[(3, 2), (1, 1), (2, 8), (20, 8), (4, 3)];
    let mem = createMem2(64, 20);
    let mut seen: HashSet<u64> = HashSet::new();
    let k = alphabet.len();
    for (ci, (max, depth)) in cfgs.iter().enumerate() {
        let maxlen = match (ci, ctx.thorough) { (0, false) => 5, (0, true) => 6, (_, false) => 4, (_, true) => 5 };
        for len in 1..=maxlen {
            for code in 0..k.pow(len) {
                if ctx.stop() { return; }
                if !ctx.mine() { continue; }
                let ops: Vec<&Op> = (0..len).map(|i| &alphabet[code / k.pow(i) % k]).collect();
                ctx.case("goals", || format!("at most {} goals, {} depths: {}", max, depth, ops.iter().map(|o| o.text()).collect::<Vec<_>>().join(" ; ")), |ctx| {
                    let g: GS = Arc::new(RwLock::new(gs::makeGoalSystem(*max, *depth)));
                    let mut model = vec![];
                    for (i, o) in ops.iter().enumerate() {
                        step(&mut model, &g, &mem, o, i as i64 * 31, *max as usize)?;
                        ctx.transitions += 1;
                    }
                    let order: Vec<String> = list(&g).iter().map(|x| x.key()).collect();
                    ctx.state(&format!("{} {} {:?}", max, depth, order));
                    let key = hash(&format!("{} {} {:?} {:?}", max, depth, list(&g).iter().map(|x| format!("{:?}{:?}{}{}", x.b.term, x.b.ids, x.depth, x.des)).collect::<Vec<_>>(), std::mem::discriminant(ops[ops.len() - 1])));
                    if seen.insert(key) { check_sample(ctx, &g, &model, *depth)?; }
                    Ok(())
                });
            }
        }
    }
    c13_wide(ctx);
    c13_user(ctx);
    c13_nosat(ctx);
}

/// many goals: of one term, of an operation, of different terms and mixed, each amount, each pattern of satisfied and less desired ones
fn c13_wide(ctx: &mut Ctx) {
    let mem = createMem2(64, 20);
    let most = if ctx.thorough { 24usize } else { 12 };
    for kind in 0..5usize { for cnt in 1..=most { for pat in 0..6usize { for cap in [cnt, (cnt + 1) / 2] {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("many goals", || format!("{} goals of kind {}, pattern {}, capacity {}", cnt, kind, pat, cap), |ctx| {
            let g: GS = Arc::new(RwLock::new(gs::makeGoalSystem(cap as i64, 3)));
            let mut model = vec![];
            let ops: Vec<Op> = (0..cnt).map(|i| {
                let t = match kind { 0 => n("a"), 1 => op("^x"), 2 => n(&format!("g{}", i)), 3 => n(&format!("g{}", i / 3)), _ => if i % 2 == 0 { seq(&[n(&format!("s{}", i / 4)), op("^x")]) } else { op(&format!("^o{}", i / 4)) } };
                Op::Add(t, (if i % 2 == 0 { 1.0 } else { 0.7 }, 0.5 + i as f64 * 0.01), vec![100 + i as i64, 7], if pat == 5 { i as i64 % 4 } else { 0 })
            }).collect();
            let mut t = 0;
            for o in &ops { step(&mut model, &g, &mem, o, t, cap)?; t += 1; ctx.transitions += 1; }
            // the same again changes nothing
            for o in &ops { step(&mut model, &g, &mem, o, t, cap)?; t += 1; ctx.transitions += 1; }
            for i in 0..cnt {
                let d = match pat { 1 => if i % 2 == 0 { 0.5 } else { 1.0 }, 2 => if i == cnt - 1 { 0.0 } else { 1.0 }, 3 => if i == 0 { 0.0 } else { 1.0 }, 4 => if i % 3 == 1 { 0.0 } else { 0.25 + 0.25 * (i % 4) as f64 }, _ => 1.0 };
                if d != 1.0 { step(&mut model, &g, &mem, &Op::Des(i, d), t, cap)?; }
            }
            check_sample2(ctx, &g, &model, 3, 48)?;
            if let Op::Add(x, ..) = &ops[cnt / 2] { step(&mut model, &g, &mem, &Op::Event(x.clone()), t, cap)?; }
            check_sample2(ctx, &g, &model, 3, 48)?;
            step(&mut model, &g, &mem, &Op::Limit, t + 40, cap)?;
            check_sample2(ctx, &g, &model, 3, 48)?;
            // and there is place for new ones
            step(&mut model, &g, &mem, &Op::Add(n("new"), (1.0, 0.9), vec![1], 0), t + 41, cap)?;
            check_sample2(ctx, &g, &model, 3, 48)?;
            ctx.state(&keys(&model).join("|"));
            Ok(())
        });
    } } } }
}

/// satisfaction of goals can be switched off
fn c13_nosat(ctx: &mut Ctx) {
    let mem = createMem2(64, 20);
    for t in [n("a"), op("^x"), seq(&[n("a"), op("^x")])] {
        if !ctx.mine() { continue; }
        ctx.case("goals", || format!("satisfaction off: goal {}, event {}", t.printed(), t.printed()), |_| {
            let g: GS = Arc::new(RwLock::new(gs::makeGoalSystem(20, 8)));
            g.write().cfg__enGoalSatisfaction = false;
            gs::addEntry(&g, &mem.read(), 0, Arc::new(goal(&t, (1.0, 0.9), &[1])), None, 0);
            gs::event_occurred(&mut g.write(), &t.t());
            if list(&g)[0].des != 1.0 { return Err("the goal was satisfied".into()); }
            Ok(())
        });
    }
}

fn nar_quiet(nar: &mut Nar) {
    nar.procNar.cfgEnBabbling = false;
}

/// goals of the user: through the reasoner with events and steps
fn c13_user(ctx: &mut Ctx) {
    let lines = ["g! :|:", "h! {0.6 0.7} :|:", "g. :|:", "h. :|:", "!step", "z. :|:", "(h,<{({SELF}*x)} --> ^x>)! {0.9 0.9} :|:"];
    let k = lines.len();
    let len = if ctx.thorough { 6 } else { 5 };
    for code in 0..k.pow(len) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let ops: Vec<usize> = (0..len).map(|i| code / k.pow(i) % k).collect();
        let texts: Vec<String> = ops.iter().map(|i| lines[*i].to_string()).collect();
        ctx.case("user goals", || format!("lines {}", texts.join(" | ")), |ctx| {
            let t2 = texts.clone();
            let (st, n) = seq_world_n(1, 5_000_000, move || -> Result<(String, u64), String> {
                let mut nar = createNar();
                nar_quiet(&mut nar);
                let g = Arc::clone(&nar.procNar.goalSystem);
                let mut model: Vec<G> = vec![];
                let mut last: Option<R> = None;
                for (i, l) in t2.iter().enumerate() {
                    if l == "!step" {
                        narStep0(&mut nar.procNar);
                        if let Some(e) = &last { for m in model.iter_mut() { if m.b.term == *e { m.des = 0.0; } } }
                        let m = Some(Arc::clone(&nar.mem));
                        narStep1(&mut nar.procNar, &m);
                        // detached goals of desired sequences are allowed
                        for x in list(&g) {
                            match model.iter().find(|m| m.same(&x)) {
                                Some(m) => if m.key() != x.key() { return Err(format!("after line {} goal {} changed to {}", i, m.key(), x.key())); },
                                None => {
                                    let parent = model.iter().find(|m| matches!(&m.b.term, R::C(K::Seq, v) if v[0] == x.b.term) && m.b.ids == x.b.ids);
                                    match parent { Some(p) if near(p.b.f, x.b.f) && near(p.b.c, x.b.c) && x.depth == p.depth + 1 && p.des > 0.0 => model.push(x.clone()), _ => return Err(format!("after line {} goal {} appeared", i, x.key())) }
                                }
                            }
                        }
                        if list(&g).len() != model.len() { return Err(format!("after line {} goals were lost: {:?}", i, keys(&list(&g)))); }
                        continue;
                    }
                    let before = list(&g);
                    if !inputN(&mut nar, l) { return Err(format!("{} was rejected", l)); }
                    let (t, v, p, _) = nar20_1::NarseseParser::parseNarsese(l).unwrap();
                    let after = list(&g);
                    if p == P::GOAL {
                        let new: Vec<&G> = after.iter().filter(|x| !before.iter().any(|y| y.same(x))).collect();
                        if new.len() != 1 || after.len() != before.len() + 1 { return Err(format!("{} goals instead of one were added by line {}", new.len(), i)); }
                        let x = new[0];
                        if x.b.term != R::of(&t) || !near(x.b.f, v.f) || !near(x.b.c, v.c) || x.depth != 0 || x.des != 1.0 || x.b.ids.len() != 1 || x.created != nar.procNar.t || x.evi.is_some() { return Err(format!("line {} was stored as {}", l, x.key())); }
                        if model.iter().any(|m| m.b.overlaps(&x.b.ids)) { return Err(format!("goal {} shares evidence with another one", x.key())); }
                        model.push(x.clone());
                    } else {
                        last = Some(R::of(&t));
                        if keys(&after) != keys(&before) { return Err("the input of a event changed the goals".into()); }
                    }
                }
                Ok((keys(&model).join("\n"), t2.len() as u64))
            })??;
            ctx.transitions += n;
            ctx.state(&st);
            Ok(())
        });
    }
    // more goals than the limit of the reasoner: after the step which enforces it the best 20 are left
    for count in [19usize, 20, 21, 25, 40] { for pat in 0..4u64 {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("user goals", || format!("{} goals, pattern {}", count, pat), |_| {
            seq_world_n(1, 5_000_000, move || -> Result<(), String> {
                let mut nar = createNar();
                nar_quiet(&mut nar);
                let m = Some(Arc::clone(&nar.mem));
                narStep0(&mut nar.procNar); narStep1(&mut nar.procNar, &m);
                for i in 0..count {
                    let f = match pat { 0 => i, 1 => count - i, 2 => (i * 7) % count, _ => (i * i) % count } as f64 / count as f64;
                    let t = if i % 3 == 0 { format!("<{{({{SELF}}*o{})}} --> ^x>", i) } else { format!("g{}", i) };
                    inputN(&mut nar, &format!("{}! {{{} 0.9}} :|:", t, f));
                }
                let g = Arc::clone(&nar.procNar.goalSystem);
                let model = list(&g);
                if model.len() != count { return Err(format!("{} of {} goals are stored", model.len(), count)); }
                narStep0(&mut nar.procNar); narStep1(&mut nar.procNar, &m);
                let kept = list(&g);
                if kept.len() != count.min(20) { return Err(format!("{} goals are kept", kept.len())); }
                let worst = kept.iter().map(|x| x.utility(1)).fold(f64::MAX, f64::min);
                if let Some(d) = model.iter().find(|d| !kept.iter().any(|x| x.same(d)) && d.utility(1) > worst + 1e-9) { return Err(format!("better goal {} was dropped", d.key())); }
                Ok(())
            })?
        });
    } }
}

fn beliefs() -> Vec<(R, (i64, i64), Vec<i64>)> {
    let (a, b, g, h) = (n("a"), n("b"), n("g"), inh(n("g"), c(K::SetInt, &[n("h")])));
    vec![
        (pred(seq(&[a.clone(), op("^x")]), g.clone()), (3, 3), vec![11]), (pred(seq(&[b.clone(), op("^y")]), g.clone()), (3, 4), vec![12]),
        (pred(seq(&[h.clone(), op("^x")]), a.clone()), (6, 6), vec![13]), (pred(seq(&[g.clone(), op("^y")]), b.clone()), (1, 3), vec![14]),
        (pred(a.clone(), h.clone()), (10, 10), vec![15]), (pred(seq(&[b.clone(), op("^x"), op("^y")]), h.clone()), (2, 2), vec![1]), (inh(a.clone(), g.clone()), (5, 5), vec![16]),
        (pred(seq(&[a.clone(), op("^x")]), g.clone()), (4, 4), vec![17, 18]),
    ]
}
fn bsent(x: &(R, (i64, i64), Vec<i64>)) -> Sentence {
    let mut s = judge(&x.0, 1.0, 0.9, &x.2);
    s.evi = Some(Evidence::CNT{pos: x.1.0, cnt: x.1.1});
    s.expDt = Some(1);
    s
}
fn btv(x: &(R, (i64, i64), Vec<i64>)) -> (f64, f64) { (x.1.0 as f64 / x.1.1 as f64, x.1.1 as f64 / (x.1.1 as f64 + 1.0)) }

/// reference: goals which follow directly
fn derive(term: &R, v: (f64, f64), ids: &[i64], know: &[(R, (i64, i64), Vec<i64>)]) -> Vec<(R, (f64, f64), Vec<i64>, Option<R>)> {
    if let R::C(K::Seq, x) = term { if !x.is_empty() { let mut i = ids.to_vec(); i.sort(); return vec![(x[0].clone(), v, i, None)]; } }
    know.iter().filter_map(|k| match &k.0 {
        R::St(Cop::Pred, s, p) if **p == *term && !k.2.iter().any(|i| ids.contains(i)) => {
            let mut i: Vec<i64> = ids.iter().chain(k.2.iter()).cloned().collect();
            i.sort();
            Some(((**s).clone(), tf::ded_goal(v, btv(k)), i, Some(k.0.clone())))
        },
        _ => None,
    }).collect()
}

fn c14(ctx: &mut Ctx) {
    // single derivations
    let terms = vec![n("a"), n("g"), inh(n("a"), n("g")), pred(n("a"), n("g")), seq(&[n("a"), op("^x")]), seq(&[n("a")]), seq(&[seq(&[n("b"), n("a")]), op("^x")]), op("^x"), neg(n("a")), c(K::SetInt, &[n("a")]), c(K::Conj, &[n("a"), n("g")]), c(K::Par, &[n("a"), n("g")]), c(K::Prod, &[n("a"), n("g")]), R::I("v".into()), imp(n("a"), n("g")), sim(n("a"), n("g")), equiv(n("a"), n("g"))];
    let grid = [0.0, 0.1, 0.37, 0.5, 0.83, 1.0];
    let cg = [0.0, 0.2, 0.5, 0.83, 0.99, 1.0];
    let cnts = [(0, 1), (1, 1), (1, 2), (3, 4), (10, 10), (7, 300)];
    let stamps: &[(&[i64], &[i64])] = &[(&[1], &[2]), (&[1], &[1]), (&[1, 2], &[3, 2]), (&[1, 2, 3], &[4, 5]), (&[3], &[4, 5, 3])];
    for g in &terms {
        for f in grid { for cc in cg {
            if !ctx.mine() { continue; }
            if ctx.stop() { return; }
            ctx.case("detach", || format!("detachment of {}! {{{} {}}}", g.printed(), f, cc), |_| {
                let s = goal(g, (f, cc), &[3, 1]);
                let r = inf::infGoalDetach(&s);
                let want = matches!(g, R::C(K::Seq, _));
                match r {
                    None => if want { Err("nothing was detached".into()) } else { Ok(()) },
                    Some(x) => {
                        let b = B::of(&x);
                        let d = derive(g, (f, cc), &[3, 1], &[]);
                        if !want || b.term != d[0].0 || b.punct != '!' || !near(b.f, f) || !near(b.c, cc) || b.set() != vec![1, 3] { return Err(format!("detached {}", b.key())); }
                        Ok(())
                    }
                }
            });
        } }
        for subj in &terms { for p in &terms { for cop in COPS {
            if ctx.stop() { return; }
            if !ctx.mine() { continue; }
            let k = st(cop, subj.clone(), p.clone());
            ctx.case("derive", || format!("goal {}! belief {}", g.printed(), k.printed()), |ctx| {
                for (si, (gi, bi)) in stamps.iter().enumerate() {
                    let full = si == 0 && p == g && cop == Cop::Pred;
                    for (f, cc) in grid.iter().flat_map(|f| cg.iter().map(move |c| (*f, *c))) { for cnt in cnts {
                        if !full && (f, cc) != (0.83, 0.83) { continue; }
                        ctx.transitions += 1;
                        let kb = (k.clone(), cnt, bi.to_vec());
                        let r = inf::infGoalBelief(&goal(g, (f, cc), gi), &bsent(&kb));
                        let gseq = match g { R::C(K::Seq, _) => true, _ => false };
                        let ok = cop == Cop::Pred && p == g && !gi.iter().any(|i| bi.contains(i));
                        match r {
                            None => if ok { return Err(format!("nothing was derived for {:?}", (f, cc, cnt))); },
                            Some(x) => {
                                let b = B::of(&x);
                                let v = tf::ded_goal((f, cc), btv(&kb));
                                let mut ids: Vec<i64> = gi.iter().chain(bi.iter()).cloned().collect();
                                ids.sort();
                                let _ = gseq;
                                if !ok || b.term != *subj || b.punct != '!' || !near(b.f, v.0) || !near(b.c, v.1) || b.set() != ids { return Err(format!("goal tv {:?} belief {:?} evidence {:?}/{:?}: derived {}, expected truth {:?}", (f, cc), cnt, gi, bi, b.key(), v)); }
                            }
                        }
                        if !full { break; }
                    } }
                }
                Ok(())
            });
        } } }
    }
    // goal system with a knowledge base: every subset of the beliefs, every pair of goals, every choice
    let bs = beliefs();
    let goals: Vec<(R, (f64, f64), Vec<i64>)> = vec![(n("g"), (1.0, 0.9), vec![1]), (inh(n("g"), c(K::SetInt, &[n("h")])), (0.9, 0.8), vec![2]), (seq(&[n("g"), op("^x")]), (1.0, 0.7), vec![3]), (n("b"), (0.1, 0.9), vec![4])];
    let mem = createMem2(64, 20);
    for mask in 0..1usize << bs.len() { for g1 in 0..goals.len() { for g2 in g1..goals.len() {
        if ctx.stop() { return; }
        if !ctx.thorough && g1 != g2 && mask.count_ones() % 2 == 0 { continue; }
        if !ctx.mine() { continue; }
        let know: Vec<_> = (0..bs.len()).filter(|i| mask >> i & 1 == 1).map(|i| bs[i].clone()).collect();
        let gl: Vec<_> = if g1 == g2 { vec![goals[g1].clone()] } else { vec![goals[g1].clone(), goals[g2].clone()] };
        ctx.case("system", || format!("goals {} knowledge {}", gl.iter().map(|g| g.0.printed()).collect::<Vec<_>>().join(" "), know.iter().map(|k| k.0.printed()).collect::<Vec<_>>().join(" ")), |ctx| {
            let mut pm: Mem = NarMem::make();
            let shared = Arc::new(RwLock::new(Mem{concepts: Default::default()}));
            std::mem::swap(&mut *shared.write(), &mut pm);
            let mut rng = rand::thread_rng();
            for k in &know {
                if let R::St(Cop::Pred, ..) = k.0 { NarProc::mem_add_evidence(Arc::clone(&shared), &bsent(k), 20, 0, &mut rng); }
                else { NarMem::storeInConcepts(&mut shared.write(), &bsent(k), 20, 0); }
            }
            // candidates are the knowledge about the consequence, no others
            for t in [n("g"), n("a"), n("b"), n("zz"), op("^x"), goals[1].0.clone()] {
                let mut got: Vec<String> = gs::query_by_consequence(&t.t(), &shared.read()).iter().map(|b| B::of(&b.read()).key()).collect();
                let mut want: Vec<String> = know.iter().filter(|k| matches!(&k.0, R::St(Cop::Pred, _, p) if **p == t)).map(|k| B::of(&bsent(k)).key()).collect();
                got.sort(); got.dedup(); want.sort();
                if got != want { return Err(format!("knowledge with the consequence {} is {:?}, expected {:?}", t.printed(), got, want)); }
            }
            // what may follow: closure of the goals
            let mut clos: Vec<(R, (f64, f64), Vec<i64>, Option<R>, i64)> = gl.iter().map(|g| (g.0.clone(), g.1, g.2.clone(), None, 0)).collect();
            let mut i = 0;
            while i < clos.len() && clos.len() < 4000 {
                let x = clos[i].clone();
                for d in derive(&x.0, x.1, &x.2, &know) { clos.push((d.0, d.1, d.2, d.3, x.4 + 1)); }
                i += 1;
            }
            let cfg = ChooserCfg{rng_first: 6, rng_bound: if ctx.thorough { 3 } else { 2 }, rng_max_n: 4, float_grid: 3, ..ChooserCfg::default()};
            let runs = all_draws(&cfg, || -> Result<String, String> {
                let g: GS = Arc::new(RwLock::new(gs::makeGoalSystem(20, 8)));
                for x in &gl { gs::addEntry(&g, &mem.read(), 5, Arc::new(goal(&x.0, x.1, &x.2)), None, 0); }
                let before = list(&g);
                let mut rng = rand::thread_rng();
                gs::sampleAndInference(&g, &mem.read(), 8, &shared.read(), &mut rng);
                let after = list(&g);
                for b in &before { if !after.iter().any(|x| x.key() == b.key()) { return Err(format!("goal {} was lost or changed", b.key())); } }
                let new: Vec<&G> = after.iter().filter(|x| !before.iter().any(|b| b.key() == x.key())).collect();
                for x in &new {
                    if !clos.iter().any(|d| d.0 == x.b.term && near(d.1.0, x.b.f) && near(d.1.1, x.b.c) && d.2 == x.b.set() && d.3 == x.evi && d.4 == x.depth) { return Err(format!("goal {} doesn't follow", x.key())); }
                    if x.created != 8 || x.des != 1.0 || x.b.punct != '!' { return Err(format!("goal {} has wrong time, desirability or type", x.key())); }
                }
                // everything which follows directly from the chosen goal was derived
                let complete = gl.iter().any(|s| derive(&s.0, s.1, &s.2, &know).iter().all(|d| after.iter().any(|x| x.b.term == d.0 && x.b.set() == d.2 && near(x.b.f, d.1.0) && near(x.b.c, d.1.1))));
                if !complete { return Err(format!("conclusions are missing, goals are {:?}", keys(&after))); }
                Ok(keys(&after).join("|"))
            });
            ctx.transitions += runs.len() as u64;
            ctx.note("choices of goals and beliefs", runs.len() as u64);
            for (r, _) in runs { let r = r?; ctx.state(&r); }
            Ok(())
        });
    } } }
    c14_terms(ctx, &terms);
    c14_wide(ctx);
    c14_second(ctx);
    c14_deep(ctx);
}

/// every condition with every consequence (and both exchanged) as knowledge, every goal
fn c14_terms(ctx: &mut Ctx, terms: &[R]) {
    let mem = createMem2(64, 20);
    for subj in terms { for p in terms { for g in terms {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let mut know: Vec<(R, (i64, i64), Vec<i64>)> = vec![(pred(subj.clone(), p.clone()), (3, 4), vec![100])];
        if subj != p { know.push((pred(p.clone(), subj.clone()), (5, 5), vec![101])); }
        ctx.case("knowledge", || format!("goal {} knowledge {}", g.printed(), know.iter().map(|k| k.0.printed()).collect::<Vec<_>>().join(" ")), |ctx| {
            let shared = Arc::new(RwLock::new(NarMem::make()));
            let mut rng = rand::thread_rng();
            for k in &know { NarProc::mem_add_evidence(Arc::clone(&shared), &bsent(k), 20, 0, &mut rng); }
            let mut got: Vec<String> = gs::query_by_consequence(&g.t(), &shared.read()).iter().map(|b| B::of(&b.read()).key()).collect();
            let mut want: Vec<String> = know.iter().filter(|k| matches!(&k.0, R::St(Cop::Pred, _, p) if **p == *g)).map(|k| B::of(&bsent(k)).key()).collect();
            got.sort(); got.dedup(); want.sort();
            if got != want { return Err(format!("knowledge with the consequence is {:?}, expected {:?}", got, want)); }
            let gsys: GS = Arc::new(RwLock::new(gs::makeGoalSystem(20, 8)));
            gs::addEntry(&gsys, &mem.read(), 5, Arc::new(goal(g, (0.9, 0.8), &[1])), None, 0);
            let before = list(&gsys);
            gs::sampleAndInference(&gsys, &mem.read(), 8, &shared.read(), &mut rng);
            let after = list(&gsys);
            let isop = matches!(g, R::St(Cop::Inh, _, o) if matches!(&**o, R::N(s) if s.starts_with('^')));
            let ds = derive(g, (0.9, 0.8), &[1], &know);
            ctx.transitions += 1;
            for d in &ds { if isop { break; } if !after.iter().any(|x| x.b.term == d.0 && x.b.set() == d.2 && near(x.b.f, d.1.0) && near(x.b.c, d.1.1) && x.depth == 1 && x.evi == d.3) { return Err(format!("subgoal {} with evidence {:?} is missing: {:?}", d.0.printed(), d.2, keys(&after))); } }
            let mut clos: Vec<(R, (f64, f64), Vec<i64>)> = vec![(g.clone(), (0.9, 0.8), vec![1])];
            let mut i = 0;
            while i < clos.len() && clos.len() < 200 { let x = clos[i].clone(); for d in derive(&x.0, x.1, &x.2, &know) { clos.push((d.0, d.1, d.2)); } i += 1; }
            for x in after.iter().filter(|x| !before.iter().any(|b| b.key() == x.key())) {
                if !clos.iter().any(|d| d.0 == x.b.term && x.b.set() == d.2 && near(x.b.f, d.1.0) && near(x.b.c, d.1.1)) { return Err(format!("goal {} doesn't follow", x.key())); }
            }
            Ok(())
        });
    } } }
}

/// many implications with the same consequence: each of them gives its subgoal
fn c14_wide(ctx: &mut Ctx) {
    let mem = createMem2(64, 20);
    let cnts: Vec<usize> = if ctx.thorough { (1..=30).chain([40, 48]).collect() } else { (1..=12).chain([17, 26, 40]).collect() };
    for cnt in cnts { for kind in 0..5usize { for gk in 0..3usize {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let g = match gk { 0 => n("g"), 1 => inh(n("g"), c(K::SetInt, &[n("h")])), _ => op("^z") };
        let know: Vec<(R, (i64, i64), Vec<i64>)> = (0..cnt).map(|i| {
            let cond = match kind { 0 => seq(&[n(&format!("c{}", i)), op("^x")]), 1 => n(&format!("c{}", i)), 2 => op(&format!("^o{}", i)), 3 => op("^o"), _ => seq(&[n("c"), op("^x")]) };
            (pred(cond, g.clone()), (1 + i as i64, 1 + i as i64 + i as i64 % 3), vec![100 + i as i64])
        }).collect();
        ctx.case("many implications", || format!("{} implications of kind {} for {}", cnt, kind, g.printed()), |ctx| {
            let shared = Arc::new(RwLock::new(NarMem::make()));
            let mut rng = rand::thread_rng();
            for k in &know { NarProc::mem_add_evidence(Arc::clone(&shared), &bsent(k), 100, 0, &mut rng); }
            let mut got: Vec<String> = gs::query_by_consequence(&g.t(), &shared.read()).iter().map(|b| B::of(&b.read()).key()).collect();
            let mut want: Vec<String> = know.iter().map(|k| B::of(&bsent(k)).key()).collect();
            got.sort(); got.dedup(); want.sort();
            if got != want { return Err(format!("knowledge with the consequence is {:?}, expected {:?}", got, want)); }
            if gk == 2 { return Ok(()); } // operations are executed, not derived from
            let cfg = ChooserCfg{rng_first: 3, rng_bound: 1, rng_max_n: 4, float_grid: 2, ..ChooserCfg::default()};
            let runs = all_draws(&cfg, || -> Result<(), String> {
                let gsys: GS = Arc::new(RwLock::new(gs::makeGoalSystem(20, 8)));
                gs::addEntry(&gsys, &mem.read(), 5, Arc::new(goal(&g, (0.9, 0.8), &[1])), None, 0);
                let mut rng = rand::thread_rng();
                gs::sampleAndInference(&gsys, &mem.read(), 8, &shared.read(), &mut rng);
                let after = list(&gsys);
                for d in derive(&g, (0.9, 0.8), &[1], &know) {
                    if !after.iter().any(|x| x.b.term == d.0 && x.b.set() == d.2 && near(x.b.f, d.1.0) && near(x.b.c, d.1.1) && x.depth == 1 && x.evi == d.3) { return Err(format!("subgoal {} with evidence {:?} is missing", d.0.printed(), d.2)); }
                }
                Ok(())
            });
            ctx.transitions += runs.len() as u64;
            for (r, _) in runs { r?; }
            Ok(())
        });
    } } }
}

/// each condition of a goal which was just derived can become a goal in the same step
fn c14_second(ctx: &mut Ctx) {
    let mem = createMem2(64, 20);
    for cnt in 2..=(if ctx.thorough { 24usize } else { 16 }) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("second step", || format!("goal with one condition, which has {} conditions", cnt), |ctx| {
            let shared = Arc::new(RwLock::new(NarMem::make()));
            let mut rng = rand::thread_rng();
            let mut know: Vec<(R, (i64, i64), Vec<i64>)> = vec![(pred(n("m"), n("g")), (5, 5), vec![50])];
            for i in 0..cnt { know.push((pred(n(&format!("c{}", i)), n("m")), (5, 5), vec![100 + i as i64])); }
            for k in &know { NarProc::mem_add_evidence(Arc::clone(&shared), &bsent(k), 100, 0, &mut rng); }
            let cfg = ChooserCfg{rng_first: 12, rng_bound: 1, rng_max_n: 200, float_grid: 1, ..ChooserCfg::default()};
            let runs = all_draws(&cfg, || -> Vec<R> {
                let gsys: GS = Arc::new(RwLock::new(gs::makeGoalSystem(40, 8)));
                gs::addEntry(&gsys, &mem.read(), 5, Arc::new(goal(&n("g"), (0.9, 0.8), &[1])), None, 0);
                let mut rng = rand::thread_rng();
                gs::sampleAndInference(&gsys, &mem.read(), 8, &shared.read(), &mut rng);
                list(&gsys).iter().map(|x| x.b.term.clone()).collect()
            });
            ctx.transitions += runs.len() as u64;
            for i in 0..cnt { if !runs.iter().any(|(r, _)| r.contains(&n(&format!("c{}", i)))) { return Err(format!("condition {} of {} of the derived goal never becomes a goal in {} runs", i, cnt, runs.len())); } }
            Ok(())
        });
    }
}

/// chains of goals through the whole reasoner: the condition of every link becomes a goal
fn c14_deep(ctx: &mut Ctx) {
    for links in 1..=4usize { for salt in 1..=(if ctx.thorough { 12 } else { 4 }) {
        if !ctx.mine() { continue; }
        ctx.case("chain", || format!("chain of {} links, random {}", links, salt), |ctx| {
            let n = seq_world_n(salt, 20_000_000, move || -> Result<u64, String> {
                let mut nar = createNar();
                nar_quiet(&mut nar);
                for i in 0..links { inputN(&mut nar, &format!("<(s{},<{{({{SELF}}*x)}} --> ^o{}>) =/> s{}>.", i, i, i + 1)); }
                inputN(&mut nar, &format!("s{}! :|:", links));
                let m = Some(Arc::clone(&nar.mem));
                for _ in 0..6 { narStep0(&mut nar.procNar); narStep1(&mut nar.procNar, &m); }
                let l = list(&nar.procNar.goalSystem);
                let mut v = (1.0, 0.9);
                let bt = (1.0, 10.0 / 11.0);
                for i in (0..links).rev() {
                    v = tf::ded_goal(v, bt);
                    let sq = seq(&[mc::rt::n(&format!("s{}", i)), inh(c(K::SetExt, &[c(K::Prod, &[c(K::SetExt, &[mc::rt::n("SELF")]), mc::rt::n("x")])]), mc::rt::n(&format!("^o{}", i)))]);
                    for (t, d) in [(sq, 2 * (links - i) as i64 - 1), (mc::rt::n(&format!("s{}", i)), 2 * (links - i) as i64)] {
                        match l.iter().find(|x| x.b.term == t) {
                            None => return Err(format!("no goal {}", t.printed())),
                            Some(x) => {
                                if !near(x.b.f, v.0) || !near(x.b.c, v.1) || x.depth != d || x.b.ids.len() != links - i + 1 { return Err(format!("goal is {}, expected depth {} truth {:?}", x.key(), d, v)); }
                            }
                        }
                    }
                }
                if l.len() != 2 * links + 1 { return Err(format!("goals are {:#?}", keys(&l))); }
                Ok(6)
            })??;
            ctx.transitions += n;
            Ok(())
        });
    } }
}

fn main() {
    main_of(&[
        Check{id: "C13", rule: "every sequence of adding, satisfying, weakening and limiting over 15 operations up to a length for five capacities, compared with the reference store after every operation; for every distinct store every draw of a goal over a grid of 16x16 answers of the random generator; every history of goals, events and steps of the whole reasoner up to a length", assumptions: &["chances are measured on a grid of the random generator", "any of equally useful goals may be kept"], run: c13},
        Check{id: "C14", rule: "every pair of goal and belief of an enumerated universe with every overlap of evidence and a grid of truths; every subset of a knowledge base with every pair of goals and every choice (up to a bound of deviations) of goals and beliefs; compared with the reference derivation; chains of goals through the whole reasoner", assumptions: &["the first 6 random choices of a derivation are enumerated up to a bound of deviations"], run: c14},
    ]);
}
