//! C15, C16, C17, C18: learning from events, anticipation, decisions, operations
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use parking_lot::RwLock;
use mc::engine::*;
use mc::explore::*;
use mc::goal::*;
use mc::nar::*;
use mc::procref::*;
use mc::rt::*;
use mc::seq_world_n;
use nar20_1::Nar::{createNar, inputN, inputT2, Nar};
use nar20_1::NarGoalSystem as gs;
use nar20_1::NarInfProcedural as inf;
use nar20_1::NarProc::{self, narInit, narStep0, narStep1, AnticipationEvent, ProcNar, SimpleSentence};
use nar20_1::NarSentence::{Evidence, Sentence};
use nar20_1::NarWorkingCycle::createMem2;
use nar20_1::OpLib;
use nar20_1::Tv::Tv;
use vpmc::{quiesce, ChooserCfg, WorldCfg};

fn tvb() -> Tv { tv(1.0, 0.9) }
fn prop(a: &str, b: &str) -> R { inh(n(a), c(K::SetInt, &[n(b)])) }
fn world(salt: u64, first: u32, bound: u32, max_n: u64) -> WorldCfg {
    WorldCfg{chooser: ChooserCfg{rng_first: first, rng_bound: bound, rng_max_n: max_n, rng_salt: salt, ..ChooserCfg::default()}, max_steps: 5_000_000, ..WorldCfg::default()}
}
fn event(nar: &mut Nar, t: &R) { inputT2(nar, &t.t(), P::JUGEMENT, &tvb(), true); }
fn tables(n: &ProcNar) -> Tab { tab_of(&n.evidenceMem.read()) }
fn quiet(n: &mut ProcNar) { n.cfgEnBabbling = false; }

fn c15(ctx: &mut Ctx) {
    // intervals
    ctx.case("intervals", || "intervals".into(), |ctx| {
        let tab = seq_world_n(1, 100_000, || narInit().expIntervalsTable.clone())?;
        let want = intervals(1.3, 20);
        if tab != want { return Err(format!("intervals are {:?}, expected {:?}", tab, want)); }
        for dt in -3..60 { ctx.transitions += 1; let g = NarProc::findMinTableIdx(dt, &tab); if g != interval_idx(dt, &tab) { return Err(format!("interval {} is mapped to {}, expected {}", dt, g, interval_idx(dt, &tab))); } }
        Ok(())
    });
    // one step after every stream: all choices of the sampling
    let ops = vec![opinfo("^p", true, 3), opinfo("^q", true, 5)];
    let evs = vec![n("a"), prop("x", "y"), prop("z", "y"), op("^p"), op("^q"), op("^u"), n("b"), inh(n("x"), n("b"))];
    let gaps: &[&[i64]] = &[&[1, 1, 1, 1, 1], &[0, 0, 0, 0, 0], &[2, 5, 30, 1, 4], &[13, 0, 9, 3, 1]];
    for len in 0..=5usize {
        let k = if len == 5 { if ctx.thorough { 5 } else { 4 } } else { evs.len() };
        let pick: Vec<usize> = if len == 5 { vec![0, 1, 3, 2, 4] } else { (0..k).collect() };
        for code in 0..k.pow(len as u32) { for (gi, gap) in gaps.iter().enumerate() {
            if ctx.stop() { return; }
            if len <= 2 && gi > 0 { continue; }
            if len >= 4 && gi % 2 == 1 && !ctx.thorough { continue; }
            let ix: Vec<usize> = (0..len).map(|i| pick[code / k.pow(i as u32) % k]).collect();
            if len >= 4 && !ix.iter().any(|i| *i == 3 || *i == 4) { continue; }
            if !ctx.mine() { continue; }
            let stream: Vec<R> = ix.iter().map(|i| evs[*i].clone()).collect();
            stream_case(ctx, &stream, gap, &ops, 1);
        } }
    }
    // sequences of two operations when they are allowed
    for code in 0..3usize.pow(5) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let stream: Vec<R> = (0..5).map(|i| evs[[0, 3, 1][code / 3usize.pow(i) % 3]].clone()).collect();
        stream_case(ctx, &stream, gaps[0], &ops, 2);
    }
    // long streams: every event before the operation can be the condition
    for len in 6..=20usize { for at in 1..len - 1 { for pat in 0..4usize {
        if ctx.stop() { return; }
        // one operation, two after another, a second one at the begin, a second one at the end
        let more: Vec<usize> = match pat { 0 => vec![], 1 => vec![at + 1], 2 => vec![1], _ => vec![len - 2] };
        if more.iter().any(|m| *m == at || *m >= len) { continue; }
        if !ctx.thorough && (len % 2 == 1 && len != 19 || pat > 0 && (len + at) % 3 != 0) { continue; }
        if !ctx.mine() { continue; }
        let stream: Vec<R> = (0..len).map(|i| if i == at { evs[3].clone() } else if more.contains(&i) { evs[4].clone() } else { n(&format!("e{}", i)) }).collect();
        let g: Vec<i64> = (0..len).map(|i| match pat { 0 => 1, 1 => (i as i64 * 5) % 3, _ => (i as i64 * 7) % 4 }).collect();
        stream_case(ctx, &stream, &g, &ops, 1);
    } } }
    // generalization of single statements
    for t in gen_terms() {
        if !ctx.mine() { continue; }
        ctx.case("generalize", || format!("variables for {}", t.printed()), |_| {
            let mut rng = rand::thread_rng();
            let r = inf::matchandintro_var1_sentence(&judge(&t, 0.9, 0.8, &[3, 4]), &mut rng);
            let want = generalize(&t, "V");
            if r.len() != want.is_some() as usize { return Err(format!("{} generalizations", r.len())); }
            if let Some(w) = want {
                let b = B::of(&r[0]);
                if anon(&b.term) != w || b.set() != vec![3, 4] || !near(b.f, 0.9) || !near(b.c, 0.8) || b.punct != '.' { return Err(format!("generalized to {}, expected {}", b.key(), w.printed())); }
                // a second one has a variable of its own
                let r2 = inf::matchandintro_var1_sentence(&judge(&t, 0.9, 0.8, &[3, 4]), &mut rng);
                if R::of(&r2[0].term) == b.term { return Err("the same variable was introduced twice".into()); }
            }
            Ok(())
        });
    }
    build_cases(ctx);
    learn_histories(ctx);
    trace_bound(ctx);
}

fn gen_terms() -> Vec<R> {
    let xs = vec![n("x"), n("k"), c(K::SetExt, &[n("x")]), inh(n("x"), n("y")), img(n("x"), 0, n("k"))];
    let mut r = vec![];
    for x in &xs { for y in [c(K::SetInt, &[n("y")]), n("y"), c(K::SetInt, &[n("x")]), c(K::SetExt, &[n("y")])] { for cop in [Cop::Inh, Cop::Sim] {
        let cnd = st(cop, x.clone(), y.clone());
        for o in [op("^p"), inh(c(K::SetExt, &[c(K::Prod, &[c(K::SetExt, &[n("SELF")]), x.clone()])]), n("^p"))] {
            for e in [n("g"), inh(x.clone(), n("g")), inh(n("g"), x.clone()), c(K::Conj, &[n("g"), inh(x.clone(), c(K::SetInt, &[n("w")]))]), neg(inh(x.clone(), n("g"))), inh(c(K::Prod, &[x.clone(), n("g")]), n("r")), inh(n("g"), Img2(&x)), seq(&[x.clone(), n("g")]), c(K::ExtInt, &[x.clone(), n("g")]), c(K::IntInt, &[x.clone(), n("g")]), c(K::Par, &[x.clone(), n("g")]), c(K::SetExt, &[x.clone(), n("g")]), inh(n("g"), img(x.clone(), 1, n("m")))] {
                r.push(pred(seq(&[cnd.clone(), o.clone()]), e.clone()));
            }
        }
        r.push(pred(cnd.clone(), inh(x.clone(), n("g"))));
        r.push(pred(seq(&[cnd.clone()]), inh(x.clone(), n("g"))));
        r.push(pred(seq(&[cnd.clone(), op("^p"), op("^q")]), inh(x.clone(), n("g"))));
        r.push(imp(seq(&[cnd.clone(), op("^p")]), inh(x.clone(), n("g"))));
        r.push(pred(c(K::Conj, &[cnd.clone(), op("^p")]), inh(x.clone(), n("g"))));
        r.push(pred(seq(&[op("^p"), cnd.clone()]), inh(x.clone(), n("g"))));
        r.push(cnd.clone());
    } } }
    r
}
#[allow(non_snake_case)]
fn Img2(x: &R) -> R { img(n("r"), 0, x.clone()) }

fn stream_case(ctx: &mut Ctx, stream: &[R], gap: &[i64], ops: &[OpInfo], nops: i64) {
    ctx.case("stream", || format!("events {} gaps {:?} up to {} operations", stream.iter().map(|x| x.printed()).collect::<Vec<_>>().join(" , "), gap, nops), |ctx| {
        let (s2, g2, o2) = (stream.to_vec(), gap.to_vec(), ops.to_vec());
        let outs = every(&world(1, 5, 5, 24), || {
            let (s2, g2, o2) = (s2.clone(), g2.clone(), o2.clone());
            Box::new(move || -> Result<(String, Vec<Ev>), String> {
                let mut nar = createNar();
                quiet(&mut nar.procNar);
                nar.procNar.cfg__perceptionSamplesPerStep = 1;
                nar.procNar.cfg__nOpsMax = nops;
                nar.procNar.cfg__multiOpProbability = 1.0;
                register(&mut nar.procNar, &o2);
                let mut want = vec![];
                for (i, e) in s2.iter().enumerate() {
                    event(&mut nar, e);
                    want.push(Ev{name: e.clone(), evi: nar.procNar.t, t: nar.procNar.t});
                    nar.procNar.t += g2[i];
                }
                let tr = trace_of(&nar.procNar);
                if tr != want { return Err(format!("events are {:?}, expected {:?}", tr, want)); }
                narStep0(&mut nar.procNar);
                quiesce();
                Ok((canon(&tables(&nar.procNar)), tr))
            })
        })?;
        ctx.transitions += outs.len() as u64;
        ctx.note("choices of observations", outs.len() as u64);
        let tr = outs[0].1.clone();
        let tab = intervals(1.3, 20);
        let obs = if nops == 1 { observations(&tr, ops, &tab) } else { observations2(&tr, ops, &tab) };
        let mut want: BTreeSet<String> = BTreeSet::new();
        for o in &obs { let mut t = Tab::new(); learn(&mut t, o, &mut 0); want.insert(canon(&t)); }
        let got: BTreeSet<String> = outs.iter().map(|o| o.0.clone()).collect();
        for g in &got { if !g.is_empty() && !want.contains(g) { return Err(format!("learned\n{}which isn't one of the observations\n{}", g, want.iter().cloned().collect::<Vec<_>>().join("---\n"))); } ctx.state(g); }
        for w in &want { if !got.contains(w) { return Err(format!("observation\n{}can't be learned", w)); } }
        Ok(())
    });
}

/// with two operations: both if there are two, in order of their occurrence
fn observations2(tr: &[Ev], ops: &[OpInfo], tab: &[i64]) -> Vec<B> {
    let js: Vec<usize> = (0..tr.len()).filter(|j| callable(&tr[*j].name, ops).is_some()).collect();
    let k = tr.len();
    let mut r = vec![];
    let sets: Vec<Vec<usize>> = if js.len() < 2 { js.iter().map(|j| vec![*j]).collect() } else { let mut v = vec![]; for a in 0..js.len() { for b in a + 1..js.len() { v.push(vec![js[a], js[b]]); } } v };
    for sel in sets {
        for i in 0..sel[0] { for e in [k - 1, k - 2] {
            if e <= *sel.last().unwrap() || callable(&tr[i].name, ops).is_some() || callable(&tr[e].name, ops).is_some() || tr[i].name == tr[e].name { continue; }
            let mut sq = vec![tr[i].name.clone()];
            let mut ids = vec![tr[i].evi];
            for j in &sel { sq.push(tr[*j].name.clone()); ids.push(tr[*j].evi); }
            ids.push(tr[e].evi);
            let o = callable(&tr[sel[0]].name, ops).unwrap();
            let dt = tr[e].t - tr[*sel.last().unwrap()].t;
            r.push(B{term: pred(seq(&sq), tr[e].name.clone()), punct: '.', f: 1.0, c: o.cnt as f64 / (o.cnt as f64 + 1.0), ids, dt: Some(interval_idx(dt, tab)), cnt: Some((o.cnt, o.cnt))});
        } }
    }
    r
}

fn build_cases(ctx: &mut Ctx) {
    let ops = vec![opinfo("^p", true, 3), opinfo("^q", false, 1)];
    let evs = vec![n("a"), prop("x", "y"), op("^p"), op("^q"), op("^u"), inh(c(K::SetExt, &[n("a")]), n("^p")), seq(&[n("a"), op("^p")]), inh(n("a"), n("^p"))];
    ctx.case("build", || "temporal statements of 3 and 4 events".into(), |ctx| {
        let (o2, e2) = (ops.clone(), evs.clone());
        let nn = seq_world_n(1, 1_000_000, move || -> Result<u64, String> {
            let mut nar = narInit();
            register(&mut nar, &o2);
            let mut cnt = 0;
            for len in [3usize, 4] { for code in 0..e2.len().pow(len as u32) {
                let v: Vec<R> = (0..len).map(|i| e2[code / e2.len().pow(i as u32) % e2.len()].clone()).collect();
                let ts: Vec<_> = v.iter().map(|x| x.t()).collect();
                let r = NarProc::try_build_implSeq(&nar, &ts).map(|t| R::of(&t));
                let ok = v[1..len - 1].iter().all(|x| callable(x, &o2).is_some()) && callable(&v[0], &o2).is_none() && callable(&v[len - 1], &o2).is_none() && v[0] != v[len - 1];
                let want = if ok { Some(pred(seq(&v[..len - 1]), v[len - 1].clone())) } else { None };
                if r != want { return Err(format!("{:?} gives {:?}", v, r)); }
                cnt += 1;
            } }
            Ok(cnt)
        })??;
        ctx.transitions += nn;
        Ok(())
    });
}

/// histories of events, knowledge and steps: the memory after each step must be explained by at most four observations
fn learn_histories(ctx: &mut Ctx) {
    let lines: Vec<String> = ["a. :|:", "<x --> [y]>. :|:", "<{({SELF}*x)} --> ^p>. :|:", "!sp", "<{({SELF}*x)} --> ^q>. :|:", "<(a,<{({SELF}*x)} --> ^p>) =/> <x --> [y]>>."].iter().map(|s| s.to_string()).collect();
    let k = lines.len();
    let len = if ctx.thorough { 7 } else { 6 };
    for code in 0..k.pow(len) {
        if ctx.stop() { return; }
        let ix: Vec<usize> = (0..len).map(|i| code / k.pow(i) % k).collect();
        if ix[0] == 3 || !ix.iter().any(|i| *i == 2 || *i == 4) || ix.iter().filter(|i| **i == 5).count() > 1 { continue; }
        if !ctx.thorough && ix.iter().any(|i| *i == 4) && code % 3 != 0 { continue; }
        if !ctx.mine() { continue; }
        let texts: Vec<String> = ix.iter().map(|i| lines[*i].clone()).chain(["!sp".to_string(), "a. :|:".to_string(), "!sp".to_string()]).collect();
        ctx.case("history", || format!("lines {}", texts.join(" | ")), |ctx| {
            let t2 = texts.clone();
            let st = seq_world_n(code as u64 % 3, 20_000_000, move || learn_run(&t2))??;
            ctx.transitions += st.len() as u64;
            for s in st { ctx.state(&s); }
            Ok(())
        });
    }
}
fn learn_run(texts: &[String]) -> Result<Vec<String>, String> {
    let mut nar = createNar();
    quiet(&mut nar.procNar);
    let ops = vec![opinfo("^p", true, 3), opinfo("^q", true, 2)];
    register(&mut nar.procNar, &ops);
    let tab = intervals(1.3, 20);
    let mut tr: Vec<Ev> = vec![];
    let mut mem = Tab::new();
    let mut states = vec![];
    for (i, l) in texts.iter().enumerate() {
        if l == "!sp" {
            narStep0(&mut nar.procNar);
            quiesce();
            let now = tables(&nar.procNar);
            let obs = observations(&tr, &ops, &tab);
            let k = canon(&now);
            let all = reachable(&mem, &obs, 4);
            if !all.contains_key(&k) { return Err(format!("line {}: the memory\n{}isn't explained by observations of\n{:?}\nbefore it was\n{}", i, k, tr.iter().map(|e| e.name.printed()).collect::<Vec<_>>(), canon(&mem))); }
            mem = now;
            let t = nar.procNar.t;
            let m = Some(Arc::clone(&nar.mem));
            narStep1(&mut nar.procNar, &m);
            quiesce();
            if canon(&tables(&nar.procNar)) != k { return Err(format!("line {}: the memory changed without observation", i)); }
            if nar.procNar.t != t + 1 { return Err("time isn't advanced by one".into()); }
        } else {
            if !inputN(&mut nar, l) { return Err(format!("{} rejected", l)); }
            let (t, _, _, ev) = nar20_1::NarseseParser::parseNarsese(l).unwrap();
            if ev { tr.push(Ev{name: R::of(&t), evi: nar.procNar.t, t: nar.procNar.t}); }
            else {
                let now = tables(&nar.procNar);
                // knowledge of the user has new evidence of its own
                let mut ids: HashSet<i64> = HashSet::new();
                for v in now.values() { for b in v.iter().flatten() { if b.cnt == Some((10, 10)) { ids.extend(b.ids.iter()); } } }
                for v in mem.values() { for b in v.iter().flatten() { if b.cnt == Some((10, 10)) { for x in &b.ids { ids.remove(x); } } } }
                if ids.len() != 1 { return Err(format!("knowledge of the user has evidence {:?}", ids)); }
                add_new(&mut mem, &B{term: R::of(&t), punct: '.', f: 1.0, c: 10.0 / 11.0, ids: ids.into_iter().collect(), dt: None, cnt: Some((10, 10))}, &mut 0);
                if canon(&mem) != canon(&now) { return Err(format!("line {}: the memory is\n{}expected\n{}", i, canon(&now), canon(&mem))); }
                mem = now;
            }
        }
        if trace_of(&nar.procNar) != tr { return Err(format!("line {}: events are {:?}, expected {:?}", i, trace_of(&nar.procNar), tr)); }
        states.push(format!("{:?} {}", tr.iter().map(|e| (e.name.printed(), e.t)).collect::<Vec<_>>(), canon(&mem)));
    }
    Ok(states)
}

/// at most 20 events are remembered
fn trace_bound(ctx: &mut Ctx) {
    for count in [1usize, 19, 20, 21, 22, 41] { for every_n in [1usize, 2, 50] {
        if !ctx.mine() { continue; }
        ctx.case("trace", || format!("{} events, step after each {}", count, every_n), |_| seq_world_n(1, 5_000_000, move || -> Result<(), String> {
            let mut nar = createNar();
            quiet(&mut nar.procNar);
            let m = Some(Arc::clone(&nar.mem));
            let mut want = vec![];
            for i in 0..count {
                event(&mut nar, &n(&format!("e{}", i)));
                want.push(Ev{name: n(&format!("e{}", i)), evi: nar.procNar.t, t: nar.procNar.t});
                if i % every_n == every_n - 1 || i == count - 1 {
                    narStep0(&mut nar.procNar); narStep1(&mut nar.procNar, &m);
                    while want.len() > 20 { want.remove(0); }
                }
                if trace_of(&nar.procNar) != want { return Err(format!("after event {} remembered {:?}", i, trace_of(&nar.procNar).iter().map(|e| e.name.printed()).collect::<Vec<_>>())); }
            }
            if nar.procNar.trace.ret_last_events().map(|v| R::of(&v[v.len() - 1].name)) != want.last().map(|e| e.name.clone()) { return Err("wrong newest event".into()); }
            nar.procNar.trace.force_flush();
            if !trace_of(&nar.procNar).is_empty() || nar.procNar.trace.ret_last_events().is_some() { return Err("events are left after flushing".into()); }
            Ok(())
        })?);
    } }
}

/// knowledge for the remaining checks
fn know() -> Vec<B> {
    let k = |t: R, cnt: (i64, i64), ids: &[i64], dt: Option<i64>| B{term: t, punct: '.', f: cnt.0 as f64 / cnt.1 as f64, c: cnt.1 as f64 / (cnt.1 as f64 + 1.0), ids: ids.to_vec(), dt, cnt: Some(cnt)};
    let vp = inh(c(K::SetExt, &[c(K::Prod, &[c(K::SetExt, &[n("SELF")]), R::I("v".into())])]), n("^p"));
    vec![
        k(pred(seq(&[n("a"), op("^p")]), n("g")), (9, 9), &[101, 102, 103], Some(0)),
        k(pred(seq(&[n("a"), op("^q")]), n("g")), (4, 5), &[104, 105, 106], Some(3)),
        k(pred(seq(&[n("b"), op("^p")]), n("a")), (6, 6), &[107, 108, 109], Some(8)),
        k(pred(seq(&[n("c"), op("^u")]), n("g")), (8, 8), &[110, 111, 112], None),
        k(pred(seq(&[inh(R::I("v".into()), c(K::SetInt, &[n("y")])), vp]), n("h")), (7, 7), &[113, 114, 115], Some(1)),
    ]
}
fn bsentence(b: &B) -> Sentence {
    let mut s = judge(&b.term, 1.0, 0.9, &b.ids);
    s.evi = b.cnt.map(|(pos, cnt)| Evidence::CNT{pos, cnt});
    s.expDt = b.dt;
    s
}
fn load(nar: &mut ProcNar, bs: &[B]) {
    nar.evidenceMem.write().concepts.clear();
    let mut rng = rand::thread_rng();
    for b in bs { NarProc::mem_add_evidence(Arc::clone(&nar.evidenceMem), &bsentence(b), 100, 0, &mut rng); }
}
/// the stored copies of a piece of knowledge
fn stored(nar: &ProcNar, b: &B) -> Vec<Arc<RwLock<Sentence>>> {
    let m = nar.evidenceMem.read();
    let mut r = vec![];
    for (_, cn) in m.concepts.iter() { for s in cn.payload.beliefsByExp.iter().chain(cn.payload.beliefsByUsage.iter()) { if R::of(&s.read().term) == b.term && B::of(&s.read()).set() == b.set() { r.push(Arc::clone(s)); } } }
    r
}
fn put(nar: &ProcNar, t: &R) { nar.trace.event_happened(Rc::new(SimpleSentence{name: t.t(), evi: nar.t, occT: nar.t})); }

fn c16(ctx: &mut Ctx) {
    // every set of up to three anticipations, every recent past
    let bs = know();
    let evs = [n("g"), n("a"), n("z"), n("h")];
    let mut items: Vec<(usize, i64)> = vec![];
    for b in 0..4 { for d in -1..=1 { items.push((b, d)); } }
    let mut sets: Vec<Vec<(usize, i64)>> = vec![vec![]];
    for i in 0..items.len() { sets.push(vec![items[i]]); for j in i..items.len() { sets.push(vec![items[i], items[j]]); for k in j..items.len() { if ctx.thorough || (i + j + k) % 2 == 0 { sets.push(vec![items[i], items[j], items[k]]); } } } }
    let mut pasts: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..4 { pasts.push(vec![a]); for b in 0..4 { pasts.push(vec![a, b]); for c in 0..4 { pasts.push(vec![a, b, c]); } } }
    for window in 1..=3i64 { for s in &sets { for p in &pasts { for which in 0..2usize {
        if ctx.stop() { return; }
        if window != 2 && s.len() > 2 { continue; }
        if !ctx.mine() { continue; }
        let (s2, p2, b2, e2) = (s.clone(), p.clone(), bs.clone(), evs.clone());
        ctx.case("anticipation", || format!("anticipations {:?} (knowledge, deadline - now), events {:?}, window {}, copy {}", s, p.iter().map(|i| evs[*i].printed()).collect::<Vec<_>>(), window, which), |ctx| {
            let st = seq_world_n(1, 1_000_000, move || -> Result<String, String> {
                let mut nar = narInit();
                nar.t = 10;
                nar.cfgPerceptWindow = window;
                load(&mut nar, &b2);
                let mut want = tables(&nar);
                for i in &p2 { put(&nar, &e2[*i]); }
                let mut left = vec![];
                let recent: Vec<&R> = p2.iter().rev().take(window as usize).map(|i| &e2[*i]).collect();
                for (k, d) in &s2 {
                    let copies = stored(&nar, &b2[*k]);
                    nar.anticipatedEvents.push(AnticipationEvent{evi: Arc::clone(&copies[if which == 0 { 0 } else { copies.len() - 1 }]), deadline: nar.t + d});
                    let eff = effect(&b2[*k].term);
                    if recent.iter().any(|x| **x == eff) { continue; }
                    if *d <= 0 { let cur = { let h = &want[&homes(&b2[*k].term)[0]][0]; h.iter().find(|x| x.term == b2[*k].term).unwrap().clone() }; disappoint(&mut want, &cur); }
                    else { left.push((b2[*k].term.clone(), nar.t + d)); }
                }
                narStep0(&mut nar);
                quiesce();
                let mut got: Vec<(R, i64)> = nar.anticipatedEvents.iter().map(|a| (R::of(&a.evi.read().term), a.deadline)).collect();
                got.sort(); left.sort();
                if got != left { return Err(format!("open anticipations are {:?}, expected {:?}", got, left)); }
                let (a, b) = (canon(&tables(&nar)), canon(&want));
                if a != b { return Err(format!("knowledge is\n{}expected\n{}", a, b)); }
                Ok(a)
            })??;
            ctx.state(&st);
            Ok(())
        });
    } } } }
    // many anticipations at once, strong knowledge, each time of the deadline
    for cnt in 1..=10usize { for base in [1i64, 30, 90, 1000] { for d0 in -3..=3i64 { for pat in 0..4usize {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let ks: Vec<B> = (0..cnt).map(|i| { let k = base + i as i64; let ids: Vec<i64> = (0..(1 + i as i64 * (base % 7) * 2)).map(|j| 1000 * i as i64 + j).collect();
            B{term: pred(seq(&[n(&format!("c{}", if pat == 1 { 0 } else { i })), op("^p")]), n(&format!("e{}", if pat == 2 { 0 } else { i }))), punct: '.', f: 1.0, c: k as f64 / (k as f64 + 1.0), ids, dt: Some(i as i64 % 9), cnt: Some((k, k))} }).collect();
        ctx.case("many anticipations", || format!("{} anticipations, evidence from {}, deadlines from {}, pattern {}", cnt, base, d0, pat), |ctx| {
            let ks2 = ks.clone();
            let st = seq_world_n(1, 2_000_000, move || -> Result<String, String> {
                let mut nar = narInit();
                nar.t = 10;
                load(&mut nar, &ks2);
                let mut want = tables(&nar);
                put(&nar, &n("e1")); put(&nar, &n("y"));
                let recent = [n("e1"), n("y")];
                let mut left = vec![];
                for (i, k) in ks2.iter().enumerate() {
                    let d = if pat == 3 { d0 } else { d0 + i as i64 };
                    nar.anticipatedEvents.push(AnticipationEvent{evi: Arc::clone(&stored(&nar, k)[0]), deadline: nar.t + d});
                    if recent.contains(&effect(&k.term)) { continue; }
                    if d <= 0 { disappoint(&mut want, k); } else { left.push((k.term.clone(), nar.t + d)); }
                }
                narStep0(&mut nar);
                quiesce();
                let mut got: Vec<(R, i64)> = nar.anticipatedEvents.iter().map(|a| (R::of(&a.evi.read().term), a.deadline)).collect();
                got.sort(); left.sort();
                if got != left { return Err(format!("open anticipations are {:?}, expected {:?}", got, left)); }
                let (a, b) = (canon(&tables(&nar)), canon(&want));
                if a != b { return Err(format!("knowledge is\n{}expected\n{}", a, b)); }
                Ok(a)
            })??;
            ctx.state(&st);
            Ok(())
        });
    } } } }
    // the deadline of a executed decision for every interval
    {
        let ops = vec![opinfo("^p", true, 3)];
        let decl = Some(createMem2(64, 20));
        let mut nar = narInit();
        let log = register(&mut nar, &ops);
        nar.cfg__resourceExpectedTime = 0.0;
        for dt in 0..9i64 { for cnt in [1i64, 5, 40, 500] {
            if !ctx.mine() { continue; }
            let b = B{term: pred(seq(&[n("a"), op("^p")]), n("g")), punct: '.', f: 1.0, c: cnt as f64 / (cnt as f64 + 1.0), ids: vec![50, 51], dt: Some(dt), cnt: Some((cnt, cnt))};
            decision(ctx, &mut nar, &log, &decl, &ops, &[n("a")], &[(seq(&[n("a"), op("^p")]), (1.0, 0.9), Some(b.clone()))], &[b], (0.58, 2, 1.0));
        } }
    }
    // a decision while other things are anticipated already
    for open in 0..=24usize { for pat in 0..3i64 {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("open anticipations", || format!("decision with {} open anticipations, deadlines {}", open, pat), |ctx| {
            let st = seq_world_n(1, 2_000_000, move || -> Result<String, String> {
                let decl = Some(createMem2(64, 20));
                let mut nar = narInit();
                quiet(&mut nar);
                nar.cfg__resourceExpectedTime = 0.0;
                let log = register(&mut nar, &[opinfo("^p", true, 3)]);
                nar.t = 20;
                let k = |t: R, i: usize| B{term: t, punct: '.', f: 1.0, c: 0.9, ids: vec![100 + i as i64], dt: Some(3), cnt: Some((9, 9))};
                let ks: Vec<B> = (0..open).map(|i| k(pred(seq(&[n(&format!("c{}", i)), op("^p")]), n(&format!("e{}", i))), i)).chain([k(pred(seq(&[n("a"), op("^p")]), n("g")), 90)]).collect();
                load(&mut nar, &ks);
                for (i, b) in ks[..open].iter().enumerate() { nar.anticipatedEvents.push(AnticipationEvent{evi: Arc::clone(&stored(&nar, b)[0]), deadline: nar.t + match pat { 0 => 5, 1 => 1 + i as i64, _ => 50 - i as i64 }}); }
                let all = |nar: &ProcNar| -> Vec<(R, i64)> { let mut v: Vec<(R, i64)> = nar.anticipatedEvents.iter().map(|a| (R::of(&a.evi.read().term), a.deadline)).collect(); v.sort(); v };
                let mut want = all(&nar);
                let m = Arc::clone(decl.as_ref().unwrap());
                gs::addEntry(&nar.goalSystem, &m.read(), 3, Arc::new(goal(&seq(&[n("a"), op("^p")]), (1.0, 0.9), &[1])), Some(Arc::clone(&stored(&nar, &ks[open])[0])), 0);
                put(&nar, &n("a"));
                narStep1(&mut nar, &decl);
                quiesce();
                if log.lock().unwrap().len() != 1 { return Err("the operation wasn't executed".into()); }
                want.push((ks[open].term.clone(), deadline(20, &ks[open], &intervals(1.3, 20))));
                want.sort();
                if all(&nar) != want { return Err(format!("open anticipations are {:?}, expected {:?}", all(&nar), want)); }
                Ok(format!("{:?}", want))
            })??;
            ctx.state(&st);
            Ok(())
        });
    } }
    whole(ctx, true);
}

fn c17(ctx: &mut Ctx) {
    let bs = know();
    let ops = vec![opinfo("^p", true, 3), opinfo("^q", false, 3), opinfo("^w", true, 3)];
    let vp = inh(c(K::SetExt, &[c(K::Prod, &[c(K::SetExt, &[n("SELF")]), R::I("v".into())])]), n("^p"));
    // (term, truth, knowledge it was derived from)
    let goals: Vec<(R, (f64, f64), Option<usize>)> = vec![
        (seq(&[n("a"), op("^p")]), (1.0, 0.8), Some(0)), (seq(&[n("a"), op("^q")]), (1.0, 0.9), Some(1)), (seq(&[n("b"), op("^p")]), (1.0, 0.1), Some(2)), (seq(&[n("c"), op("^u")]), (1.0, 0.95), Some(3)),
        (seq(&[inh(R::I("v".into()), c(K::SetInt, &[n("y")])), vp]), (0.95, 0.8), Some(4)), (seq(&[n("a"), n("b")]), (1.0, 0.97), Some(0)), (seq(&[n("a"), op("^w")]), (1.0, 0.99), None),
        (op("^q"), (0.9, 0.6), Some(1)), (op("^w"), (0.95, 0.9), None), (n("g"), (0.9, 0.9), None), (seq(&[n("a"), n("b"), op("^q")]), (1.0, 0.85), Some(1)), (op("^p"), (1.0, 0.16), Some(2)), (op("^p"), (1.0, 0.1602), Some(0)),
    ];
    let traces: Vec<Vec<R>> = vec![vec![], vec![n("a")], vec![n("b")], vec![n("a"), n("b")], vec![n("b"), n("a")], vec![n("a"), n("z")], vec![n("a"), n("z"), n("z")], vec![prop("k", "y")], vec![n("c"), n("b")], vec![seq(&[n("a"), n("b")])], vec![op("^p"), n("b")]];
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let m = goals.len();
    for i in 0..m { sets.push(vec![i]); for j in 0..m { if i != j { sets.push(vec![i, j]); } for k in 0..m { if i < j && j < k { sets.push(vec![i, j, k]); if ctx.thorough { sets.push(vec![k, j, i]); } } } } }
    let masks: Vec<usize> = if ctx.thorough { (0..32).collect() } else { vec![0, 1, 3, 5, 7, 2, 31, 13, 22] };
    let mem = createMem2(64, 20);
    let mut nar = narInit();
    let log = register(&mut nar, &ops);
    nar.cfg__resourceExpectedTime = 0.0;
    let decl = Some(Arc::clone(&mem));
    for mask in masks { for set in &sets { for tr in &traces { for variant in 0..3 {
        if ctx.stop() { return; }
        if variant > 0 && set.len() > 2 && !ctx.thorough { continue; }
        if !ctx.mine() { continue; }
        let (thr, window, des) = match variant { 0 => (0.58, 2, 1.0), 1 => (0.58, 1, 1.0), _ => (0.9, 2, 0.0) };
        let kn: Vec<B> = (0..bs.len()).filter(|i| mask >> i & 1 == 1).map(|i| bs[i].clone()).collect();
        let gl: Vec<(R, (f64, f64), Option<B>)> = set.iter().map(|i| (goals[*i].0.clone(), goals[*i].1, goals[*i].2.map(|k| bs[k].clone()))).collect();
        decision(ctx, &mut nar, &log, &decl, &ops, tr, &gl, &kn, (thr, window, des));
    } } } }
    // many goals which fit to the situation, many possible predictions of one and of two steps
    for cnt in 1..=8usize { for pat in 0..4usize { for kind in 0..5usize {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let k = |t: R, cnt: (i64, i64), ids: &[i64], dt: i64| B{term: t, punct: '.', f: cnt.0 as f64 / cnt.1 as f64, c: cnt.1 as f64 / (cnt.1 as f64 + 1.0), ids: ids.to_vec(), dt: Some(dt), cnt: Some(cnt)};
        let rank = |i: usize| -> usize { match pat { 0 => i, 1 => cnt - i, 2 => (i * 5 + 3) % 11, _ => 3 } };
        let arg = |i: usize| inh(c(K::SetExt, &[c(K::Prod, &[c(K::SetExt, &[n("SELF")]), n(&format!("x{}", i))])]), n(["^p", "^q", "^w"][i % 3]));
        let mut gl: Vec<(R, (f64, f64), Option<B>)> = vec![];
        let mut kn: Vec<B> = vec![];
        let ev = |i: usize| vec![200 + i as i64, 300 + i as i64];
        match kind {
            0 => for i in 0..cnt { let b = k(pred(seq(&[n("a"), arg(i)]), n("g")), (5, 5), &ev(i), (i + pat * 3) as i64 % 9); kn.push(b.clone()); gl.push((seq(&[n("a"), arg(i)]), (1.0, 0.3 + 0.06 * rank(i) as f64), Some(b))); },
            1 => { for i in 0..cnt { kn.push(k(pred(seq(&[n("a"), arg(i)]), n("g")), (3 + rank(i) as i64, 3 + rank(i) as i64), &ev(i), (i + pat * 3) as i64 % 9)); } gl.push((n("g"), (1.0, 0.95), None)); },
            2 => { kn.push(k(pred(seq(&[n("a"), arg(0)]), n("b")), (9, 9), &[400], 2)); for i in 0..cnt { kn.push(k(pred(seq(&[n("b"), arg(i)]), n("g")), (3 + rank(i) as i64, 3 + rank(i) as i64), &ev(i), 1)); } gl.push((n("g"), (1.0, 0.95), None)); },
            3 => { for i in 0..cnt { let e = n(&format!("g{}", i)); kn.push(k(pred(seq(&[n("a"), arg(i)]), e.clone()), (9, 9), &ev(i), (i + pat * 3) as i64 % 9)); gl.push((e, (1.0, 0.4 + 0.05 * rank(i) as f64), None)); } },
            _ => for i in 0..cnt { let b = k(pred(seq(&[n("c"), arg(i)]), n("g")), (5, 5), &ev(i), (i + pat * 3) as i64 % 9); kn.push(b.clone()); gl.push((arg(i), (1.0, 0.3 + 0.06 * rank(i) as f64), Some(b))); },
        }
        decision(ctx, &mut nar, &log, &decl, &ops, &[n("z"), n("a")], &gl, &kn, (0.58, 2, 1.0));
    } } }
    // chains of predictions of every length; expectations close to the threshold
    for len in 1..=5usize { for cnt in [1i64, 4, 30, 400] { for at in 0..=len { for loopy in [false, true] {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let kn: Vec<B> = (0..len).map(|i| B{term: pred(seq(&[n(&format!("s{}", i)), inh(c(K::SetExt, &[c(K::Prod, &[c(K::SetExt, &[n("SELF")]), n(&format!("x{}", i))])]), n(["^p", "^q", "^w"][i % 3]))]), n(&if loopy && i + 1 == len { "s0".to_string() } else { format!("s{}", i + 1) })), punct: '.', f: 1.0, c: cnt as f64 / (cnt as f64 + 1.0), ids: vec![600 + i as i64], dt: Some(i as i64), cnt: Some((cnt, cnt))}).collect();
        decision(ctx, &mut nar, &log, &decl, &ops, &[n("z"), n("s0")], &[(n(&format!("s{}", at)), (1.0, 0.95), None)], &kn, (0.58, 2, 1.0));
    } } } }
    for (f, cf) in [(1.0, 0.2), (1.0, 0.5), (1.0, 0.9), (0.9, 0.6), (0.75, 0.99)] { for cnt in [2i64, 9, 80] { for d in [-0.02, -1e-3, -3e-4, -1e-4, -2e-5, 2e-5, 1e-4, 3e-4, 1e-3, 0.02] { for kind in 0..3usize {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let b = B{term: pred(seq(&[n("a"), op("^p")]), n("g")), punct: '.', f: 1.0, c: cnt as f64 / (cnt as f64 + 1.0), ids: vec![700], dt: Some(1), cnt: Some((cnt, cnt))};
        let gl: Vec<(R, (f64, f64), Option<B>)> = match kind { 0 => vec![(seq(&[n("a"), op("^p")]), (f, cf), Some(b.clone()))], 1 => vec![(n("g"), (f, cf), None)], _ => vec![(op("^p"), (f, cf), Some(b.clone()))] };
        let e = match kind { 1 => { let v = mc::tf::ded_goal((f, cf), (b.f, b.c)); mc::tf::exp(v) }, _ => cf * (f - 0.5) + 0.5 };
        decision(ctx, &mut nar, &log, &decl, &ops, &[n("a")], &gl, &[b.clone()], (e + d, 2, 1.0));
        // the operation itself is as good as the knowledge
        decision(ctx, &mut nar, &log, &decl, &ops, &[n("a")], &gl, &[b.clone()], (b.c * 0.5 + 0.5 + d, 2, 1.0));
    } } } }
    // answers to the conditions of goals
    for cnt in 1..=4usize { for pat in 0..81usize { for tr in [vec![], vec![n("a")], vec![n("z")]] {
        if ctx.stop() { return; }
        if pat >= 3usize.pow(cnt as u32) || !ctx.mine() { continue; }
        let gl: Vec<(R, (f64, f64), Option<B>)> = (0..4).map(|i| { let sq = seq(&[n(["a", "b", "c", "d"][i]), inh(c(K::SetExt, &[c(K::Prod, &[c(K::SetExt, &[n("SELF")]), n(&format!("x{}", i))])]), n(["^p", "^q", "^w", "^p"][i]))]);
            (sq.clone(), (1.0, 0.5 + 0.1 * i as f64), Some(B{term: pred(sq, n("g")), punct: '.', f: 1.0, c: 0.9, ids: vec![500 + i as i64], dt: Some(i as i64), cnt: Some((9, 9))})) }).collect();
        let kn: Vec<B> = gl.iter().map(|g| g.2.clone().unwrap()).collect();
        let queue: Vec<(usize, (f64, f64))> = (0..cnt).map(|i| ((i * 3 + pat) % 4, [(1.0, 0.9), (0.9, 0.6), (1.0, 0.1)][pat / 3usize.pow(i as u32) % 3])).collect();
        decision_q(ctx, &mut nar, &log, &decl, &ops, &tr, &gl, &kn, &queue, (0.58, 2, 1.0));
    } } }
    babble(ctx);
    whole(ctx, false);
}

/// one decision in a situation under every answer of the random generator
fn decision(ctx: &mut Ctx, nar: &mut ProcNar, log: &Arc<std::sync::Mutex<Vec<(String, Vec<R>)>>>, decl: &Option<Arc<RwLock<nar20_1::NarWorkingCycle::Mem2>>>, ops: &[OpInfo], tr: &[R], goals: &[(R, (f64, f64), Option<B>)], kn: &[B], cfg: (f64, i64, f32)) {
    decision_q(ctx, nar, log, decl, ops, tr, goals, kn, &[], cfg)
}
/// also with queued answers to the condition of a goal (index of the goal, truth of the answer)
fn decision_q(ctx: &mut Ctx, nar: &mut ProcNar, log: &Arc<std::sync::Mutex<Vec<(String, Vec<R>)>>>, decl: &Option<Arc<RwLock<nar20_1::NarWorkingCycle::Mem2>>>, ops: &[OpInfo], tr: &[R], goals: &[(R, (f64, f64), Option<B>)], kn: &[B], queue: &[(usize, (f64, f64))], (thr, window, des): (f64, i64, f32)) {
    let mem = Arc::clone(decl.as_ref().unwrap());
    ctx.case("decision", || format!("events {:?} goals {:?} knowledge {:?} threshold {} window {} desirability of the first goal {} answers {:?}", tr.iter().map(|x| x.printed()).collect::<Vec<_>>(), goals.iter().map(|g| g.0.printed()).collect::<Vec<_>>(), kn.iter().map(|k| k.term.printed()).collect::<Vec<_>>(), thr, window, des, queue), |ctx| {
        load(nar, kn);
        let all: Vec<Option<Arc<RwLock<Sentence>>>> = goals.iter().map(|g| g.2.as_ref().map(|b| stored(nar, b).first().cloned().unwrap_or_else(|| Arc::new(RwLock::new(bsentence(b)))))).collect();
        nar.cfgDescnThreshold = thr;
        nar.cfgPerceptWindow = window;
        let mut seen: HashSet<Act> = HashSet::new();
        let mut sit: Option<Sit> = None;
        let cfg = ChooserCfg{rng_first: 4, rng_bound: 4, rng_max_n: 16, ..ChooserCfg::default()};
        nar.cfgEnBabbling = false;
        let outs = all_draws(&cfg, || -> Result<Act, String> {
            nar.goalSystem = Arc::new(RwLock::new(gs::makeGoalSystem(20, 8)));
            nar.anticipatedEvents.clear();
            nar.trace.force_flush();
            nar.t = 20;
            log.lock().unwrap().clear();
            for (i, g) in goals.iter().enumerate() { gs::addEntry(&nar.goalSystem, &mem.read(), 3, Arc::new(goal(&g.0, g.1, &[i as i64 + 1])), all[i].clone(), i as i64); }
            if des < 1.0 { if let Some(e) = gs::retEntries(&nar.goalSystem.read()).first() { e.write().desirability = des; } }
            for e in tr { put(&nar, e); }
            for (i, v) in queue {
                let t = goals[*i].0.t();
                let entry = gs::retEntries(&nar.goalSystem.read()).into_iter().find(|e| *e.read().sentence.term == t).ok_or("the goal isn't stored")?;
                let mut h = gs::QaProcHandlerImpl{entry, goalSystem: Arc::clone(&nar.goalSystem)};
                let a = judge(&n("answer"), v.0, v.1, &[77]);
                nar20_1::NarWorkingCycle::QHandler::answer(&mut h, &n("question").t(), &a);
            }
            if sit.is_none() { sit = Some(Sit{t: nar.t, trace: trace_of(&nar), goals: list(&nar.goalSystem), know: kn.to_vec(), thr, window: window as usize, tab: intervals(1.3, 20), ops: ops.to_vec(), queued: queue.iter().map(|(i, v)| (goals[*i].0.clone(), mc::tf::exp(*v), goals[*i].2.clone())).collect()}); }
            let before = trace_of(&nar);
            narStep1(nar, decl);
            let calls = log.lock().unwrap().clone();
            let r = observe(&nar, &calls, sit.as_ref().unwrap(), &before)?;
            if !queue.is_empty() {
                // a answer is used once
                nar.goalSystem = { let old = Arc::clone(&nar.goalSystem); old.write().activeSet.set.clear(); old };
                nar.trace.force_flush();
                let before = log.lock().unwrap().len();
                narStep1(nar, decl);
                if log.lock().unwrap().len() != before { return Err("a answer was used twice".into()); }
            }
            Ok(r)
        });
        ctx.transitions += outs.len() as u64;
        let allowed = decide(sit.as_ref().unwrap());
        for (o, _) in outs {
            let o = o?;
            if !allowed.iter().flatten().any(|a| *a == o) { return Err(format!("decision {:#?}\nis none of {:#?}", o, allowed)); }
            ctx.state(&format!("{:?}", o));
            seen.insert(o);
        }
        for a in &allowed { if !a.iter().any(|x| seen.contains(x)) { return Err(format!("none of the decisions {:#?}\nis ever made", a)); } }
        Ok(())
    });
}

/// what happened in a step, with the consistency of calls, events and anticipations
fn observe(nar: &ProcNar, calls: &[(String, Vec<R>)], s: &Sit, before: &[Ev]) -> Result<Act, String> {
    if calls.len() > 1 { return Err(format!("{} operations were executed in one step", calls.len())); }
    let tr = trace_of(nar);
    let antis: Vec<(B, i64)> = nar.anticipatedEvents.iter().map(|a| (B::of(&a.evi.read()), a.deadline)).collect();
    let mut op = None;
    let mut exp = before.to_vec();
    if let Some((name, args)) = calls.first() {
        let t = inh(c(K::SetExt, &[R::C(K::Prod, args.clone())]), n(name));
        exp.push(Ev{name: t.clone(), evi: s.t, t: s.t});
        op = Some(t);
    }
    while exp.len() > 20 { exp.remove(0); }
    if tr != exp { return Err(format!("events after the step are {:?}, expected {:?}", tr, exp)); }
    if antis.len() > 1 { return Err("more than one anticipation was added".into()); }
    let by = antis.first().map(|a| a.0.key());
    if let Some((b, d)) = antis.first() { if *d != deadline(s.t, b, &s.tab) { return Err(format!("deadline is {}, expected {}", d, deadline(s.t, b, &s.tab))); } }
    let active = active_keys(&list(&nar.goalSystem));
    // a operation which isn't registered can't be executed, what else happens then isn't specified
    if op.is_none() && by.is_some() {
        let un: Vec<Act> = decide(s).into_iter().flatten().filter(|a| a.by == by && a.active == active && a.op.as_ref().map(|o| callable(o, &s.ops).is_none()).unwrap_or(false)).collect();
        if let Some(a) = un.first() { return Ok(a.clone()); }
    }
    if nar.t != s.t + 1 { return Err("time isn't advanced by one".into()); }
    Ok(Act{op, by, active})
}

fn babble(ctx: &mut Ctx) {
    for nops in 0..=4usize { for mask in 0..1u32 << nops { for en in [true, false] {
        if !ctx.mine() { continue; }
        ctx.case("babbling", || format!("{} operations, may babble {:b}, enabled {}", nops, mask, en), |ctx| {
            let mem = createMem2(64, 20);
            let decl = Some(mem);
            let mut nar = narInit();
            let ops: Vec<OpInfo> = (0..nops).map(|i| opinfo(&format!("^o{}", i), mask >> i & 1 == 1, 3)).collect();
            let log = register(&mut nar, &ops);
            nar.cfg__resourceExpectedTime = 0.0;
            nar.cfgEnBabbling = en;
            let cfg = ChooserCfg{rng_first: 3, rng_bound: 3, rng_max_n: 64, float_grid: 108, ..ChooserCfg::default()};
            let outs = all_draws(&cfg, || -> Result<Option<String>, String> {
                nar.trace.force_flush();
                nar.t = 20;
                log.lock().unwrap().clear();
                narStep1(&mut nar, &decl);
                let l = log.lock().unwrap().clone();
                if l.len() > 1 { return Err("several operations were executed".into()); }
                if !nar.anticipatedEvents.is_empty() { return Err("something is anticipated without knowledge".into()); }
                let tr = trace_of(&nar);
                match l.first() {
                    None => { if !tr.is_empty() { return Err("a event without execution".into()); } Ok(None) },
                    Some((name, args)) => {
                        if args != &vec![c(K::SetExt, &[n("SELF")])] { return Err(format!("arguments are {:?}", args)); }
                        if tr.len() != 1 || op_name(&tr[0].name).as_ref() != Some(name) { return Err(format!("events are {:?}", tr)); }
                        Ok(Some(name.clone()))
                    }
                }
            });
            ctx.transitions += outs.len() as u64;
            let mut p = std::collections::HashMap::new();
            for (o, pr) in outs { if let Some(x) = o? { *p.entry(x).or_insert(0.0) += pr; } }
            for o in &ops {
                let got = *p.get(&o.name).unwrap_or(&0.0);
                if !en || !o.babble { if got > 0.0 { return Err(format!("{} was executed", o.name)); } }
                else if got <= 0.0 { return Err(format!("{} is never tried", o.name)); }
                else if (got - 1.0 / 9.0 / nops as f64).abs() > 0.004 { return Err(format!("{} is tried with a chance of {}", o.name, got)); }
            }
            Ok(())
        });
    } } }
}

/// whole reasoner: every history of events, goals, knowledge and steps
fn whole(ctx: &mut Ctx, anticipation: bool) {
    let lines: Vec<String> = ["a. :|:", "g. :|:", "!sp", "g! :|:", "<(a,<{({SELF}*x)} --> ^p>) =/> g>.", "<(g,<{({SELF}*x)} --> ^q>) =/> h>.", "h! {0.9 0.95} :|:"].iter().map(|s| s.to_string()).collect();
    let k = lines.len();
    let len = if ctx.thorough { 6 } else { 5 };
    let tail: Vec<String> = if anticipation { vec!["!sp", "!sp", "!sp", "a. :|:", "!sp", "!sp"] } else { vec!["!sp", "a. :|:", "!sp", "!sp"] }.iter().map(|s| s.to_string()).collect();
    for code in 0..k.pow(len) {
        if ctx.stop() { return; }
        let ix: Vec<usize> = (0..len).map(|i| code / k.pow(i) % k).collect();
        if !ix.contains(&4) && !ix.contains(&5) { continue; }
        if !ix.contains(&3) && !ix.contains(&6) { continue; }
        if !ctx.mine() { continue; }
        let texts: Vec<String> = ix.iter().map(|i| lines[*i].clone()).chain(tail.iter().cloned()).collect();
        ctx.case("whole", || format!("lines {}", texts.join(" | ")), |ctx| {
            let t2 = texts.clone();
            let (st, ex) = seq_world_n(code as u64 % 3, 20_000_000, move || whole_run(&t2))??;
            ctx.transitions += st.len() as u64;
            ctx.note("executed operations", ex);
            for s in st { ctx.state(&s); }
            Ok(())
        });
    }
}
fn unique(t: &Tab) -> Vec<B> {
    let mut m = std::collections::BTreeMap::new();
    for v in t.values() { for b in v.iter().flatten() { m.insert(b.key(), b.clone()); } }
    m.into_values().collect()
}
fn whole_run(texts: &[String]) -> Result<(Vec<String>, u64), String> {
    let mut nar = createNar();
    quiet(&mut nar.procNar);
    let ops = vec![opinfo("^p", true, 3), opinfo("^q", true, 2)];
    let log = register(&mut nar.procNar, &ops);
    let tab = intervals(1.3, 20);
    let mut states = vec![];
    let mut executed = 0;
    // open anticipations: knowledge and deadline
    let mut open: Vec<(B, i64)> = vec![];
    for (i, l) in texts.iter().enumerate() {
        if l != "!sp" { if !inputN(&mut nar, l) { return Err(format!("{} rejected", l)); } continue; }
        let p = &mut nar.procNar;
        let tr = trace_of(p);
        let before = tables(p);
        // first half: anticipations and learning
        let mut want = before.clone();
        let recent: Vec<R> = tr.iter().rev().take(2).map(|e| e.name.clone()).collect();
        open.retain(|(b, _)| !recent.contains(&effect(&b.term)));
        for (b, d) in &open { if *d <= p.t {
            let cur = unique(&want).into_iter().find(|x| x.term == b.term && x.set() == b.set() && x.dt == b.dt).ok_or("the knowledge of a anticipation is gone")?;
            disappoint(&mut want, &cur);
        } }
        let t = p.t;
        open.retain(|(_, d)| *d > t);
        narStep0(p);
        quiesce();
        let now = tables(p);
        if !reachable(&want, &observations(&tr, &ops, &tab), 4).contains_key(&canon(&now)) { return Err(format!("line {}: knowledge is\n{}which isn't explained, expected without new observations\n{}", i, canon(&now), canon(&want))); }
        let ak = |v: &[(B, i64)]| { let mut r: Vec<String> = v.iter().map(|(b, d)| format!("{} {:?} {}", b.term.printed(), b.dt, d)).collect(); r.sort(); r };
        let antis = |p: &ProcNar| -> Vec<(B, i64)> { p.anticipatedEvents.iter().map(|a| (B::of(&a.evi.read()), a.deadline)).collect() };
        if ak(&antis(p)) != ak(&open) { return Err(format!("line {}: open anticipations are {:?}, expected {:?}", i, ak(&antis(p)), ak(&open))); }
        // evidence may have changed in between
        open = antis(p);
        // second half: decision
        let sit = Sit{t, trace: tr.clone(), goals: list(&p.goalSystem), know: unique(&now), thr: p.cfgDescnThreshold, window: 2, tab: tab.clone(), ops: ops.clone(), queued: vec![]};
        if let Some(e) = tr.last() { if sit.goals.iter().any(|g| g.b.term == e.name && g.des != 0.0) { return Err(format!("line {}: goal {} isn't satisfied by the newest event", i, e.name.printed())); } }
        let calls0 = log.lock().unwrap().len();
        let m = Some(Arc::clone(&nar.mem));
        let p = &mut nar.procNar;
        narStep1(p, &m);
        quiesce();
        let calls: Vec<_> = log.lock().unwrap()[calls0..].to_vec();
        let a2 = antis(p);
        if a2.len() < open.len() || ak(&a2[..open.len()]) != ak(&open) { return Err(format!("line {}: a anticipation was lost", i)); }
        let add: Vec<(B, i64)> = a2[open.len()..].to_vec();
        if add.len() > 1 || calls.len() > 1 { return Err(format!("line {}: more than one execution", i)); }
        let mut exp = tr.clone();
        let mut op = None;
        if let Some((name, args)) = calls.first() { let x = inh(c(K::SetExt, &[R::C(K::Prod, args.clone())]), n(name)); exp.push(Ev{name: x.clone(), evi: t, t}); op = Some(x); executed += 1; }
        while exp.len() > 20 { exp.remove(0); }
        if trace_of(p) != exp { return Err(format!("line {}: events are {:?}, expected {:?}", i, trace_of(p), exp)); }
        if let Some((b, d)) = add.first() { if *d != deadline(t, b, &tab) { return Err(format!("line {}: deadline {} expected {}", i, d, deadline(t, b, &tab))); } }
        let got = (op.clone(), add.first().map(|a| a.0.key()));
        let allowed = decide(&sit);
        if !allowed.iter().flatten().any(|x| (x.op.clone(), x.by.clone()) == got) { return Err(format!("line {}: decision {:?}\nis none of {:#?}\nevents {:?} goals {:#?}", i, got, allowed, tr.iter().map(|e| e.name.printed()).collect::<Vec<_>>(), keys(&sit.goals))); }
        open = a2;
        if p.t != t + 1 { return Err("time isn't advanced by one".into()); }
        states.push(format!("{} {:?} {:?} {:?}", canon(&now), ak(&open), keys(&list(&p.goalSystem)), exp.iter().map(|e| e.name.printed()).collect::<Vec<_>>()));
    }
    Ok((states, executed))
}

fn c18(ctx: &mut Ctx) {
    let selfset = c(K::SetExt, &[n("SELF")]);
    let call = |name: &str, args: &[R]| inh(c(K::SetExt, &[c(K::Prod, args)]), n(name));
    // execute and inject: every sequence of up to 3 elements
    let elems: Vec<R> = vec![call("^r", &[selfset.clone(), n("x")]), call("^s", &[selfset.clone()]), call("^unknown", &[selfset.clone()]), n("noop"), call("^r", &[selfset.clone(), n("y"), n("z")])];
    let mut seqs: Vec<R> = vec![n("a"), c(K::Prod, &[elems[0].clone(), elems[1].clone()]), c(K::Conj, &[elems[0].clone(), elems[1].clone()])];
    for len in 1..=3u32 { for code in 0..elems.len().pow(len) { seqs.push(seq(&(0..len).map(|i| elems[code / elems.len().pow(i) % elems.len()].clone()).collect::<Vec<_>>())); } }
    // long sequences
    for len in 4..=10usize { for sh in 0..elems.len() { seqs.push(seq(&(0..len).map(|i| elems[(i * (sh + 1) + sh) % elems.len()].clone()).collect::<Vec<_>>())); seqs.push(seq(&(0..len).map(|i| call("^r", &[selfset.clone(), n(&format!("x{}", (i + sh) % len))])).collect::<Vec<_>>())); } }
    let injs = vec![n("b"), prop("x", "y"), op("^r"), seq(&[n("a"), n("b")])];
    for s in &seqs { for inj in &injs { for argc in 1..=4usize {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("execute and inject", || format!("sequence {} event {} with {} arguments", s.printed(), inj.printed(), argc), |ctx| {
            let mut nar = narInit();
            let ops = vec![opinfo("^r", true, 3), opinfo("^s", true, 3)];
            let log = register(&mut nar, &ops);
            nar.ops.push(Rc::new(Box::new(OpLib::Op_nal9__exec_and_inject{})));
            nar.t = 7;
            put(&nar, &n("before"));
            let all = [selfset.clone(), s.clone(), inj.clone(), n("more")];
            let args: Vec<_> = all[..argc].iter().map(|a| a.t()).collect();
            let o = NarProc::ret_op_by_name(&nar, &"^nal9_exeAndInject".to_string()).ok_or("the operation isn't found")?;
            o.call(&mut nar, &None, &args);
            let mut want = vec![];
            let mut ev = vec![Ev{name: n("before"), evi: 7, t: 7}];
            if argc == 3 { if let R::C(K::Seq, v) = s {
                for x in v { if let Some(i) = callable(x, &ops) { want.push((i.name.clone(), op_args(x))); } }
                ev.push(Ev{name: inj.clone(), evi: 7, t: 7});
            } }
            ctx.transitions += want.len() as u64;
            let got = log.lock().unwrap().clone();
            if got != want { return Err(format!("executed {:?}, expected {:?}", got, want)); }
            if trace_of(&nar) != ev { return Err(format!("events are {:?}", trace_of(&nar))); }
            if !nar.anticipatedEvents.is_empty() || !list(&nar.goalSystem).is_empty() || !tables(&nar).is_empty() { return Err("something else changed".into()); }
            if o.isBabbleable() { return Err("the operation would be tried by babbling".into()); }
            Ok(())
        });
    } } }
    // relation of natural language: every shape of a relation
    let and = |a: R, b: R| seq(&[a, n("and"), b]);
    let mut rels: Vec<R> = vec![];
    for s1 in [n("u"), and(n("u"), n("v"))] { for s2 in [n("w"), and(n("k"), n("l")), and(n("k"), n("k")), and(n("u"), n("u")), and(n("and"), n("and")), seq(&[n("k"), n("or"), n("l")]), seq(&[n("k"), n("and")]), seq(&[n("k"), n("and"), n("l"), n("m")]), seq(&[n("and"), n("k"), n("l")]), c(K::Conj, &[n("k"), n("and"), n("l")]), inh(n("a"), n("b")), and(inh(n("a"), n("b")), n("l"))] {
        for cop in COPS { rels.push(st(cop, c(K::Prod, &[s1.clone(), s2.clone()]), n("rel"))); }
        rels.push(inh(s2.clone(), n("rel")));
        rels.push(inh(c(K::Prod, &[s1.clone(), s2.clone(), n("third")]), n("rel")));
        rels.push(inh(c(K::Prod, &[s2.clone()]), n("rel")));
        rels.push(s2.clone());
    } }
    for rel in &rels { for argc in 1..=3usize { for with in [true, false] {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let r2 = rel.clone();
        let sf = selfset.clone();
        ctx.case("relation", || format!("relation {} with {} arguments, memory {}", rel.printed(), argc, with), |_| seq_world_n(1, 1_000_000, move || -> Result<(), String> {
            let mut nar = createNar();
            inputN(&mut nar, &"<q --> z>.".to_string());
            nar.procNar.ops.push(Rc::new(Box::new(OpLib::Op__nlp_rel_0{})));
            let before: Vec<String> = tasks_of(&nar.mem).iter().map(|t| t.b.key()).collect();
            let all = [sf.clone(), r2.clone(), n("more")];
            let args: Vec<_> = all[..argc].iter().map(|a| a.t()).collect();
            let m = if with { Some(Arc::clone(&nar.mem)) } else { None };
            let o = NarProc::ret_op_by_name(&nar.procNar, &"^nlpRel0".to_string()).ok_or("the operation isn't found")?;
            o.call(&mut nar.procNar, &m, &args);
            let after = tasks_of(&nar.mem);
            let new: Vec<&T> = after.iter().filter(|t| !before.contains(&t.b.key())).collect();
            if argc != 2 || !with { return if new.is_empty() { Ok(()) } else { Err(format!("added {:?}", new.iter().map(|t| t.b.key()).collect::<Vec<_>>())) }; }
            let want = match &r2 {
                R::St(Cop::Inh, s, p) => match &**s {
                    R::C(K::Prod, v) if v.len() == 2 => {
                        let right = match &v[1] { R::C(K::Seq, x) if x.len() == 3 && x[1] == n("and") => c(K::ExtInt, &[x[0].clone(), x[2].clone()]), x => x.clone() };
                        inh(c(K::Prod, &[v[0].clone(), right]), (**p).clone())
                    },
                    _ => r2.clone(),
                },
                _ => r2.clone(),
            };
            if !new.iter().any(|t| t.b.term == want && t.b.punct == '.' && near(t.b.f, 1.0) && near(t.b.c, 0.9) && t.b.ids.len() == 1 && t.b.ids != vec![0]) { return Err(format!("{} isn't among the new tasks {:?}", want.printed(), new.iter().map(|t| t.b.key()).collect::<Vec<_>>())); }
            if after.len() != before.len() + new.len() { return Err("tasks were lost".into()); }
            // it is a belief as well
            if !concepts_of(&nar.mem).iter().any(|cn| cn.all().any(|b| b.term == want)) { return Err("the relation isn't a belief".into()); }
            if o.isBabbleable() { return Err("the operation would be tried by babbling".into()); }
            // each call has evidence of its own, also after more inputs
            let mut rels = 0;
            for k in 0..3 {
                let r = inh(c(K::Prod, &[n(&format!("o{}", k)), n("p")]), n("rel2"));
                inputN(&mut nar, &format!("<in{} --> z>.", k));
                o.call(&mut nar.procNar, &m, &vec![n("self").t(), r.t()]);
                let all = tasks_of(&nar.mem);
                let id = |t: &R| all.iter().find(|x| x.b.term == *t).map(|x| x.b.ids.clone());
                let mut ids = vec![];
                for i in 0..=k { ids.extend(id(&inh(c(K::Prod, &[n(&format!("o{}", i)), n("p")]), n("rel2"))).ok_or("a relation is missing")?); ids.extend(id(&inh(n(&format!("in{}", i)), n("z"))).ok_or("a input is missing")?); }
                ids.extend(id(&want).ok_or("the relation is missing")?);
                ids.sort();
                let l = ids.len();
                ids.dedup();
                if ids.len() != l || l != 2 * k + 3 { return Err(format!("evidence isn't fresh, {} different of {}", ids.len(), 2 * k + 3)); }
                rels += 1;
            }
            if rels != 3 { return Err("calls are missing".into()); }
            Ok(())
        })?);
    } } }
    // many relations
    for k in [8usize, 12, 20, 30, 45, 58] { for pat in 0..3usize {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("many relations", || format!("{} relations, pattern {}", k, pat), |_| seq_world_n(1, 5_000_000, move || -> Result<(), String> {
            let mut nar = createNar();
            nar.procNar.ops.push(Rc::new(Box::new(OpLib::Op__nlp_rel_0{})));
            let m = Some(Arc::clone(&nar.mem));
            let o = NarProc::ret_op_by_name(&nar.procNar, &"^nlpRel0".to_string()).ok_or("the operation isn't found")?;
            let mut all = vec![];
            for i in 0..k {
                let r = inh(c(K::Prod, &[n(&format!("o{}", i)), n(&if pat == 0 { format!("p{}", i) } else { "p".to_string() })]), n(if pat == 2 && i % 2 == 0 { "rel0" } else { "rel" }));
                o.call(&mut nar.procNar, &m, &vec![n("self").t(), r.t()]);
                all.push(r);
            }
            let tasks = tasks_of(&nar.mem);
            let cs = concepts_of(&nar.mem);
            for r in &all {
                if !tasks.iter().any(|t| t.b.term == *r) { return Err(format!("{} isn't a task", r.printed())); }
                for h in r.uniq() { if !cs.iter().any(|x| x.name == h && x.all().any(|b| b.term == *r)) { return Err(format!("{} isn't a belief of the concept {}", r.printed(), h.printed())); } }
            }
            Ok(())
        })?);
    } }
    // names which are similar to each other, in every order of registration
    let names = ["^a", "^ab", "^A", "^a1", "^", "a"];
    for perm in 0..720usize { for k in 1..=names.len() {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let mut left: Vec<&str> = names.to_vec();
        let mut p = perm;
        let mut order = vec![];
        for i in (1..=names.len()).rev() { order.push(left.remove(p % i)); p /= i; }
        order.truncate(k);
        ctx.case("lookup", || format!("operations {:?}", order), |ctx| {
            let mut nar = narInit();
            for x in &order { nar.ops.push(Rc::new(Box::new(OpLib::OpNop{name: x.to_string()}))); }
            for x in names.iter().chain(["^abc", "", "b", "^aB"].iter()) {
                ctx.transitions += 1;
                let r = NarProc::ret_op_by_name(&nar, &x.to_string()).map(|o| o.retName());
                let w = if order.contains(x) { Some(x.to_string()) } else { None };
                if r != w { return Err(format!("looking for {} finds {:?}", x, r)); }
                // events with this name are own operations exactly if it is registered
                let b = NarProc::try_build_implSeq(&nar, &[n("c").t(), call(x, &[selfset.clone()]).t(), n("e").t()]);
                if b.is_some() != w.is_some() { return Err(format!("{} is considered as own operation: {}", x, b.is_some())); }
            }
            Ok(())
        });
    } }
    // the nop operation and the codec of calls
    let args_sets: Vec<Vec<R>> = vec![vec![selfset.clone()], vec![selfset.clone(), n("x")], vec![n("a"), n("b"), n("c")], vec![seq(&[n("a"), n("b")]), op("^p")], vec![R::I("v".into())]];
    for a in &args_sets { for name in ["^a", "^nop", "plain", ""] {
        if !ctx.mine() { continue; }
        ctx.case("codec", || format!("{} {:?}", name, a), |_| {
            let ts: Vec<_> = a.iter().map(|x| x.t()).collect();
            let t = nar20_1::TermUtils::encodeOp(&ts, &name.to_string());
            if R::of(&t) != inh(c(K::SetExt, &[R::C(K::Prod, a.clone())]), n(name)) { return Err(format!("encoded as {}", R::of(&t).printed())); }
            match nar20_1::TermUtils::decodeOp(&t) { Some((x, nm)) if nm == name && x.iter().map(|v| R::of(v)).collect::<Vec<_>>() == *a => {}, o => return Err(format!("decoded as {:?}", o.map(|x| x.1))) }
            let mut nar = narInit();
            nar.ops.push(Rc::new(Box::new(OpLib::OpNop{name: name.to_string()})));
            let o = NarProc::ret_op_by_name(&nar, &name.to_string()).ok_or("not found")?;
            o.call(&mut nar, &None, &ts);
            if !trace_of(&nar).is_empty() || !o.isBabbleable() || o.retName() != name || NarProc::ret_op_by_name(&nar, &"^other".to_string()).is_some() { return Err("nop does something".into()); }
            Ok(())
        });
    } }
    for t in [n("a"), inh(n("a"), n("^p")), inh(c(K::SetExt, &[n("a")]), n("^p")), inh(c(K::SetInt, &[c(K::Prod, &[n("a")])]), n("^p")), inh(c(K::SetExt, &[c(K::Prod, &[n("a")]), n("b")]), n("^p")), sim(c(K::SetExt, &[c(K::Prod, &[n("a")])]), n("^p")), inh(c(K::SetExt, &[c(K::Prod, &[n("a")])]), c(K::SetExt, &[n("^p")])), inh(c(K::SetExt, &[seq(&[n("a")])]), n("^p")), inh(c(K::Prod, &[n("a")]), n("^p"))] {
        if !ctx.mine() { continue; }
        ctx.case("codec", || format!("{} isn't a call", t.printed()), |_| match nar20_1::TermUtils::decodeOp(&t.t()) { None => Ok(()), Some(_) => Err("decoded as call".into()) });
    }
    user_ops(ctx);
}

/// registered by the commands of the user and executed by a decision
fn user_ops(ctx: &mut Ctx) {
    let cases: Vec<(Vec<&str>, Vec<R>, &str)> = vec![
        (vec!["!por execinj", "!por NOP ^n", "<(a,<{({SELF}*(<{({SELF}*d)} --> ^n>,<{({SELF}*e)} --> ^n>)*b)} --> ^nal9_exeAndInject>) =/> g>."], vec![n("b")], ""),
        (vec!["!por NOP ^n", "<(a,<{({SELF}*d)} --> ^n>) =/> g>."], vec![], ""),
        (vec!["!por nlpRel0", "<(a,<{({SELF}*<(u*(k,and,l)) --> rel>)} --> ^nlpRel0>) =/> g>."], vec![], "<(u*(k&l)) --> rel>"),
    ];
    for (lines, inj, rel) in cases {
        if !ctx.mine() { continue; }
        let l2: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
        let rel2 = rel.to_string();
        ctx.case("user", || format!("lines {:?}", lines), |_| seq_world_n(1, 20_000_000, move || -> Result<(), String> {
            let mut nar = createNar();
            let mut q = false;
            quiet(&mut nar.procNar);
            for l in &l2 { nar20_1::NarInputFacade::input(&mut nar, l, &mut q); }
            if nar.procNar.ops.len() != l2.iter().filter(|l| l.starts_with("!por")).count() { return Err("the operations aren't registered".into()); }
            nar20_1::NarInputFacade::input(&mut nar, &"g! :|:".to_string(), &mut q);
            for _ in 0..3 { nar20_1::NarInputFacade::input(&mut nar, &"!sp".to_string(), &mut q); }
            nar20_1::NarInputFacade::input(&mut nar, &"a. :|:".to_string(), &mut q);
            nar20_1::NarInputFacade::input(&mut nar, &"!sp".to_string(), &mut q);
            let tr: Vec<R> = trace_of(&nar.procNar).into_iter().map(|e| e.name).collect();
            let want = nar20_1::NarseseParser::parseNarsese(&l2[l2.len() - 1]).map(|x| match R::of(&x.0) { R::St(_, s, _) => match *s { R::C(_, v) => v[1].clone(), x => x }, x => x }).unwrap();
            let mut w = vec![n("a")];
            w.extend(inj.iter().cloned());
            w.push(want);
            if tr != w { return Err(format!("events are {:?}", tr.iter().map(|x| x.printed()).collect::<Vec<_>>())); }
            if !rel2.is_empty() {
                let t = inh(c(K::Prod, &[n("u"), c(K::ExtInt, &[n("k"), n("l")])]), n("rel"));
                if !tasks_of(&nar.mem).iter().any(|x| x.b.term == t) { return Err(format!("{} isn't known", t.printed())); }
            }
            Ok(())
        })?);
    }
}

fn main() {
    main_of(&[
        Check{id: "C15", rule: "every stream of up to 5 events over 8 kinds with several timings and all choices of the sampling: the set of learned knowledge must equal the set of observations; every history of events, knowledge and steps up to a length: the memory after each step must be reachable by at most four observations in the reference; variables for an enumerated universe of statements", assumptions: &["fixed choices of the random generator in long histories"], run: c15},
        Check{id: "C16", rule: "every list of up to 3 anticipations with deadlines around now, every recent past, several windows: open anticipations and all knowledge after the step are compared with the reference; every history of events, goals, knowledge and steps of the whole reasoner", assumptions: &[], run: c16},
        Check{id: "C17", rule: "every set of up to 3 goals of 13, with subsets of knowledge and 11 recent pasts, and all random choices: the decision, the executed operation, its event and its anticipation must be one of the reference and every possible decision must occur; babbling for every set of operations with all draws; every history of the whole reasoner", assumptions: &["any of equally good decisions is accepted"], run: c17},
        Check{id: "C18", rule: "every sequence of up to 3 elements, event and number of arguments through the execute-and-inject operation; every shape of relation through the relation operation; all shapes of calls through the codec; user registered operations executed by decisions", assumptions: &[], run: c18},
    ]);
}
