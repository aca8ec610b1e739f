//! C09, C10: beliefs and the bounds of the memory
use std::sync::Arc;
use parking_lot::RwLock;
use mc::engine::*;
use mc::nar::*;
use mc::rt::*;
use mc::{seq_world, tf};
use nar20_1::NarMem;
use nar20_1::NarSentence::*;
use nar20_1::NarWorkingCycle::{self as wc, Mem2};

fn close(a: (f64, f64), b: (f64, f64)) -> bool { near(a.0, b.0) && near(a.1, b.1) }

/// reference belief
#[derive(Clone, Debug)]
struct Rb { t: R, v: tf::V, ids: Vec<i64> }

fn sorted(v: &[i64]) -> Vec<i64> { let mut x = v.to_vec(); x.sort(); x }

/// the tables of every concept hold exactly the beliefs of the model which contain the name of the concept
fn check_tables(cons: &[Con], model: &[Rb]) -> Result<(), String> {
    let mut names: Vec<R> = model.iter().flat_map(|b| b.t.uniq()).collect();
    names.sort(); names.dedup();
    let got: Vec<R> = cons.iter().map(|c| c.name.clone()).collect();
    if got != names { return Err(format!("concepts are {:?}, expected {:?}", got.iter().map(|x| x.printed()).collect::<Vec<_>>(), names.iter().map(|x| x.printed()).collect::<Vec<_>>())); }
    for c in cons {
        let want: Vec<&Rb> = model.iter().filter(|b| b.t.uniq().contains(&c.name)).collect();
        for (tn, tab) in [("expectation", &c.by_exp), ("usage", &c.by_usage)] {
            let d = || format!("concept {}, beliefs by {}: {}", c.name.printed(), tn, tab.iter().map(|b| b.key()).collect::<Vec<_>>().join(" ; "));
            if tab.len() != want.len() { return Err(format!("{}\n  expected {} beliefs", d(), want.len())); }
            for w in &want {
                if !tab.iter().any(|b| b.term == w.t && b.punct == '.' && close((b.f, b.c), w.v) && b.set() == sorted(&w.ids)) { return Err(format!("{}\n  missing {} {:?} {:?}", d(), w.t.printed(), w.v, w.ids)); }
            }
        }
    }
    Ok(())
}
fn check_index(m: &Arc<RwLock<Mem2>>) -> Result<(), String> {
    let ts = tasks_of(m);
    let ix = index_of(m);
    for t in &ts { for s in t.b.term.uniq() {
        let k = ix.iter().find(|x| x.0 == s).map(|x| x.1.iter().filter(|i| **i == t.id).count()).unwrap_or(0);
        if k == 0 { return Err(format!("task {} can't be found by its part {}", t.b.key(), s.printed())); }
    } }
    for (s, ids) in &ix { for i in ids { if let Some(t) = ts.iter().find(|t| t.id == *i) { if !t.b.term.uniq().contains(s) { return Err(format!("task {} is listed for {} which it doesn't contain", t.b.key(), s.printed())); } } } }
    let mut ids: Vec<i64> = ts.iter().map(|t| t.id).collect();
    ids.sort();
    let l = ids.len();
    ids.dedup();
    if ids.len() != l { return Err("two tasks have the same id".into()); }
    Ok(())
}


fn c09(ctx: &mut Ctx) {
    let terms = [inh(n("a"), n("b")), inh(n("b"), n("a")), inh(n("a"), n("a")), imp(inh(n("a"), n("b")), neg(n("c"))), inh(c(K::Prod, &[n("a"), n("b")]), n("r")), sim(n("a"), n("b"))];
    let bases: &[(&[i64], f64, f64)] = &[(&[1], 1.0, 0.9), (&[2], 0.0, 0.5), (&[3], 0.4, 0.8), (&[1, 2], 0.7, 0.6), (&[3, 1], 1.0, 0.1), (&[4], 0.2, 0.0)];
    // (statement, evidence) which may be added, length of the sequences
    let mut alphabets: Vec<(Vec<(usize, usize)>, usize)> = vec![];
    alphabets.push(((0..bases.len()).map(|b| (0, b)).collect(), if ctx.thorough { 6 } else { 5 }));
    alphabets.push((vec![(0, 0), (0, 1), (0, 3), (1, 1), (1, 2), (3, 0), (3, 1), (3, 4)], if ctx.thorough { 6 } else { 4 }));
    alphabets.push(((0..terms.len()).flat_map(|t| (0..4).map(move |b| (t, b))).collect(), if ctx.thorough { 4 } else { 3 }));
    for (al, len) in &alphabets {
        let k = al.len();
        for code in 0..k.pow(*len as u32) {
            if ctx.stop() { return; }
            if !ctx.mine() { continue; }
            let seq: Vec<(usize, usize)> = (0..*len).map(|i| al[code / k.pow(i as u32) % k]).collect();
            let d = || seq.iter().map(|(t, b)| format!("{}. {{{} {}}} {:?}", terms[*t].nal(), bases[*b].1, bases[*b].2, bases[*b].0)).collect::<Vec<_>>().join(" , ");
            ctx.case("store", || format!("added {}", d()), |ctx| {
                let m = wc::createMem2(64, 20);
                let sh = Arc::clone(&m.read().shared);
                let mut model: Vec<Rb> = vec![];
                let mut tasks: Vec<(R, Vec<i64>, tf::V)> = vec![];
                for (t, b) in &seq {
                    let (ids, f, cc) = bases[*b];
                    let t = &terms[*t];
                    wc::memAddTask(Arc::clone(&sh), &judge(t, f, cc, ids), true, 64, 20, 1.0, 0);
                    ctx.transitions += 1;
                    let mut add = |t: &R, ids: &[i64], v: tf::V| { if !tasks.iter().any(|x| x.0 == *t && x.1 == sorted(ids)) { tasks.push((t.clone(), sorted(ids), v)); } };
                    add(t, ids, (f, cc));
                    match model.iter_mut().find(|x| x.t == *t) {
                        None => model.push(Rb{t: t.clone(), v: (f, cc), ids: ids.to_vec()}),
                        Some(x) => if !x.ids.iter().any(|i| ids.contains(i)) {
                            x.v = tf::rev(x.v, (f, cc));
                            x.ids.extend(ids);
                            add(t, &x.ids, x.v);
                        }
                    }
                    let cons = concepts_of(&m);
                    check_tables(&cons, &model)?;
                    let ts = tasks_of(&m);
                    for (t, ids, v) in &tasks { if !ts.iter().any(|x| x.b.term == *t && x.b.set() == *ids && close((x.b.f, x.b.c), *v)) { return Err(format!("there is no task for {} {:?} {:?}", t.printed(), v, ids)); } }
                    for x in &ts { if !tasks.iter().any(|(t, ids, _)| x.b.term == *t && x.b.set() == *ids) { return Err(format!("unexpected task {}", x.b.key())); } }
                    // a sentence with the same evidence is not worked on twice
for (i, x) in ts.iter().enumerate() { if ts[..i].iter().any(|y| x.b.term == y.b.term && x.b.ids == y.b.ids) { return Err(format!("task {} exists twice", x.b.key())); } }
                    check_index(&m)?;
                    let dg = digest(&m);
                    ctx.state(&dg);
                }
                // retrieval
                let shg = sh.read();
                let mg = shg.mem.read();
                for x in &terms { for s in x.uniq() {
                    let want: Vec<&Rb> = model.iter().filter(|b| b.t.uniq().contains(&s)).collect();
                    let term = s.t();
                    let got: Vec<B> = match NarMem::ret_beliefs_of_concept(&mg, &term) { None => vec![], Some(it) => it.map(|b| B::of(&b.read())).collect() };
                    for w in &want { if !got.iter().any(|b| b.term == w.t && close((b.f, b.c), w.v)) { return Err(format!("belief {} isn't found by {}", w.t.printed(), s.printed())); } }
                    for b in &got { if !want.iter().any(|w| b.term == w.t) { return Err(format!("belief {} is found by {}", b.key(), s.printed())); } }
                    let got2: Vec<B> = NarMem::ret_beliefs_by_terms_nonunique(&mg, &[term]).iter().map(|b| B::of(&b.read())).collect();
                    let want2: Vec<&Rb> = model.iter().filter(|b| s.uniq().iter().any(|y| b.t.uniq().contains(y))).collect();
                    for w in &want2 { if !got2.iter().any(|b| b.term == w.t) { return Err(format!("belief {} isn't found by the parts of {}", w.t.printed(), s.printed())); } }
                    for b in &got2 { if !want2.iter().any(|w| b.term == w.t) { return Err(format!("belief {} is found by the parts of {}", b.key(), s.printed())); } }
                } }
                Ok(())
            });
        }
    }
    // many pieces of evidence for one or two statements, then every piece is told again
    let lens: Vec<usize> = if ctx.thorough { (2..=110).collect() } else { vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 32, 33] };
    for len in lens { for kind in 0..4usize {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("again", || format!("{} pieces of evidence of kind {}, then all told again", len, kind), |ctx| {
            let m = wc::createMem2(64, 20);
            let sh = Arc::clone(&m.read().shared);
            let mut model: Vec<Rb> = vec![];
            let piece = |i: usize| -> (R, Vec<i64>, tf::V) {
                let t = if kind % 2 == 1 { terms[(i % 2) * 3].clone() } else { terms[0].clone() };
                let ids = if kind >= 2 && i % 3 == 0 { vec![2 * i as i64, 2 * i as i64 + 1] } else { vec![2 * i as i64] };
                (t, ids, ([1.0, 0.0, 0.4][i % 3], [0.5, 0.6, 0.1, 0.9][i % 4]))
            };
            for i in 0..len {
                let (t, ids, v) = piece(i);
                wc::memAddTask(Arc::clone(&sh), &judge(&t, v.0, v.1, &ids), true, 64, 20, 1.0, 0);
                ctx.transitions += 1;
                match model.iter_mut().find(|x| x.t == t) {
                    None => model.push(Rb{t, v, ids}),
                    Some(x) => { x.v = tf::rev(x.v, v); x.ids.extend(&ids); }
                }
                check_tables(&concepts_of(&m), &model)?;
            }
            let nt = tasks_of(&m).len();
            for rep in 0..2 { for i in 0..len {
                // the piece itself, or together with something new
                let (t, mut ids, v) = piece(i);
                if rep == 1 { ids.insert(0, 100000 + i as i64); }
                wc::memAddTask(Arc::clone(&sh), &judge(&t, v.0, v.1, &ids), true, 64, 20, 1.0, 0);
                ctx.transitions += 1;
                check_tables(&concepts_of(&m), &model).map_err(|e| format!("evidence {:?} told again: {}", ids, e))?;
                if rep == 0 && tasks_of(&m).len() != nt { return Err(format!("evidence {:?} told again is a new task", ids)); }
            } }
            Ok(())
        });
    } }
    // wide and deep statements, a second statement shares its last part; both told several times
    for w in 1..=(if ctx.thorough { 40usize } else { 24 }) { for kind in 0..9usize { for order in 0..3usize {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let e: Vec<R> = (0..w).map(|i| n(&format!("e{}", i))).collect();
        let t = match kind {
            0 => inh(R::C(K::Prod, e.clone()), n("r")), 1 => inh(n("r"), R::C(K::SetInt, e.clone())), 2 => imp(R::C(K::Conj, e.iter().map(|x| inh(x.clone(), n("r"))).collect()), n("r")),
            3 => inh(n("r"), R::Img(Box::new(n("s")), 0, e.clone())), 4 => R::C(K::Par, e.clone()), 5 => pred(R::C(K::Seq, e.clone()), n("r")),
            6 => { let mut x = n("e0"); for i in 1..w { x = inh(x, e[i].clone()); } inh(n("r"), x) },
            7 => { let mut x = n("e0"); for i in 1..w { x = inh(e[i].clone(), x); } imp(x, n("r")) },
            _ => sim(R::C(K::SetExt, e.clone()), R::C(K::IntInt, e.iter().rev().cloned().collect())),
        };
        if t.complexity() > 190 { continue; }
        let t2 = inh(e[w - 1].clone(), n("q"));
        ctx.case("sized", || format!("{} told three times (order {})", t.printed(), order), |ctx| {
            let m = wc::createMem2(200, 20);
            let sh = Arc::clone(&m.read().shared);
            let mut model: Vec<Rb> = vec![];
            let ops: Vec<(&R, i64, tf::V)> = match order { 0 => vec![(&t, 1, (1.0, 0.9)), (&t, 2, (0.0, 0.5)), (&t2, 3, (0.5, 0.5)), (&t, 1, (1.0, 0.9)), (&t, 4, (0.3, 0.4))], 1 => vec![(&t2, 3, (0.5, 0.5)), (&t, 1, (1.0, 0.9)), (&t2, 5, (0.1, 0.7)), (&t, 2, (0.0, 0.5)), (&t, 4, (0.3, 0.4))], _ => vec![(&t, 4, (0.3, 0.4)), (&t2, 3, (0.5, 0.5)), (&t2, 3, (0.5, 0.5)), (&t, 4, (0.3, 0.4)), (&t, 7, (1.0, 0.2))] };
            for (t, id, v) in ops {
                wc::memAddTask(Arc::clone(&sh), &judge(t, v.0, v.1, &[id]), true, 200, 20, 1.0, 0);
                ctx.transitions += 1;
                match model.iter_mut().find(|x| x.t == *t) {
                    None => model.push(Rb{t: t.clone(), v, ids: vec![id]}),
                    Some(x) => if !x.ids.contains(&id) { x.v = tf::rev(x.v, v); x.ids.push(id); }
                }
                check_tables(&concepts_of(&m), &model)?;
                check_index(&m)?;
            }
            ctx.state(&digest(&m));
            Ok(())
        });
    } } }
    // inputs of a user: the belief is the sum of all evidence, independent of the order
    let tvs: &[(f64, f64)] = &[(1.0, 0.9), (0.0, 0.9), (0.5, 0.5), (1.0, 0.0), (0.25, 0.99)];
    let len = if ctx.thorough { 6 } else { 5 };
    for code in 0..tvs.len().pow(len as u32) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let seq: Vec<(f64, f64)> = (0..len).map(|i| tvs[code / tvs.len().pow(i as u32) % tvs.len()]).collect();
        ctx.case("user", || format!("<a --> b>. was told with {:?}", seq), |ctx| {
            let seq2 = seq.clone();
            seq_world(1, move || -> Result<(), String> {
                let mut nar = nar20_1::Nar::createNar();
                let (mut w, mut wf) = (0.0, 0.0);
                for (i, (f, c)) in seq2.iter().enumerate() {
                    if !nar20_1::Nar::inputN(&mut nar, &format!("<a --> b>. {{{} {}}}", f, c)) { return Err("rejected".into()); }
                    w += tf::c2w(*c); wf += tf::c2w(*c) * f;
                    let v = if i == 0 { (*f, *c) } else { (if w > 0.0 { wf / w } else { 0.0 }, tf::w2c(w)) };
                    for c in concepts_of(&nar.mem) { for b in c.all() {
                        if b.term != inh(n("a"), n("b")) || !close((b.f, b.c), v) || b.ids.len() != i + 1 { return Err(format!("belief is {} after {} inputs, expected {:?}", b.key(), i + 1, v)); }
                    } if c.by_exp.len() != 1 || c.by_usage.len() != 1 { return Err(format!("{} has not exactly one belief", c.name.printed())); } }
                    if concepts_of(&nar.mem).len() != 3 { return Err("concepts".into()); }
                }
                Ok(())
            })??;
            ctx.transitions += len as u64;
            Ok(())
        });
    }
}

type Tab = Vec<B>;
fn has(t: &Tab, b: &B) -> bool { t.iter().any(|x| x.key() == b.key()) }
/// relation of a belief table before and after a sentence was added
fn store_rel(before: &Tab, after: &Tab, s: &B, cap: usize, revised: bool, rank: &dyn Fn(&B) -> f64) -> Result<(), String> {
    if after.len() > cap { return Err(format!("{} beliefs, allowed are {}", after.len(), cap)); }
    if let Some(o) = before.iter().find(|x| x.term == s.term && !x.overlaps(&s.ids)) {
        // revision in place
        let v = tf::rev((o.f, o.c), (s.f, s.c));
        let mut ids = o.ids.clone();
        ids.extend(&s.ids);
        if !after.iter().any(|x| x.term == s.term && close((x.f, x.c), v) && x.set() == sorted(&ids)) { return Err("belief wasn't revised".into()); }
        if after.len() != before.len() { return Err("revision changed the number of beliefs".into()); }
        for b in before { if b.key() != o.key() && !has(after, b) { return Err(format!("revision lost {}", b.key())); } }
        return Ok(());
    }
    let unchanged = before.len() == after.len() && before.iter().all(|b| has(after, b));
    if before.iter().any(|x| x.term == s.term) || revised {
        return if unchanged { Ok(()) } else { Err("table was changed by known evidence".into()) };
    }
    let mut all = before.clone();
    all.push(s.clone());
    if after.len() != all.len().min(cap) { return Err(format!("{} of {} beliefs are kept", after.len(), all.len())); }
    for b in after { if !has(&all, b) { return Err(format!("unknown belief {}", b.key())); } }
    let min = after.iter().map(|b| rank(b)).fold(f64::MAX, f64::min);
    for b in &all { if !has(after, b) && rank(b) > min + 1e-9 { return Err(format!("{} was forgotten but a worse belief was kept", b.key())); } }
    Ok(())
}

fn c10(ctx: &mut Ctx) {
    belief_bound(ctx);
    concept_bound(ctx);
    concept_bound2(ctx);
    wide_bound(ctx);
    complexity_bound(ctx);
    task_bound(ctx);
    whole(ctx);
}

fn belief_bound(ctx: &mut Ctx) {
    let k = n("k");
    let mut sents: Vec<Sentence> = vec![];
    // statements about k with different, equal and extreme expectations
    let tvs = [(1.0, 0.9), (0.0, 0.9), (0.6, 0.8), (1.0, 0.5), (0.5, 0.0), (1.0, 0.9)];
    for (i, (f, c)) in tvs.iter().enumerate() { sents.push(judge(&inh(k.clone(), n(&format!("p{}", i))), *f, *c, &[i as i64])); }
    sents.push(judge(&inh(k.clone(), n("p1")), 1.0, 0.9, &[10])); // revises
    sents.push(judge(&inh(k.clone(), n("p0")), 1.0, 0.2, &[0, 11])); // overlaps
    // ops: store i, or use of the i-th belief
    let nops = sents.len() + 2;
    let len = if ctx.thorough { 6 } else { 5 };
    for cap in 1..=3usize { for code in 0..nops.pow(len as u32) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let seq: Vec<usize> = (0..len).map(|i| code / nops.pow(i as u32) % nops).collect();
        ctx.case("beliefs", || format!("at most {} beliefs, operations {:?}", cap, seq), |ctx| {
            let m = wc::createMem2(64, cap);
            let sh = Arc::clone(&m.read().shared);
            // own usage records per execution
            let ss: Vec<Sentence> = sents.iter().map(|s| { let mut x = shallowCopySentence(s); x.usage = Arc::new(RwLock::new(Usage{lastUsed: 0, useCount: 0})); x }).collect();
            let mut before = concepts_of(&m);
            for (t, op) in seq.iter().enumerate() {
                ctx.transitions += 1;
                let now = t as i64 + 1;
                if *op >= ss.len() {
                    usageUpdate(&mut ss[*op - ss.len()].usage.write(), now);
                    continue;
                }
                let s = B::of(&ss[*op]);
                let use_rank = |b: &B| { match ss.iter().find(|x| B::of(x).key() == b.key()) { Some(x) => { let u = x.usage.read(); let q = u.useCount as f64 / ((now - u.lastUsed).max(0) as f64 + 1.0); q / (q + 1.0) }, None => 0.0 } };
                wc::memAddTask(Arc::clone(&sh), &ss[*op], true, 64, cap, 1.0, now);
                let after = concepts_of(&m);
                let rev = before.iter().any(|c| c.all().any(|b| b.term == s.term && !b.overlaps(&s.ids)));
                for c in &after {
                    let empty = vec![];
                    let (be, bu) = match before.iter().find(|x| x.name == c.name) { Some(x) => (&x.by_exp, &x.by_usage), None => (&empty, &empty) };
                    if !s.term.uniq().contains(&c.name) {
                        if be.len() != c.by_exp.len() || bu.len() != c.by_usage.len() { return Err(format!("unrelated concept {} was changed", c.name.printed())); }
                        continue;
                    }
                    store_rel(be, &c.by_exp, &s, cap, rev, &|b| b.exp()).map_err(|e| format!("concept {} by expectation: {}\n  before {:?}\n  after {:?}", c.name.printed(), e, be.iter().map(|x| x.key()).collect::<Vec<_>>(), c.by_exp.iter().map(|x| x.key()).collect::<Vec<_>>()))?;
                    store_rel(bu, &c.by_usage, &s, cap, rev, &use_rank).map_err(|e| format!("concept {} by usage: {}\n  before {:?}\n  after {:?}", c.name.printed(), e, bu.iter().map(|x| x.key()).collect::<Vec<_>>(), c.by_usage.iter().map(|x| x.key()).collect::<Vec<_>>()))?;
                }
                for c in &before { if !after.iter().any(|x| x.name == c.name) { return Err(format!("concept {} was lost", c.name.printed())); } }
                before = after;
            }
            let dg = digest(&m);
            ctx.state(&format!("{} {}", cap, dg));
            Ok(())
        });
    } }
}

fn concept_bound(ctx: &mut Ctx) {
    // every assignment of truth values to statements with separate concepts, every bound
    let tvs = [(1.0, 0.9), (0.0, 0.9), (0.7, 0.5), (1.0, 0.0)];
    let k = if ctx.thorough { 5 } else { 4 };
    for code in 0..tvs.len().pow(k as u32) { for max in 0..=(2 * k + 1) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let v: Vec<(f64, f64)> = (0..k).map(|i| tvs[code / tvs.len().pow(i as u32) % tvs.len()]).collect();
        ctx.case("concepts", || format!("statements about k with {:?}, at most {} concepts", v, max), |ctx| {
            let mut mem = NarMem::make();
            for (i, (f, c)) in v.iter().enumerate() { NarMem::storeInConcepts(&mut mem, &judge(&inh(n("k"), n(&format!("p{}", i))), *f, *c, &[i as i64]), 20, 0); }
            let before = concepts(&mem);
            ctx.transitions += 1;
            NarMem::limitMemory(&mut mem, max);
            let after = concepts(&mem);
            if after.len() != before.len().min(max) { return Err(format!("{} concepts are kept of {}", after.len(), before.len())); }
            let rank = |c: &Con| c.by_exp.iter().map(|b| b.exp()).fold(0.0, f64::max);
            let min = after.iter().map(|c| rank(c)).fold(f64::MAX, f64::min);
            for c in &before {
                match after.iter().find(|x| x.name == c.name) {
                    Some(x) => { if format!("{:?}", x.by_exp) != format!("{:?}", c.by_exp) || format!("{:?}", x.by_usage) != format!("{:?}", c.by_usage) { return Err(format!("beliefs of {} have changed", c.name.printed())); } },
                    None => if rank(c) > min + 1e-9 { return Err(format!("{} was forgotten but a worse concept was kept", c.name.printed())); }
                }
            }
            for c in &after { if !before.iter().any(|x| x.name == c.name) { return Err("new concept".into()); } }
            // concepts are still usable: knowledge can be added and found
            NarMem::storeInConcepts(&mut mem, &judge(&inh(n("z"), n("p0")), 1.0, 0.9, &[99]), 20, 0);
            for s in [n("z"), n("p0"), inh(n("z"), n("p0"))] {
                let t = s.t();
                let ok = NarMem::ret_beliefs_of_concept(&mem, &t).map(|mut it| it.any(|b| R::of(&b.read().term) == inh(n("z"), n("p0")))).unwrap_or(false);
                if !ok { return Err(format!("nothing can be stored in {} afterwards", s.printed())); }
            }
            Ok(())
        });
    } }
}

/// big tables and many concepts: every bound of a list, several orders of expectation
fn wide_bound(ctx: &mut Ctx) {
    let order = |o: usize, i: usize, cnt: usize| -> usize { match o { 0 => i, 1 => cnt - 1 - i, 2 => (i * 7 + 3) % cnt, _ => if i % 2 == 0 { i / 2 } else { cnt - 1 - i / 2 } } };
    for cap in [4usize, 8, 12, 15, 16, 17, 20, 32, 50, 64, 100, 128] { for o in 0..4usize {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let cnt = cap + 11;
        ctx.case("beliefs", || format!("{} statements about k in order {}, at most {} beliefs", cnt, o, cap), |ctx| {
            let mut mem = NarMem::make();
            let mut best: Vec<f64> = vec![];
            for i in 0..cnt {
                ctx.transitions += 1;
                let f = (order(o, i, cnt) as f64 + 1.0) / (cnt as f64 + 2.0);
                let s = judge(&inh(n("k"), n(&format!("p{}", i))), f, 0.9, &[i as i64]);
                NarMem::storeInConcepts(&mut mem, &s, cap, i as i64);
                best.push(B::of(&s).exp());
                best.sort_by(|a, b| b.partial_cmp(a).unwrap());
                best.truncate(cap);
                let cs = concepts(&mem);
                let k = cs.iter().find(|c| c.name == n("k")).ok_or("the concept is missing")?;
                if k.by_usage.len() != (i + 1).min(cap) { return Err(format!("{} beliefs by usage after {} statements", k.by_usage.len(), i + 1)); }
                let mut got: Vec<f64> = k.by_exp.iter().map(|b| b.exp()).collect();
                got.sort_by(|a, b| b.partial_cmp(a).unwrap());
                if got.len() != best.len() || got.iter().zip(best.iter()).any(|(a, b)| !near(*a, *b)) { return Err(format!("after {} statements the expectations of the beliefs are {:?}, the best are {:?}", i + 1, got, best)); }
            }
            Ok(())
        });
    } }
    for cnt in [20usize, 60, 150] { for o in 0..4usize { for max in [9usize, 10, 19, 20, 21, 40, 41, 59, 60, 61, 99, 100, 119, 120, 149, 150, 200, 299, 300, 301] {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("concepts", || format!("{} statements without common terms in order {}, at most {} concepts", cnt, o, max), |ctx| {
            ctx.transitions += 1;
            let mut mem = NarMem::make();
            for i in 0..cnt { NarMem::storeInConcepts(&mut mem, &judge(&inh(n(&format!("s{}", i)), n(&format!("p{}", i))), (order(o, i, cnt) as f64 + 1.0) / (cnt as f64 + 2.0), 0.9, &[i as i64]), 20, 0); }
            let before = concepts(&mem);
            NarMem::limitMemory(&mut mem, max);
            let after = concepts(&mem);
            if after.len() != before.len().min(max) { return Err(format!("{} concepts are kept of {}", after.len(), before.len())); }
            let rank = |c: &Con| c.by_exp.iter().map(|b| b.exp()).fold(0.0, f64::max);
            let mut r0: Vec<f64> = before.iter().map(|c| rank(c)).collect();
            let mut r1: Vec<f64> = after.iter().map(|c| rank(c)).collect();
            r0.sort_by(|a, b| b.partial_cmp(a).unwrap());
            r1.sort_by(|a, b| b.partial_cmp(a).unwrap());
            if r1.iter().zip(r0.iter()).any(|(a, b)| !near(*a, *b)) { return Err("a better concept was forgotten".into()); }
            Ok(())
        });
    } } }
}

/// every sequence of additions with revisions, then every bound of concepts
fn concept_bound2(ctx: &mut Ctx) {
    let terms = [inh(n("a"), n("b")), inh(n("a"), n("c")), inh(n("d"), n("e"))];
    let tvs = [(1.0, 0.4), (1.0, 0.75), (1.0, 0.95), (0.0, 0.9)];
    let k = terms.len() * tvs.len();
    let len = if ctx.thorough { 5 } else { 4 };
    for code in 0..k.pow(len as u32) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let seq: Vec<usize> = (0..len).map(|i| code / k.pow(i as u32) % k).collect();
        let d = || seq.iter().map(|x| format!("{}. {:?}", terms[x / tvs.len()].nal(), tvs[x % tvs.len()])).collect::<Vec<_>>().join(" , ");
        ctx.case("concepts", || format!("added {}, then concepts are limited", d()), |ctx| {
            let build = || { let m = wc::createMem2(64, 20); for (i, x) in seq.iter().enumerate() { let (f, c) = tvs[x % tvs.len()]; wc::memAddTask(Arc::clone(&m.read().shared), &judge(&terms[x / tvs.len()], f, c, &[i as i64]), true, 64, 20, 1.0, 0); } m };
            let total = concepts_of(&build()).len();
            for max in 1..total {
                ctx.transitions += 1;
                let m = build();
                let before = concepts_of(&m);
                NarMem::limitMemory(&mut m.read().shared.read().mem.write(), max);
                let after = concepts_of(&m);
                if after.len() != max { return Err(format!("{} concepts are kept of {}, allowed {}", after.len(), before.len(), max)); }
                let rank = |c: &Con| c.by_exp.iter().map(|b| b.exp()).fold(0.0, f64::max);
                let min = after.iter().map(|c| rank(c)).fold(f64::MAX, f64::min);
                for c in &before { if !after.iter().any(|x| x.name == c.name) && rank(c) > min + 1e-9 { return Err(format!("at most {}: {} was forgotten but a worse concept was kept", max, c.name.printed())); } }
            }
            Ok(())
        });
    }
}

fn complexity_bound(ctx: &mut Ctx) {
    // chains of negations and statements of every complexity around every limit
    for max in [1i64, 2, 3, 5, 8, 64] { for kind in 0..4 { for d in 0..70i64 {
        if ctx.stop() { return; }
        let mut t = n("a");
        for i in 0..d { t = match kind { 0 => neg(t), 1 => inh(t, n("b")), 2 => c(K::Prod, &[t, n("c")]), _ => if i % 2 == 0 { inh(n("x"), t) } else { c(K::SetExt, &[neg(t)]) } }; }
        let cx = t.complexity();
        if cx < max - 3 || cx > max + 3 { continue; }
        if !ctx.mine() { continue; }
        ctx.case("complexity", || format!("complexity {} with limit {}: {}", cx, max, t.printed()), |_| {
            let m = wc::createMem2(max, 20);
            let sh = Arc::clone(&m.read().shared);
            wc::memAddTask(Arc::clone(&sh), &judge(&t, 1.0, 0.9, &[1]), true, max, 20, 1.0, 0);
            let keep = cx <= max;
            if tasks_of(&m).len() != keep as usize { return Err(format!("{} tasks", tasks_of(&m).len())); }
            if concepts_of(&m).is_empty() == keep { return Err(format!("{} concepts", concepts_of(&m).len())); }
            wc::memAddTask(Arc::clone(&sh), &sent(&t, P::QUESTION, 1.0, 0.9, &[2]), true, max, 20, 1.0, 0);
            if sh.read().questionTasks.read().len() != keep as usize { return Err("question".into()); }
            Ok(())
        });
    } } }
}

fn task_bound(ctx: &mut Ctx) {
    // number of tasks around the limit, with different credits
    let counts: Vec<usize> = if ctx.thorough { (0..=70).collect() } else { vec![0, 1, 2, 28, 29, 30, 31, 32, 33, 40, 60] };
    for k in counts { for pat in 0..6usize { for cycle in [110i64, 111, 221, 222] {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("tasks", || format!("{} tasks, credits of pattern {}, cycle {}", k, pat, cycle), |ctx| {
            let r = seq_world(1, move || -> Result<(), String> {
                let m = wc::createMem2(64, 20);
                let sh = Arc::clone(&m.read().shared);
                for i in 0..k { wc::memAddTask(Arc::clone(&sh), &judge(&inh(n(&format!("s{}", i)), n(&format!("p{}", i))), 1.0, 0.9, &[i as i64]), true, 64, 20, 1.0, 0); }
                for (i, t) in sh.read().judgementTasks.iter().enumerate() {
                    let mut t = t.write();
                    // the older ones have more credit: what counts is the credit after its decay
                    if pat >= 4 {
                        let age = (50 * i) as f64;
                        t.derivTime = cycle - 50 * i as i64;
                        t.mulCredit = ((if pat == 4 {0.0013} else {0.0007}) * (age - (50 * k) as f64)).exp();
                        continue;
                    }
                    t.mulCredit = match pat { 0 => 1.0, 1 => (i + 1) as f64 / k as f64, 2 => if i % 2 == 0 { 1e-6 } else { 0.5 + i as f64 / 100.0 }, _ => (k - i) as f64 / k as f64 };
                }
                sh.read().cycleCounter.store(cycle - 1, std::sync::atomic::Ordering::SeqCst);
                let before = tasks_of(&m);
                let time = parking_lot::vp::atomic::AtomicI64::new(0);
                wc::reasonCycle(Arc::clone(&m), &time);
                vpmc::quiesce();
                let after = tasks_of(&m);
                if cycle % 111 != 0 {
                    if after.len() != before.len().saturating_sub(1) { return Err(format!("{} of {} tasks are left", after.len(), before.len())); }
                    return check_index(&m);
                }
                if after.len() > 30 { return Err(format!("{} tasks are left", after.len())); }
                let now = |t: &T| (t.credit + 0.2 * t.qa) * (-0.001 * (cycle - t.deriv) as f64).exp() * t.mul;
                for t in &after { if now(t) <= 0.001 { return Err(format!("task {} with credit {} is kept", t.b.key(), now(t))); } }
                let min = after.iter().map(|t| now(t)).fold(f64::MAX, f64::min);
                // the one which was worked on is the best one
                let gone: Vec<&T> = before.iter().filter(|t| !after.iter().any(|x| x.id == t.id)).collect();
                let credit = |t: &T| { let cx = t.b.term.complexity() as f64; ((t.credit + 0.5) / cx + 0.2 * t.qa / cx) * (-0.001 * (cycle - t.deriv) as f64).exp() * t.mul };
                let best = before.iter().map(|t| credit(t)).fold(0.0, f64::max);
                if !before.is_empty() && !gone.iter().any(|t| near(credit(t), best)) { return Err("the best task wasn't worked on".into()); }
                let mut worked = false;
                for t in &gone {
                    if near(credit(t), best) && !worked { worked = true; continue; }
                    if credit(t) > min + 1e-9 && credit(t) > 0.001 { return Err(format!("task {} was dropped but a worse one was kept", t.b.key())); }
                    if after.len() < 30 && credit(t) > 0.0011 { return Err(format!("task {} was dropped although there is space", t.b.key())); }
                }
                // the index refers to the kept tasks only
                for (s, ids) in index_of(&m) { for i in ids { if !after.iter().any(|t| t.id == i) { return Err(format!("dropped task is still listed for {}", s.printed())); } } }
                check_index(&m)
            })?;
            ctx.transitions += 1;
            r
        });
    } } }
}

/// a whole reasoner under load stays within its bounds
fn whole(ctx: &mut Ctx) {
    let loads: Vec<(usize, usize, i64)> = if ctx.thorough { vec![(1100, 0, 172), (1000, 0, 172), (20, 3, 30), (40, 0, 221), (12, 1, 120), (12, 2, 112), (1300, 0, 345)] } else { vec![(1100, 0, 172), (990, 0, 172), (40, 0, 111), (10, 1, 112)] };
    for (k, kind, cyc) in loads {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("load", || format!("{} statements of kind {}, {} cycles", k, kind, cyc), |ctx| {
            let st = mc::seq_world_n(1, 400_000_000, move || -> Result<Vec<String>, String> {
                let mut nar = nar20_1::Nar::createNar();
                let mut out = vec![];
                for i in 0..k {
                    let t = match kind { 0 => inh(n(&format!("s{}", i)), n(&format!("p{}", i))), 1 => inh(n("k"), n(&format!("p{}", i))), 2 => inh(n(&format!("s{}", i % 4)), n(&format!("s{}", (i / 4) % 4))), _ => inh(c(K::Prod, &[n(&format!("s{}", i)), n(&format!("p{}", i))]), n("r")) };
                    nar20_1::Nar::inputT(&mut nar, &t.t(), P::JUGEMENT, &tv(1.0, if i % 2 == 0 { 0.9 } else { 0.5 }));
                }
                // skip ahead to the cycles at which the bounds are enforced
                if kind == 0 { nar.mem.read().shared.read().cycleCounter.store(cyc - 2, std::sync::atomic::Ordering::SeqCst); }
                let from = nar.mem.read().shared.read().cycleCounter.load(std::sync::atomic::Ordering::SeqCst);
                for cy in (from + 1)..=(cyc + 2) {
                    let before = if cy % 173 == 0 { concepts_of(&nar.mem) } else { vec![] };
                    nar20_1::Nar::cycle(&mut nar);
                    // bounds hold when the reasoner enforced them, before workers add more
                    if cy % 173 == 0 {
                        let after = concepts_of(&nar.mem);
                        if after.len() > 3000 { return Err(format!("{} concepts after cycle {}", after.len(), cy)); }
                        if before.len() >= 3000 && after.len() != 3000 { return Err(format!("only {} concepts are left", after.len())); }
                        let rank = |c: &Con| c.by_exp.iter().map(|b| b.exp()).fold(0.0, f64::max);
                        let min = after.iter().map(|c| rank(c)).fold(f64::MAX, f64::min);
                        let names: std::collections::HashSet<R> = after.iter().map(|c| c.name.clone()).collect();
                        for c in &before { if !names.contains(&c.name) && rank(c) > min + 1e-9 { return Err(format!("{} was forgotten but a worse concept was kept", c.name.printed())); } }
                    }
                    if cy % 111 == 0 { let t = tasks_of(&nar.mem); if t.len() > 30 + 300 { return Err(format!("{} tasks after cycle {}", t.len(), cy)); } }
                    vpmc::quiesce();
                    for c in concepts_of(&nar.mem) { if c.by_exp.len() > 20 || c.by_usage.len() > 20 { return Err(format!("{} has {} beliefs", c.name.printed(), c.by_exp.len().max(c.by_usage.len()))); } }
                    for t in tasks_of(&nar.mem) { if t.b.term.complexity() > 64 { return Err(format!("task {} is too complex", t.b.key())); } }
                    if kind != 0 { out.push(digest(&nar.mem)); }
                }
                Ok(out)
            })??;
            ctx.transitions += st.len() as u64;
            for s in st { ctx.state(&s); }
            Ok(())
        });
    }
}

fn main() {
    main_of(&[
        Check{id: "C09", rule: "every sequence of additions of (statement, evidence, truth) over three alphabets up to a length, every sequence of truth values a user tells about one statement, long histories (up to 33, thorough 110 pieces of evidence) whose pieces are all told again; after every step the complete memory and task list are compared with the reference (one belief per statement with the sum of the evidence)", assumptions: &["within the capacity of the tables (20 beliefs); overflow is C10"], run: c09},
        Check{id: "C10", rule: "every sequence of additions and uses over an alphabet up to a length for table sizes 1..3 (transition relation of both tables), every assignment of truths and every concept limit, every complexity around every limit, task counts around the limit, loaded reasoners up to the cycles at which bounds are enforced", assumptions: &["bounds on tasks and concepts are enforced periodically (cycles 111, 173)"], run: c10},
    ]);
}
