//! C22, C23: all schedules of the reasoner and its workers
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use parking_lot::RwLock;
use mc::engine::*;
use mc::explore::*;
use mc::goal::*;
use mc::nar::*;
use mc::procref::*;
use mc::rt::*;
use mc::{refrules, tf};
use nar20_1::Nar::{createNar, inputN, Nar};
use nar20_1::NarInputFacade;
use nar20_1::NarProc::{narStep0, narStep1};
use nar20_1::NarSentence::Sentence;
use nar20_1::NarWorkingCycle::{createMem2, debugCreditsOfTasks, memAddTask, reasonCycle, Mem2, QHandler};
use nar20_1::Term::Term;
use vpmc::{quiesce, ChooserCfg, WorldCfg};

struct Log(Arc<Mutex<Vec<(R, B)>>>);
impl QHandler for Log { fn answer(&mut self, q: &Term, a: &Sentence) { self.0.lock().unwrap().push((R::of(q), B::of(a))); } }

fn cfg(bound: u32, atomics: bool, cap: u64, local: bool) -> ExploreCfg {
    ExploreCfg{world: WorldCfg{chooser: ChooserCfg{sched_branch: true, sched_bound: bound, ..ChooserCfg::default()}, max_steps: 400_000, atomics, ..WorldCfg::default()}, cap, local}
}
fn facade(nar: &mut Nar, l: &str) -> Vec<String> { let mut q = false; NarInputFacade::input(nar, &l.to_string(), &mut q) }

/// runs the lines; at the end the reasoner is dropped: all threads have to end
fn run_lines(ls: &[&'static str]) -> Result<String, String> {
    let mut nar = createNar();
    nar.procNar.cfgEnBabbling = false;
    for l in ls { facade(&mut nar, l); }
    drop(nar);
    Ok(String::new())
}

fn sequences<T: Clone>(al: &[T], len: usize) -> Vec<Vec<T>> {
    let mut r: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..len { r = r.into_iter().flat_map(|p| al.iter().map(move |x| { let mut q = p.clone(); q.push(x.clone()); q })).collect(); }
    r
}

fn c22(ctx: &mut Ctx) {
    let al = ["<a --> b>.", "<b --> c>.", "<a --> ?x>?", "!s", "!dt", "!dtf", "!dmd", "!sp", "a. :|:", "<{({SELF}*x)} --> ^p>. :|:", "g! :|:"];
    // every program up to a length, with one preemption
    let max = if ctx.thorough { 4 } else { 3 };
    for len in 1..=max { for p in sequences(&al, len) {
        if ctx.stop() { return; }
        if !p.contains(&"!s") && !p.contains(&"!sp") { continue; } // no work for the other threads
        if len >= 3 && p[0].starts_with("!s") { continue; }
        if len == 3 && !ctx.thorough && (p[1] == p[2] || p[0] == "!dt" || p[0] == "!dtf" || p[0] == "!dmd") { continue; }
        if len == 4 && p.iter().filter(|l| l.starts_with("!s")).count() < 2 { continue; }
        if !ctx.mine() { continue; }
        explore(ctx, "schedules", &format!("program {:?}", p), &cfg(1, false, 100_000, true), || { let p = p.clone(); Box::new(move || run_lines(&p)) });
    } }
    // longer programs with more preemptions
    for (p, bound) in programs(ctx.thorough) {
        explore(ctx, "schedules", &format!("program {:?} with {} preemptions", p, bound), &cfg(bound, false, 3_000_000, false), || { let p = p.clone(); Box::new(move || run_lines(&p)) });
    }
    // the same where the worker threads go first and are delayed
    for (p, bound) in programs(ctx.thorough) {
        explore(ctx, "schedules", &format!("program {:?} with {} delays of workers", p, bound), &first(cfg(bound, false, 3_000_000, false)), || { let p = p.clone(); Box::new(move || run_lines(&p)) });
    }
    wide(ctx);
    forms(ctx);
    // listeners which ask the reasoner themselves, threads which look at the memory at the same time
    let b = if ctx.thorough { 2 } else { 1 };
    explore(ctx, "observers", "observer thread while reasoning", &cfg(b, false, 3_000_000, false), || Box::new(|| {
        let mut nar = createNar();
        let m = Arc::clone(&nar.mem.read().shared);
        facade(&mut nar, "<a --> b>.");
        facade(&mut nar, "<b --> c>.");
        let h = vpmc::thread::spawn(move || { for _ in 0..2 { let sh = m.read(); for t in &sh.judgementTasks { B::of(&t.read().sentence); } concepts(&sh.mem.read()); } });
        for l in ["!s", "<a --> ?x>?", "!s2"] { facade(&mut nar, l); }
        h.join().map_err(|_| "observer crashed".to_string())?;
        Ok(String::new())
    }));
    // the limits of the memory are enforced while the workers are busy
    explore(ctx, "limits", "cycles at which memory is limited", &cfg(1, false, 3_000_000, false), || Box::new(|| {
        let mut nar = createNar();
        nar.mem.read().shared.read().cycleCounter.store(109, std::sync::atomic::Ordering::SeqCst);
        for l in ["<a --> b>.", "<b --> c>.", "<a --> ?x>?", "!s2"] { facade(&mut nar, l); }
        nar.mem.read().shared.read().cycleCounter.store(171, std::sync::atomic::Ordering::SeqCst);
        facade(&mut nar, "!s2");
        Ok(String::new())
    }));
}

fn first(mut c: ExploreCfg) -> ExploreCfg { c.world.workers_first = true; c }

/// programs with more work than fits into the channels to the workers
fn wide(ctx: &mut Ctx) {
    let op = "<{({SELF}*x)} --> ^p>. :|:";
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let mut ps: Vec<(String, Vec<String>)> = vec![];
    for n in [4usize, 9, 14, 20] {
        // n events before a operation, all of them are conditions
        let mut p = s(&["!por NOP ^p"]);
        for i in 0..n { p.push(format!("<e{} --> [y]>. :|:", i)); }
        p.extend(s(&[op, "g. :|:", "!sp", op, "h. :|:", "!sp", "!sp"]));
        ps.push((format!("{} events before a operation", n), p));
        // n statements with a common part
        let mut p: Vec<String> = (0..n).map(|i| format!("<a{} --> b>.", i)).collect();
        p.extend(s(&["<b --> c>.", "!s3", "<b --> ?x>?", "!dt", "!s3"]));
        ps.push((format!("{} statements with a common part", n), p));
        // n questions
        let mut p: Vec<String> = (0..n).map(|i| format!("<a{} --> ?x>?", i)).collect();
        p.extend((0..n).map(|i| format!("<a{} --> b>.", i)));
        p.extend(s(&["!s6"]));
        ps.push((format!("{} questions", n), p));
    }
    for (name, p) in ps { for wf in [false, true] { for bound in 0..=1 {
        if bound == 1 && !name.starts_with("4 events") && !(ctx.thorough && (name.starts_with("4 ") || name.starts_with("9 events"))) { continue; }
        let c = cfg(bound, false, 1_000_000, false);
        let c = if wf { first(c) } else { c };
        if bound == 0 && (ctx.stop() || !ctx.mine()) { continue; }
        let mut c = if bound == 0 { ExploreCfg{local: true, ..c} } else { c };
        if bound == 0 && !(name.starts_with("4 ") || name.starts_with("9 events")) { c.world.chooser.sched_branch = false; }
        explore(ctx, "much work", &format!("program with {}, {} preemptions, workers first: {}", name, bound, wf), &c, || { let p = p.clone(); Box::new(move || { let l: Vec<&str> = p.iter().map(|x| x.as_str()).collect(); run_any(&l) }) });
    } } }
}
fn run_any(ls: &[&str]) -> Result<String, String> {
    let mut nar = createNar();
    nar.procNar.cfgEnBabbling = false;
    for l in ls { facade(&mut nar, l); }
    drop(nar);
    Ok(String::new())
}

/// every form of knowledge with every form of goal and event: nothing of it crashes or hangs
fn forms(ctx: &mut Ctx) {
    let (o, ox, oy) = ("<{({SELF}*x)} --> ^p>", "<{({SELF}*$x)} --> ^p>", "<{({SELF}*y)} --> ^p>");
    let ts: Vec<String> = vec!["a".into(), "g".into(), "<x --> [y]>".into(), "<x --> g>".into(), "(a,b)".into(), "(a,b,c)".into(), format!("(a,{})", o), format!("(a,b,{})", o), format!("(a,{},{})", o, oy), format!("(<x --> [y]>,{})", o), format!("(<$x --> [y]>,{})", ox), "(a && b)".into(), "(a | b)".into(), "(!a)".into(), "<a =/> b>".into(), "<a ==> b>".into(), "$x".into(), "<$x --> g>".into(), "<(a*b) --> g>".into(), "{a b}".into(), "[a b]".into(), "<a <-> b>".into(), "<{a} <-> {b}>".into(), o.into(), "(g /0 _ a)".into(), "<^p --> g>".into(), "^p".into()];
    let mut ks: Vec<String> = ts.clone();
    for a in &ts { for b in &ts { for c in ["=/>", "==>"] { ks.push(format!("<{} {} {}>", a, c, b)); } } }
    let evs = [0usize, 2, 4, 6, 14, 23];
    let goals: Vec<usize> = (0..ts.len()).collect();
    for (ki, k) in ks.iter().enumerate() {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let name = format!("knowledge {}", k);
        if let Some(o) = &ctx.only { if !name.contains(o.as_str()) { continue; } }
        let full = ki < ts.len() || ctx.thorough;
        for (gi, g) in goals.iter().enumerate() {
            for wf in [false, true] {
                if !full && ((ki + gi) % 2 == 0) != wf { continue; } // the rest is explored by the thorough check
                let mut p: Vec<String> = vec!["!por NOP ^p".into(), format!("{}.", k)];
                for e in evs { p.push(format!("{}. :|:", ts[e])); p.push("!sp".into()); }
                p.push(format!("{}! :|:", ts[*g]));
                for e in evs { p.push(format!("{}. :|:", ts[e])); p.push("!sp".into()); }
                p.extend(["!pse", "!pse3"].iter().map(|s| s.to_string()));
                p.push(format!("{}?", k)); p.push(format!("{}?", ts[*g]));
                p.push("<?x =/> ?y>?".into());
                for l in ["!s3", "!sp", "!dt", "!dmd"] { p.push(l.into()); }
                let mut c = cfg(0, false, 1000, true);
                c.world.chooser.sched_branch = full;
                explore(ctx, "forms", &format!("{}, goal {}, workers first: {}", name, ts[*g], wf), &(if wf { first(c) } else { c }), || { let p = p.clone(); Box::new(move || { let l: Vec<&str> = p.iter().map(|x| x.as_str()).collect(); run_any(&l) }) });
            }
        }
    }
}

fn programs(thorough: bool) -> Vec<(Vec<&'static str>, u32)> {
    let mut r = vec![
        (vec!["<a --> b>.", "<b --> c>.", "!s2", "<a --> b>. {0.0 0.5}", "<a --> ?x>?", "!s2", "!dt"], 1),
        (vec!["<a --> ?x>?", "<a --> b>.", "!s", "<b --> c>.", "!s2", "!dmd"], 1),
        (vec!["<(a*b) --> r>.", "!s2", "!dt", "!dtf", "<c --> d>.", "!s"], 1),
        (vec!["<a --> b>.", "!s5", "!s5"], 1),
        (vec!["!por NOP ^p", "a. :|:", "!sp", "<{({SELF}*x)} --> ^p>. :|:", "!sp", "g. :|:", "!sp", "g! :|:", "!sp", "!sp"], 1),
        (vec!["!por NOP ^p", "<(a,<{({SELF}*x)} --> ^p>) =/> g>.", "a. :|:", "g! :|:", "!sp", "!sp", "<(a,<{({SELF}*x)} --> ^p>) =/> ?x>?", "!s", "b. :|:", "!sp"], 1),
        (vec!["<a --> b>.", "!s", "!dt"], 2),
    ];
    if thorough {
        r.push((vec!["<a --> b>.", "<b --> c>.", "!s2"], 2));
        r.push((vec!["<a --> b>.", "<a --> ?x>?", "!s2", "!dt"], 2));
        r.push((vec!["<a --> b>.", "!s", "<a --> b>.", "!s"], 2));
        r.push((vec!["!por NOP ^p", "a. :|:", "!sp", "<{({SELF}*x)} --> ^p>. :|:", "!sp", "g. :|:", "!sp", "!sp"], 2));
        r.push((vec!["<a --> b>.", "!s", "!dtf"], 3));
    }
    r
}

/// what was told to the reasoner: statement, truth, evidence
type Told = Vec<(R, (f64, f64), i64)>;

/// the evidence in the memory is the evidence which was given
fn check_evidence(told: &Told, cons: &[Con], tasks: &[T], clos: &HashMap<Vec<i64>, Vec<(R, tf::V)>>) -> Result<(), String> {
    let weight = |ids: &[i64]| -> f64 { ids.iter().map(|i| told.iter().find(|t| t.2 == *i).map(|t| tf::c2w(t.1 .1)).unwrap_or(0.0)).sum() };
    let sound = |b: &B| -> Result<(), String> {
        let s = b.set();
        let mut d = s.clone(); d.dedup();
        if d.len() != s.len() || d.is_empty() { return Err(format!("{} counts evidence twice", b.key())); }
        if let Some(i) = d.iter().find(|i| !told.iter().any(|t| t.2 == **i)) { return Err(format!("{} is based on evidence {} which was never given", b.key(), i)); }
        if tf::c2w(b.c) > weight(&d) * 1.000001 { return Err(format!("{} has more weight than its evidence", b.key())); }
        let own: Vec<&(R, (f64, f64), i64)> = told.iter().filter(|t| d.contains(&t.2)).collect();
        if own.iter().all(|t| t.0 == b.term) {
            let w: f64 = own.iter().map(|t| tf::c2w(t.1 .1)).sum();
            let wp: f64 = own.iter().map(|t| tf::c2w(t.1 .1) * t.1 .0).sum();
            if !near(b.f, wp / w) || !near(b.c, w / (w + 1.0)) { return Err(format!("{} is not the sum of its evidence {{{} {}}}", b.key(), wp / w, w / (w + 1.0))); }
        } else if let Some(c) = clos.get(&d) { if !c.iter().any(|x| x.0 == b.term && near(x.1 .0, b.f) && near(x.1 .1, b.c)) { return Err(format!("{} doesn't follow from its evidence", b.key())); } }
        Ok(())
    };
    for t in tasks { sound(&t.b)?; }
    for c in cons { for tab in [&c.by_exp, &c.by_usage] {
        for (i, b) in tab.iter().enumerate() {
            sound(b)?;
            if !b.term.uniq().contains(&c.name) { return Err(format!("{} is stored in {}", b.key(), c.name.printed())); }
            if let Some(o) = tab[..i].iter().find(|o| o.term == b.term && o.overlaps(&b.ids)) { return Err(format!("{} holds the same evidence in {} and {}", c.name.printed(), o.key(), b.key())); }
        }
    } }
    for (t, v, id) in told { for s in t.uniq() {
        let c = match cons.iter().find(|c| c.name == s) { Some(c) => c, None => return Err(format!("there is no concept {} although {} was told", s.printed(), t.printed())) };
        for (tn, tab) in [("expectation", &c.by_exp), ("usage", &c.by_usage)] {
            if tab.len() < 20 && !tab.iter().any(|b| b.term == *t && b.ids.contains(id)) { return Err(format!("evidence {} {:?} of {} is lost in {} (by {}): {}", id, v, t.printed(), s.printed(), tn, tab.iter().map(|b| b.key()).collect::<Vec<_>>().join(" ; "))); }
        }
    } }
    Ok(())
}

/// everything which follows from the told statements with every subset of at most three of them
fn closure(_: &Told) -> HashMap<Vec<i64>, Vec<(R, tf::V)>> { HashMap::new() }

/// conclusions which are drawn from two different told statements, each worked on at least once
fn must(told: &Told) -> Vec<(R, Vec<i64>)> {
    let mut r = vec![];
    for a in told { for b in told { if a.2 != b.2 {
        for x in refrules::two(&refrules::Pr{t: a.0.clone(), p: '.', v: a.1}, &refrules::Pr{t: b.0.clone(), p: '.', v: b.1}) { let mut ids = vec![a.2, b.2]; ids.sort(); r.push((x.0, ids)); }
    } } }
    r
}

#[derive(Clone, Debug)]
enum O { Tell(R, f64, f64), Ask(R), Cycle, Dt, Sync, At(i64) }
fn text(o: &O) -> String { match o { O::Tell(t, f, c) => format!("{}. {{{} {}}}", t.nal(), f, c), O::Ask(t) => format!("{}?", t.nal()), O::Cycle => "cycle".into(), O::Dt => "list".into(), O::Sync => "wait".into(), O::At(c) => format!("cycle number is {}", c) } }

fn run_told(ops: &[O], complete: bool) -> Result<String, String> {
    let mut nar = createNar();
    let log = Arc::new(Mutex::new(vec![]));
    nar.mem.read().globalQaHandlers.write().push(Arc::new(RwLock::new(Log(Arc::clone(&log)))));
    let mut told: Told = vec![];
    let mut asked: Vec<R> = vec![];
    for o in ops { match o {
        O::Tell(t, f, c) => {
            let id = nar.mem.read().shared.read().stampIdCounter.load(std::sync::atomic::Ordering::SeqCst);
            if !inputN(&mut nar, &text(o)) { return Err(format!("{} was rejected", text(o))); }
            told.push((t.clone(), (*f, *c), id));
        },
        O::Ask(t) => { inputN(&mut nar, &text(o)); asked.push(t.clone()); },
        O::Cycle => reasonCycle(Arc::clone(&nar.mem), &nar.currentTime),
        O::Dt => { debugCreditsOfTasks(&nar.mem.read()); },
        O::Sync => quiesce(),
        O::At(c) => nar.mem.read().shared.read().cycleCounter.store(*c, std::sync::atomic::Ordering::SeqCst),
    } }
    quiesce();
    let (cons, tasks) = (concepts_of(&nar.mem), tasks_of(&nar.mem));
    let d = || digest(&nar.mem);
    check_evidence(&told, &cons, &tasks, &closure(&told)).map_err(|e| format!("{}\n{}", e, d()))?;
    // every task is found by its parts
    let ix = index_of(&nar.mem);
    for t in &tasks { for s in t.b.term.uniq() { if !ix.iter().any(|(n, ids)| *n == s && ids.contains(&t.id)) { return Err(format!("task {} can't be found by its part {}\n{}", t.b.key(), s.printed(), d())); } } }
    { let mut ids: Vec<i64> = tasks.iter().map(|t| t.id).collect(); ids.sort(); let n = ids.len(); ids.dedup(); if ids.len() != n { return Err("two tasks have the same identity".into()); } }
    for (i, x) in tasks.iter().enumerate() { if let Some(_) = tasks[..i].iter().find(|y| x.b.term == y.b.term && x.b.ids == y.b.ids) { return Err(format!("task {} exists twice\n{}", x.b.key(), d())); } }
    // answers: only known things, better and better
    let mut best: BTreeMap<R, f64> = BTreeMap::new();
    for (q, a) in log.lock().unwrap().iter() {
        if !asked.contains(q) || refrules::unify(q, &a.term).is_none() { return Err(format!("{} is no answer to {}", a.key(), q.printed())); }
        let b = best.entry(q.clone()).or_insert(0.0);
        if asked.iter().filter(|x| *x == q).count() == 1 && a.exp() <= *b { return Err(format!("answer {} to {} is not better than {}", a.key(), q.printed(), b)); }
        *b = a.exp().max(*b);
    }
    if complete {
        // each told statement was worked on: their conclusions are known
        for (t, ids) in must(&told) {
            let ok = cons.iter().filter(|c| t.uniq().contains(&c.name)).all(|c| c.by_exp.iter().any(|b| b.term == t) && c.by_usage.iter().any(|b| b.term == t)) && cons.iter().any(|c| c.name == t);
            if !ok { return Err(format!("conclusion {} of {:?} is not known\n{}", t.printed(), ids, d())); }
        }
    }
    Ok(d())
}

fn c23(ctx: &mut Ctx) {
    let ab = inh(n("a"), n("b"));
    let bc = inh(n("b"), n("c"));
    let ac = inh(n("a"), n("c"));
    let al = vec![O::Tell(ab.clone(), 1.0, 0.9), O::Tell(bc.clone(), 0.8, 0.8), O::Tell(ac.clone(), 0.2, 0.6), O::Tell(ab.clone(), 0.0, 0.5), O::Ask(inh(n("a"), R::Q("x".into()))), O::Cycle];
    let max = if ctx.thorough { 5 } else { 4 };
    for len in 2..=max { for p in sequences(&al, len) {
        if ctx.stop() { return; }
        if len == 4 && !ctx.thorough && p.iter().filter(|o| matches!(o, O::Cycle)).count() == 3 { continue; }
        if !matches!(p[0], O::Tell(..)) || !p.iter().any(|o| matches!(o, O::Cycle)) { continue; }
        if len >= 4 && p.iter().filter(|o| matches!(o, O::Cycle)).count() < 2 { continue; }
        if len >= 5 && matches!(p[1], O::Ask(_)) { continue; }
        if !ctx.mine() { continue; }
        let name = format!("history {}", p.iter().map(text).collect::<Vec<_>>().join(" , "));
        explore(ctx, "evidence", &name, &cfg(1, false, 100_000, true), || { let p = p.clone(); Box::new(move || run_told(&p, false)) });
        if len == 3 || ctx.thorough { explore(ctx, "evidence", &format!("{}, workers first", name), &first(cfg(1, false, 100_000, true)), || { let p = p.clone(); Box::new(move || run_told(&p, false)) }); }
    } }
    // everything which was told is worked on
    let t = |r: &R, f: f64, c: f64| O::Tell(r.clone(), f, c);
    let mut list: Vec<(Vec<O>, u32)> = vec![
        (vec![t(&ab, 1.0, 0.9), t(&bc, 1.0, 0.9), O::Cycle, O::Cycle], 1),
        (vec![t(&ab, 1.0, 0.9), O::Cycle, t(&bc, 1.0, 0.9), O::Cycle], 1),
        (vec![t(&ab, 1.0, 0.9), O::Cycle, t(&bc, 1.0, 0.9), O::Cycle, t(&ac, 0.3, 0.5), O::Cycle], 1),
        (vec![O::Ask(inh(n("a"), n("c"))), t(&ab, 1.0, 0.9), t(&bc, 1.0, 0.9), O::Cycle, O::Cycle], 1),
        (vec![t(&ab, 1.0, 0.9), O::Cycle, t(&ab, 0.4, 0.9), O::Cycle, t(&ab, 0.9, 0.3), O::Dt, O::Cycle], 1),
    ];
    if ctx.thorough {
        list.push((vec![t(&ab, 1.0, 0.9), t(&bc, 1.0, 0.9), O::Cycle, O::Cycle], 2));
        list.push((vec![t(&ab, 1.0, 0.9), O::Cycle, t(&ac, 1.0, 0.9), O::Cycle], 2));
    }
    for wf in [false, true] { for (p, bound) in list.clone() {
        let name = format!("history {} with {} preemptions, workers first: {}", p.iter().map(text).collect::<Vec<_>>().join(" , "), bound, wf);
        let c = cfg(bound, false, 3_000_000, false);
        explore(ctx, "evidence", &name, &(if wf { first(c) } else { c }), || { let p = p.clone(); let revises = p.iter().any(|o| matches!(o, O::Tell(t, ..) if *t == ac)); Box::new(move || run_told(&p, !revises)) });
    } }
    // the tasks and concepts are limited while the workers derive
    for at in if ctx.thorough { vec![109i64, 110, 171, 172] } else { vec![110, 172] } { for wf in [false, true] { for (p, bound) in list.clone() {
        if bound > 1 { continue; }
        let mut q = vec![O::At(at)];
        q.extend(p);
        let name = format!("history {} with {} preemptions, workers first: {}", q.iter().map(text).collect::<Vec<_>>().join(" , "), bound, wf);
        let c = cfg(bound, false, 3_000_000, false);
        explore(ctx, "evidence", &name, &(if wf { first(c) } else { c }), || { let p = q.clone(); Box::new(move || run_told(&p, false)) });
    } } }
    // more evidence than fits into the channels to the workers
    for k in [2usize, 6, 12] { for cyc in [1usize, 3, 6] { for wf in [false, true] {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let mut p: Vec<O> = vec![];
        for i in 0..k { p.push(t(&ab, (i % 4) as f64 / 3.0, 0.3 + 0.05 * i as f64)); if i % 3 == 1 { p.push(t(&bc, 0.5, 0.2 + 0.05 * i as f64)); } if i == 2 { p.push(O::Ask(inh(n("a"), R::Q("x".into())))); } for _ in 0..(if i % 2 == 0 { cyc } else { 0 }) { p.push(O::Cycle); } }
        for _ in 0..cyc { p.push(O::Cycle); }
        let mut c = cfg(if k == 2 && cyc == 1 { 1 } else { 0 }, false, 100_000, true);
        c.world.max_steps = 20_000_000;
        c.world.chooser.sched_branch = k == 2 && cyc == 1;
        let name = format!("{} times told, {} cycles in between, workers first: {}", k, cyc, wf);
        explore(ctx, "evidence", &name, &(if wf { first(c) } else { c }), || { let p = p.clone(); Box::new(move || run_told(&p, false)) });
    } } }
    adders(ctx);
    procedural(ctx);
}

/// several threads add evidence for the same statements at the same time
fn adders(ctx: &mut Ctx) {
    let ab = inh(n("a"), n("b"));
    let bc = inh(n("b"), n("c"));
    let sets: Vec<(&str, Vec<Vec<(R, (f64, f64), i64)>>)> = vec![
        ("same statement", vec![vec![(ab.clone(), (1.0, 0.9), 1)], vec![(ab.clone(), (0.0, 0.5), 2)]]),
        ("same statement twice", vec![vec![(ab.clone(), (1.0, 0.9), 1), (ab.clone(), (0.5, 0.6), 3)], vec![(ab.clone(), (0.0, 0.5), 2)]]),
        ("different statements", vec![vec![(ab.clone(), (1.0, 0.9), 1)], vec![(bc.clone(), (0.0, 0.5), 2)]]),
        ("mixed", vec![vec![(ab.clone(), (1.0, 0.9), 1), (bc.clone(), (0.5, 0.6), 3)], vec![(ab.clone(), (0.0, 0.5), 2)]]),
        ("same evidence", vec![vec![(ab.clone(), (1.0, 0.9), 1)], vec![(ab.clone(), (1.0, 0.9), 1)]]),
    ];
    for prior in [false, true] { for (name, s) in &sets {
        let bound = if ctx.thorough { 3 } else { 2 };
        let nm = format!("threads add at the same time: {} (known before: {}) with {} preemptions", name, prior, bound);
        explore(ctx, "adders", &nm, &cfg(bound, true, 3_000_000, false), || { let s = s.clone(); let ab = ab.clone(); Box::new(move || {
            let m: Arc<RwLock<Mem2>> = createMem2(64, 20);
            let sh = Arc::clone(&m.read().shared);
            let mut told: Told = vec![];
            if prior { memAddTask(Arc::clone(&sh), &judge(&ab, 0.7, 0.7, &[9]), true, 64, 20, 1.0, 0); told.push((ab.clone(), (0.7, 0.7), 9)); }
            let hs: Vec<_> = s.iter().map(|v| { let (v, sh) = (v.clone(), Arc::clone(&sh)); vpmc::thread::spawn(move || { for (t, x, id) in v { memAddTask(Arc::clone(&sh), &judge(&t, x.0, x.1, &[id]), true, 64, 20, 1.0, 0); } }) }).collect();
            for h in hs { h.join().map_err(|_| "thread crashed".to_string())?; }
            for v in &s { for x in v { if !told.iter().any(|t| t.2 == x.2) { told.push(x.clone()); } } }
            let (cons, tasks) = (concepts_of(&m), tasks_of(&m));
            check_evidence(&told, &cons, &tasks, &HashMap::new()).map_err(|e| format!("{}\n{}", e, digest(&m)))?;
            for (t, v, id) in &told { if !tasks.iter().any(|x| x.b.term == *t && x.b.ids == vec![*id] && near(x.b.f, v.0)) { return Err(format!("there is no task for evidence {} of {}\n{}", id, t.printed(), digest(&m))); } }
            let mut ids: Vec<i64> = tasks.iter().map(|t| t.id).collect(); ids.sort(); let k = ids.len(); ids.dedup();
            if ids.len() != k { return Err("two tasks have the same identity".into()); }
            Ok(digest(&m))
        }) });
    } }
}

/// learning: what is learned doesn't depend on the schedule of the storage worker
fn procedural(ctx: &mut Ctx) {
    let evs = [n("a"), op("^p"), n("g"), inh(n("x"), c(K::SetInt, &[n("y")]))];
    let streams: Vec<Vec<usize>> = if ctx.thorough { sequences(&[0usize, 1, 2, 3], 5) } else { sequences(&[0usize, 1, 2], 4) };
    for st in streams {
        if ctx.stop() { return; }
        if !st.contains(&1) || !ctx.mine() { continue; }
        let run = |sync: bool| { let evs = evs.clone(); let st = st.clone(); move || -> Result<String, String> {
            let mut nar = createNar();
            nar.procNar.cfgEnBabbling = false;
            register(&mut nar.procNar, &[opinfo("^p", true, 3)]);
            for e in &st {
                nar20_1::Nar::inputT2(&mut nar, &evs[*e].t(), P::JUGEMENT, &tv(1.0, 0.9), true);
                narStep0(&mut nar.procNar);
                let m = Some(Arc::clone(&nar.mem));
                narStep1(&mut nar.procNar, &m);
                if sync { quiesce(); }
            }
            quiesce();
            let tab = tab_of(&nar.procNar.evidenceMem.read());
            for (h, v) in &tab { for t in v { for (i, b) in t.iter().enumerate() {
                let mut ids = b.ids.clone(); ids.sort(); let k = ids.len(); ids.dedup();
                if ids.len() != k { return Err(format!("{} counts evidence twice", b.key())); }
                if t[..i].iter().any(|o| o.term == b.term && o.overlaps(&b.ids)) { return Err(format!("{} holds the same evidence twice: {}", h.printed(), b.key())); }
            } } }
            Ok(canon(&tab))
        } };
        let want = match mc::seq_world_n(1, 2_000_000, run(true)) { Ok(Ok(w)) => w, Ok(Err(e)) | Err(e) => { ctx.violate("learning", format!("events {:?}: {}", st, e)); continue; } };
        explore(ctx, "learning", &format!("events {:?}", st.iter().map(|i| evs[*i].printed()).collect::<Vec<_>>()), &cfg(1, false, 300_000, true), || { let r = run(false); let want = want.clone(); Box::new(move || { let g = r()?; if g != want { return Err(format!("learned\n{}\nexpected\n{}", g, want)); } Ok(g) }) });
    }
}

fn main() {
    main_of(&[
        Check{id: "C22", rule: "every program of up to 3 (4) of 11 lines with every schedule with at most one preemption, longer programs with up to 2 (3) preemptions or delays of workers, programs with up to 20 events or statements, 1485 forms of knowledge with 27 forms of goals, observers and enforcement of limits while the workers are busy: every execution of the real threads under the controlled scheduler ends without deadlock, panic or endless loop and all threads end with the reasoner", assumptions: &["scheduling points are lock, channel, thread and atomic operations", "preemption bound"], run: c22},
        Check{id: "C23", rule: "every history of up to 4 (5) of 6 operations with every schedule with at most one preemption, threads which add evidence at the same time with up to 2 (3) preemptions, every stream of events with every schedule of the storage worker: the evidence in the memory is exactly the given one", assumptions: &["preemption bound", "capacity of the tables isn't reached"], run: c23},
    ]);
}
