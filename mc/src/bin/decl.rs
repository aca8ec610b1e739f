//! C11, C12: question answering and the working cycle
use std::sync::{Arc, Mutex};
use parking_lot::RwLock;
use mc::engine::*;
use mc::explore::*;
use mc::nar::*;
use mc::refrules::{self, Pr};
use mc::rt::*;
use mc::{seq_world_n, tf};
use nar20_1::Nar::{createNar, cycle, inputN, Nar};
use nar20_1::NarSentence::Sentence;
use nar20_1::NarWorkingCycle::{self as wc, QHandler, Task2};
use nar20_1::Term::Term;
use vpmc::{ChooserCfg, WorldCfg};

fn close(a: (f64, f64), b: (f64, f64)) -> bool { near(a.0, b.0) && near(a.1, b.1) }

#[derive(Clone)]
struct Log(Arc<Mutex<Vec<(R, B)>>>);
impl Log { fn new() -> Log { Log(Arc::new(Mutex::new(vec![]))) } fn get(&self) -> Vec<(R, B)> { self.0.lock().unwrap().clone() } }
impl QHandler for Log {
    fn answer(&mut self, q: &Term, a: &Sentence) { self.0.lock().unwrap().push((R::of(q), B::of(a))); }
}
fn qv(s: &str) -> R { R::Q(s.into()) }

fn questions() -> Vec<R> {
    vec![inh(n("a"), n("b")), inh(qv("x"), n("b")), inh(n("a"), qv("x")), inh(qv("x"), qv("y")), inh(qv("x"), qv("x")), qv("x"),
        imp(inh(n("a"), n("b")), qv("x")), inh(c(K::Prod, &[n("a"), qv("x")]), n("r")), sim(qv("x"), n("b")), inh(R::D("x".into()), n("b")), inh(c(K::SetExt, &[qv("x")]), n("b")), neg(inh(n("a"), qv("x"))),
        inh(n("a"), img(n("r"), 0, qv("x"))), c(K::Conj, &[inh(n("a"), qv("x")), inh(n("b"), qv("x"))])]
}
fn answers() -> Vec<R> {
    vec![inh(n("a"), n("b")), inh(n("b"), n("a")), inh(n("b"), n("b")), imp(inh(n("a"), n("b")), n("c")), inh(c(K::Prod, &[n("a"), n("b")]), n("r")), inh(c(K::Prod, &[n("a"), n("b")]), n("q")),
        sim(n("a"), n("b")), inh(c(K::SetExt, &[n("a")]), n("b")), neg(inh(n("a"), n("b"))), inh(n("a"), img(n("r"), 0, n("b"))), inh(n("a"), img(n("r"), 1, n("b"))), c(K::Conj, &[inh(n("a"), n("c")), inh(n("b"), n("c"))]), c(K::Conj, &[inh(n("a"), n("c")), inh(n("b"), n("d"))]), inh(R::I("i".into()), n("b"))]
}

fn c11(ctx: &mut Ctx) {
    // one question, every sequence of candidates
    let tvs = [(1.0, 0.9), (0.0, 0.9), (0.6, 0.8), (0.5, 0.0)];
    let qs = questions();
    let ans = answers();
    for q in &qs { for h in [true, false] {
        let mut cands: Vec<(R, P, (f64, f64))> = vec![];
        for (i, a) in ans.iter().enumerate() {
            if refrules::unify(q, a).is_some() { for v in tvs { cands.push((a.clone(), P::JUGEMENT, v)); } cands.push((a.clone(), P::GOAL, (1.0, 0.99))); }
            else if i % 3 == 0 { cands.push((a.clone(), P::JUGEMENT, (1.0, 0.95))); }
        }
        if cands.len() > 9 && !ctx.thorough { let s = (cands.len() + 8) / 9; cands = cands.into_iter().step_by(s.max(1)).collect(); }
        let k = cands.len();
        let len: u32 = if k > 20 { 2 } else { 3 };
        for code in 0..k.pow(len) {
            if ctx.stop() { return; }
            if !ctx.mine() { continue; }
            let seq: Vec<&(R, P, (f64, f64))> = (0..len).map(|i| &cands[code / k.pow(i) % k]).collect();
            ctx.case("candidates", || format!("question {}? candidates {}", q.printed(), seq.iter().map(|x| format!("{} {:?} {:?}", x.0.printed(), x.1, x.2)).collect::<Vec<_>>().join(" , ")), |ctx| {
                let (own, g1, g2) = (Log::new(), Log::new(), Log::new());
                let handlers: Vec<Arc<RwLock<dyn QHandler>>> = vec![Arc::new(RwLock::new(g1.clone())), Arc::new(RwLock::new(g2.clone()))];
                let mut task = Task2{sentence: sent(q, P::QUESTION, 1.0, 0.9, &[1]), handler: if h { Some(Arc::new(RwLock::new(own.clone()))) } else { None }, bestAnswerExp: 0.0, prio: 1.0};
                let mut best = 0.0;
                let mut want = vec![];
                for (i, (t, p, v)) in seq.iter().enumerate() {
                    ctx.transitions += 1;
                    let s = sent(t, *p, v.0, v.1, &[i as i64 + 10]);
                    wc::qaTryAnswer(&mut task, &s, &handlers);
                    let e = tf::exp(*v);
                    if *p == P::JUGEMENT && e > best && refrules::unify(q, t).is_some() { best = e; want.push(B::of(&s).key()); }
                    if !near(task.bestAnswerExp, best) { return Err(format!("best expectation is {}, expected {}", task.bestAnswerExp, best)); }
                    for (name, l, on) in [("handler of the question", &own, h), ("first global handler", &g1, true), ("second global handler", &g2, true)] {
                        let got: Vec<String> = l.get().iter().map(|x| x.1.key()).collect();
                        if got != (if on { want.clone() } else { vec![] }) { return Err(format!("{} was told {:?}, expected {:?}", name, got, want)); }
                        if l.get().iter().any(|x| x.0 != *q) { return Err(format!("{} was told a different question", name)); }
                    }
                }
                Ok(())
            });
        }
    } }
    qa_sized(ctx);
    qa_histories(ctx);
}

/// many open questions, wide questions, many beliefs about the same thing
fn qa_sized(ctx: &mut Ctx) {
    let mut hs: Vec<(Vec<String>, bool)> = vec![];
    let s = |x: &str| x.to_string();
    let cy = || s("!cycle");
    // k open questions, a conclusion answers all of them or the one at position j
    for k in (1..=(if ctx.thorough {10} else {7})).chain([12, 20, 33]) {
        let mut v: Vec<String> = (0..k).map(|i| format!("<?x{} --> c>?", i)).collect();
        v.extend([s("<a --> b>."), s("<b --> c>."), cy(), cy()]);
        hs.push((v, false));
        for j in 0..k {
            if k > 10 && !ctx.thorough && j % 4 != 0 && j != k - 1 { continue; }
            let mut v: Vec<String> = (0..k).map(|i| if i == j { s("<a --> c>?") } else { format!("<u{} --> c>?", i) }).collect();
            v.extend([s("<a --> b>."), s("<b --> c>."), cy(), cy()]);
            hs.push((v, false));
            let mut v: Vec<String> = (0..k).map(|i| if i == j { s("<(s,t) =/> ?y>?") } else { format!("<u{} =/> ?y>?", i) }).collect();
            v.extend([s("<(s,t) =/> g>."), s("<a --> ?u>?"), s("<a --> b>."), cy(), cy()]);
            hs.push((v, false));
        }
    }
    // wide question with variables, the constant is at each position (or only outside)
    for w in 1..=(if ctx.thorough {8} else {6}) { for j in 0..=w { for pr in ["r", "?r"] {
        if pr == "?r" && j == w { continue; } // no constant part
        let q: Vec<String> = (0..w).map(|i| if i == j { s("e") } else { format!("?x{}", i) }).collect();
        let a: Vec<String> = (0..w).map(|i| if i == j { s("e") } else { format!("e{}", i) }).collect();
        for (l, r, sep) in [("(", ")", "*"), ("{", "}", " "), ("[", "]", " "), ("(", ")", "&"), ("(", ")", "&&")] {
            if (w == 1) == (l == "(") || (sep == "&" && w != 2) { continue; }
            for (q1, a1) in [(format!("<{}{}{} --> {}>?", l, q.join(sep), r, pr), format!("<{}{}{} --> r>.", l, a.join(sep), r)), (format!("<{} --> {}{}{}>?", pr, l, q.join(sep), r), format!("<r --> {}{}{}>.", l, a.join(sep), r))] {
                hs.push((vec![q1.clone(), a1.clone()], true));
                hs.push((vec![a1, s("<o --> r>."), cy(), q1], true));
            }
        }
        let mut qs = q.clone(); qs.push(s("z"));
        let mut asq = a.clone(); asq.push(s("z"));
        hs.push((vec![format!("<({}) =/> {}>.", asq.join(","), "r"), format!("<({}) =/> {}>?", qs.join(","), pr)], true));
    } } }
    // many beliefs about the same term, one of them is asked for
    for k in (1..=19).filter(|k| ctx.thorough || k % 3 == 1) { for j in 0..k {
        for cyc in [0, 2] {
            let mut v: Vec<String> = (0..k).map(|i| format!("<a --> p{}>. {{{} 0.9}}", i, 1.0 - i as f64 * 0.02)).collect();
            for _ in 0..cyc { v.push(cy()); }
            v.push(format!("<a --> p{}>?", j));
            hs.push((v, true));
        }
    }
        // the answers get better and better, or worse
        for up in [true, false] {
            let mut v: Vec<String> = (0..k).map(|i| format!("<p{} --> a>. {{{} 0.9}}", i, if up { 0.5 + i as f64 * 0.02 } else { 1.0 - i as f64 * 0.02 })).collect();
            v.insert(0, s("<?x --> a>?"));
            hs.push((v.clone(), true));
            let q = v.remove(0);
            v.push(q);
            hs.push((v, true));
        }
    }
    // what the syntax can't express can't be asked
    hs.retain(|(t, _)| t.iter().all(|x| x == "!cycle" || mc::refp::parse(x).is_some()));
    for (texts, single) in hs {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        if let Some(o) = &ctx.only { if !texts.join(" | ").contains(o.as_str()) { continue; } }
        ctx.case("sized", || format!("history {}", texts.join(" | ")), |ctx| {
            let t2 = texts.clone();
            let st = seq_world_n(1, 20_000_000, move || qa_run(&t2, single))??;
            ctx.transitions += st.len() as u64;
            for s in st { ctx.state(&s); }
            Ok(())
        });
    }
}

fn relevant(q: &R, b: &R) -> bool { let s = b.uniq(); q.uniq().iter().any(|x| s.contains(x)) }

/// beliefs of the memory which is responsible for the question
fn known(nar: &Nar, q: &R) -> Vec<B> {
    let cs = if matches!(q, R::St(Cop::Pred, ..)) { concepts(&nar.procNar.evidenceMem.read()) } else { concepts_of(&nar.mem) };
    cs.into_iter().filter(|c| q.uniq().contains(&c.name)).flat_map(|c| c.by_exp.into_iter().chain(c.by_usage)).collect()
}

/// whole reasoner: facts and questions in every order, with cycles in between
fn qa_histories(ctx: &mut Ctx) {
    let lines: &[&str] = &["<a --> b>.", "<b --> c>. {0.8 0.9}", "<a --> b>. {0.0 0.5}", "<?x --> c>?", "<a --> c>?", "<<$x --> b> ==> <$x --> d>>.", "<a --> ?y>? :|:", "<(<s --> [on]>,<({SELF}*z) --> ^op>) =/> <g --> [off]>>.", "<?x =/> <g --> [off]>>?", "!cycle"];
    let k = lines.len();
    let len = if ctx.thorough { 5 } else { 4 };
    for code in 0..k.pow(len as u32) {
        if ctx.stop() { return; }
        let seq: Vec<usize> = (0..len).map(|i| code / k.pow(i as u32) % k).collect();
        // a history without question has nothing to answer
        if !seq.iter().any(|i| lines[*i].contains('?')) { continue; }
        if !ctx.mine() { continue; }
        let texts: Vec<String> = seq.iter().map(|i| lines[*i].to_string()).collect();
        // one question: it is selected in each cycle.  several: every selection by the random generator
        let nq = seq.iter().filter(|i| lines[**i].contains('?')).count();
        let name = format!("history {}", texts.join(" | "));
        if nq == 1 || !ctx.thorough {
            ctx.case("history", || name.clone(), |ctx| {
                let t2 = texts.clone();
                let st = seq_world_n(1, 20_000_000, move || qa_run(&t2, nq == 1))??;
                ctx.transitions += st.len() as u64;
                for s in st { ctx.state(&s); }
                Ok(())
            });
        } else {
            for salt in 1..=2 { ctx.case("history", || format!("{} (random {})", name, salt), |ctx| {
                let t2 = texts.clone();
                let st = seq_world_n(salt, 20_000_000, move || qa_run(&t2, false))??;
                for s in st { ctx.state(&s); }
                Ok(())
            }); }
        }
    }
    // every selection of one of two or three questions
    let hs: &[&[&str]] = &[&["<a --> b>.", "<a --> ?x>?", "<?x --> b>?", "!cycle", "!cycle"], &["<a --> b>. {0.6 0.5}", "<a --> ?x>?", "<?x --> b>?", "<a --> b>?", "!cycle", "<a --> b>. {1.0 0.9}", "!cycle", "!cycle"], &["<b --> c>?", "<a --> c>?", "<a --> b>.", "<b --> c>.", "!cycle", "!cycle", "!cycle"]];
    for h in hs {
        let texts: Vec<String> = h.iter().map(|x| x.to_string()).collect();
        let cfg = ExploreCfg{world: WorldCfg{chooser: ChooserCfg{rng_first: 8, rng_bound: 8, ..ChooserCfg::default()}, max_steps: 20_000_000, ..WorldCfg::default()}, cap: 200_000, local: false};
        explore(ctx, "selection", &format!("history {}", h.join(" | ")), &cfg, || { let t = texts.clone(); Box::new(move || qa_run(&t, false).map(|v| v.join("\n"))) });
    }
}

fn qa_run(texts: &[String], single: bool) -> Result<Vec<String>, String> {
    let mut nar = createNar();
    let log = Log::new();
    nar.mem.read().globalQaHandlers.write().push(Arc::new(RwLock::new(log.clone())));
    let mut states = vec![];
    let mut qs: Vec<R> = vec![];
    let mut best: Vec<f64> = vec![];
    let mut seen_log = 0;
    let mut ever: Vec<String> = vec![];
    for t in texts.iter().map(|x| x.as_str()).chain(["!cycle", "!cycle", "!cycle"]) {
        if t != "!cycle" {
            if !inputN(&mut nar, &t.to_string()) { return Err(format!("{} was rejected", t)); }
            if t.contains('?') {
                let p = mc::refp::parse(&t.replace(" :|:", "")).ok_or("reference")?.term;
                qs.push(p);
                best.push(0.0);
                let have: Vec<R> = nar.mem.read().shared.read().questionTasks.read().iter().map(|x| R::of(&x.sentence.term)).collect();
                if have != qs { return Err(format!("questions which are worked on: {:?}, asked: {:?}", have, qs)); }
            }
            continue;
        }
        let before: Vec<Vec<B>> = qs.iter().map(|q| known(&nar, q)).collect();
        let ids: Vec<i64> = tasks_of(&nar.mem).iter().map(|x| x.id).collect();
        let all_before: Vec<B> = qs.iter().flat_map(|q| known(&nar, q)).chain(concepts_of(&nar.mem).into_iter().flat_map(|c| c.by_exp.into_iter().chain(c.by_usage))).collect();
        ever.extend(all_before.iter().map(|b| b.key()));
        let cyc = nar.mem.read().shared.read().cycleCounter.load(std::sync::atomic::Ordering::SeqCst);
        cycle(&mut nar);
        vpmc::quiesce();
        let fresh: Vec<T> = tasks_of(&nar.mem).into_iter().filter(|x| !ids.contains(&x.id)).collect();
        ever.extend(fresh.iter().map(|b| b.b.key()));
        let l = log.get();
        for (q, a) in &l[seen_log..] {
            let i = match qs.iter().position(|x| x == q) { Some(i) => i, None => return Err(format!("answer to {} which was not asked", q.printed())) };
            if a.punct != '.' || refrules::unify(q, &a.term).is_none() { return Err(format!("{} is no answer to {}", a.key(), q.printed())); }
            if !ever.contains(&a.key()) { return Err(format!("answer {} is not known", a.key())); }
            // the same question asked twice is answered separately
            if qs.iter().filter(|x| *x == q).count() == 1 {
                if a.exp() <= best[i] { return Err(format!("answer {} to {} is not better than the last one ({})", a.key(), q.printed(), best[i])); }
                best[i] = a.exp();
            }
        }
        seen_log = l.len();
        for (i, q) in qs.iter().enumerate() {
            if qs.iter().filter(|x| *x == q).count() > 1 { best[i] = l.iter().filter(|x| x.0 == *q).map(|x| x.1.exp()).fold(0.0, f64::max); }
            let must = |b: &B| b.punct == '.' && refrules::unify(q, &b.term).is_some() && b.exp() > best[i] + 1e-9;
            // knowledge which was there when the question was worked on
            if single { if let Some(b) = before[i].iter().find(|b| must(b)) { return Err(format!("question {} was worked on but {} was not reported", q.printed(), b.key())); } }
            // new conclusions (revisions are found when the question is worked on the next time)
            for x in &fresh {
                let revised = all_before.iter().any(|b| b.term == x.b.term && b.ids.iter().all(|j| x.b.ids.contains(j))) || fresh.iter().any(|y| y.id != x.id && y.b.term == x.b.term && y.b.ids.len() < x.b.ids.len());
                if !revised && must(&x.b) { return Err(format!("conclusion {} answers {} but was not reported", x.b.key(), q.printed())); }
            }
        }
        if nar.mem.read().shared.read().questionTasks.read().len() != qs.len() { return Err("a question was lost".into()); }
        // task agrees with what was told
        for (i, qt) in nar.mem.read().shared.read().questionTasks.read().iter().enumerate() {
            if qs.iter().filter(|x| **x == qs[i]).count() == 1 && !near(qt.bestAnswerExp, best[i]) { return Err(format!("best expectation of {} is {}, told was {}", qs[i].printed(), qt.bestAnswerExp, best[i])); }
        }
        states.push(format!("{} {:?} {}", cyc, best, digest(&nar.mem)));
    }
    Ok(states)
}

/// the set of everything which may be concluded from the selected task
struct Concl { t: R, v: tf::V, ids: Vec<i64>, mul: Vec<f64> }

fn cycle_check(nar: &mut Nar, must_complete: &mut u64) -> Result<(), String> {
    let pre = tasks_of(&nar.mem);
    let ix = index_of(&nar.mem);
    let cons = concepts_of(&nar.mem);
    let qs: Vec<(R, f64)> = nar.mem.read().shared.read().questionTasks.read().iter().map(|x| (R::of(&x.sentence.term), x.prio)).collect();
    let ord = std::sync::atomic::Ordering::SeqCst;
    let cc0 = nar.mem.read().shared.read().cycleCounter.load(ord);
    let time0 = nar.currentTime.load(ord);
    // handles to every task, to observe tasks which are taken out of the list
    let arcs: Vec<(i64, Arc<RwLock<wc::Task>>)> = nar.mem.read().shared.read().judgementTasks.iter().map(|t| (t.read().id, Arc::clone(t))).collect();
    let mut all_arcs: Vec<(i64, Arc<RwLock<wc::Task>>)> = arcs.clone();
    for (_, v) in nar.mem.read().shared.read().judgementTasksByTerm.read().iter() { for t in v { let id = t.read().id; if !all_arcs.iter().any(|x| x.0 == id) { all_arcs.push((id, Arc::clone(t))); } } }
    let dump = |t: &wc::Task| T{b: B::of(&t.sentence), credit: t.credit, qa: t.qaCredit, mul: t.mulCredit, id: t.id, deriv: t.derivTime, used: { let u = t.sentence.usage.read(); (u.lastUsed, u.useCount) }};
    let pre_all: Vec<T> = all_arcs.iter().map(|x| dump(&x.1.read())).collect();

    cycle(nar);
    vpmc::quiesce();

    let cc = nar.mem.read().shared.read().cycleCounter.load(ord);
    if cc != cc0 + 1 || nar.currentTime.load(ord) != time0 + 1 { return Err(format!("clock went from {} {} to {} {}", cc0, time0, cc, nar.currentTime.load(ord))); }
    let post = tasks_of(&nar.mem);
    let purge = cc % 111 == 0;
    // expected credits
    let mut exp: Vec<T> = pre.clone();
    for e in exp.iter_mut() {
        for (q, prio) in &qs { for s in q.subs() { if let Some(x) = ix.iter().find(|x| x.0 == s) { e.qa += *prio * x.1.iter().filter(|i| **i == e.id).count() as f64; } } }
        let cx = e.b.term.complexity() as f64;
        e.credit = (e.credit + 0.5) / cx;
        e.qa /= cx;
    }
    let now = |t: &T| (0.2 * t.qa + t.credit) * (-0.001 * (cc - t.deriv) as f64).exp() * t.mul;
    let gone: Vec<&T> = exp.iter().filter(|t| !post.iter().any(|x| x.id == t.id)).collect();
    if !purge {
        if gone.len() != pre.len().min(1) { return Err(format!("{} tasks vanished in a cycle: {}", gone.len(), gone.iter().map(|x| x.b.key()).collect::<Vec<_>>().join(" ; "))); }
        for x in post.iter() { if let Some(e) = exp.iter().find(|e| e.id == x.id) {
            if !near(e.credit, x.credit) || !near(e.qa, x.qa) || !near(e.mul, x.mul) || e.deriv != x.deriv || e.b.key() != x.b.key() { return Err(format!("task {}: credit {} {} (expected {} {}), factor {} ({})", x.b.key(), x.credit, x.qa, e.credit, e.qa, x.mul, e.mul)); }
        } }
    }
    if pre.is_empty() { return if post.is_empty() { Ok(()) } else { Err("tasks out of nothing".into()) }; }
    // the selected one is the best one
    let best = exp.iter().map(|t| now(t)).fold(f64::MIN, f64::max);
    // used in this cycle
    let cand: Vec<&T> = exp.iter().filter(|t| near(now(t), best) && !post.iter().any(|x| x.id == t.id)).collect();
    if cand.is_empty() { return Err(format!("selected was not the task with the highest credit ({}), gone: {}", best, gone.iter().map(|t| format!("{} {}", t.b.key(), now(t))).collect::<Vec<_>>().join(" ; "))); }
    if purge { return Ok(()); }
    let prim = cand[0];
    // related tasks
    let mut sec: Vec<&T> = vec![];
    let mut limited = false;
    for s in prim.b.term.uniq() { if let Some(x) = ix.iter().find(|x| x.0 == s) {
        if x.1.len() > 50 { limited = true; }
        for i in &x.1 { if let Some(t) = pre_all.iter().find(|t| t.id == *i) { if !sec.iter().any(|y| y.id == t.id) { sec.push(t); } } }
    } }
    if sec.len() > 300 { limited = true; }
    // usage of the premises was recorded
    for (id, a) in &all_arcs {
        let (was, is) = (pre_all.iter().find(|t| t.id == *id).unwrap().used, dump(&a.read()).used);
        let used = *id == prim.id || sec.iter().any(|t| t.id == *id);
        // copies share their usage record, so it may be counted more than once
        if used && !limited && (is.1 <= was.1 || is.0 != time0 + 1) { return Err(format!("use of {} was not recorded: {:?} {:?}", pre_all.iter().find(|t| t.id == *id).unwrap().b.key(), was, is)); }
        if !used && is != was { let shared = pre_all.iter().any(|t| t.id != *id && t.b.term == pre_all.iter().find(|x| x.id == *id).unwrap().b.term); if !shared { return Err(format!("task {} was not used", pre_all.iter().find(|t| t.id == *id).unwrap().b.key())); } }
    }
    // conclusions
    let mut concl: Vec<Concl> = vec![];
    let mut add = |t: R, v: tf::V, ids: Vec<i64>, mul: f64| {
        if t.complexity() > 64 { return; }
        match concl.iter_mut().find(|x| x.t == t && x.ids == ids && close(x.v, v)) { Some(x) => x.mul.push(mul), None => concl.push(Concl{t, v, ids, mul: vec![mul]}) }
    };
    for (t, v, f) in refrules::one(&prim.b.term, (prim.b.f, prim.b.c)) { add(t, v, prim.b.set(), prim.mul * f); }
    let pp = Pr{t: prim.b.term.clone(), p: '.', v: (prim.b.f, prim.b.c)};
    let beliefs: Vec<&B> = cons.iter().filter(|c| c.name == prim.b.term).flat_map(|c| c.by_exp.iter().chain(c.by_usage.iter())).collect();
    for o in sec.iter().map(|t| &t.b).chain(beliefs.into_iter()) {
        if o.overlaps(&prim.b.ids) { continue; }
        let mut ids = prim.b.ids.clone();
        ids.extend(&o.ids);
        ids.sort();
        for (t, v) in refrules::two(&pp, &Pr{t: o.term.clone(), p: '.', v: (o.f, o.c)}) { add(t, v, ids.clone(), prim.mul); }
    }
    let fresh: Vec<&T> = post.iter().filter(|x| !pre.iter().any(|y| y.id == x.id)).collect();
    let old_beliefs: Vec<&B> = cons.iter().flat_map(|c| c.by_exp.iter().chain(c.by_usage.iter())).collect();
    // everything new is a conclusion or a revision by a conclusion
    let justified = |b: &B| -> Option<Vec<f64>> {
        if let Some(x) = concl.iter().find(|x| x.t == b.term && x.ids == b.set() && close(x.v, (b.f, b.c))) { return Some(x.mul.clone()); }
        // revision chains: old belief (or nothing) plus conclusions of this cycle with disjoint evidence
        let cs: Vec<&Concl> = concl.iter().filter(|x| x.t == b.term && x.ids.iter().all(|i| b.ids.contains(i))).collect();
        let mut start: Vec<(tf::V, Vec<i64>)> = old_beliefs.iter().filter(|o| o.term == b.term && o.ids.iter().all(|i| b.ids.contains(i))).map(|o| ((o.f, o.c), o.set())).collect();
        start.extend(cs.iter().map(|x| (x.v, x.ids.clone())));
        fn go(b: &B, cur: (tf::V, Vec<i64>), cs: &[&Concl]) -> bool {
            if cur.1.len() == b.ids.len() { return close(cur.0, (b.f, b.c)); }
            for x in cs { if !x.ids.iter().any(|i| cur.1.contains(i)) {
                let mut ids = cur.1.clone();
                ids.extend(&x.ids);
                if go(b, (tf::rev(cur.0, x.v), ids), cs) { return true; }
            } }
            false
        }
        if start.into_iter().any(|s| s.1.len() < b.ids.len() && go(b, s, &cs)) { return Some(cs.iter().flat_map(|x| x.mul.iter().cloned()).collect()); }
        None
    };
    for x in &fresh {
        let m = justified(&x.b).ok_or_else(|| format!("worked on {}: new task {} is no conclusion of it", prim.b.key(), x.b.key()))?;
        if !m.iter().any(|v| near(*v, x.mul)) { return Err(format!("worked on {}: factor of {} is {}, expected one of {:?}", prim.b.key(), x.b.key(), x.mul, m)); }
        if !near(x.credit, 1.0 / x.b.term.complexity() as f64) || x.qa != 0.0 || x.deriv != cc { return Err(format!("new task {}: credit {} {} created {}", x.b.key(), x.credit, x.qa, x.deriv)); }
    }
    let post_cons = concepts_of(&nar.mem);
    let post_beliefs: Vec<&B> = post_cons.iter().flat_map(|c| c.by_exp.iter().chain(c.by_usage.iter())).collect();
    let old_keys: std::collections::HashSet<String> = old_beliefs.iter().map(|b| b.key()).collect();
    let mut okc: std::collections::HashSet<String> = Default::default();
    for b in &post_beliefs { let k = b.key(); if !old_keys.contains(&k) && !okc.contains(&k) { if justified(b).is_none() { return Err(format!("worked on {}: new belief {} is no conclusion of it", prim.b.key(), k)); } okc.insert(k); } }
    // every conclusion is kept
    if !limited {
        *must_complete += 1;
        for x in &concl {
            if !post.iter().any(|t| t.b.term == x.t && t.b.set() == x.ids) { return Err(format!("worked on {}: conclusion {} {:?} {:?} is missing", prim.b.key(), x.t.printed(), x.v, x.ids)); }
            for s in x.t.uniq() {
                let con = post_cons.iter().find(|c| c.name == s);
                match con { None => return Err(format!("conclusion {} has no concept {}", x.t.printed(), s.printed())), Some(con) => {
                    if con.by_exp.len() < 20 && !con.by_exp.iter().any(|b| b.term == x.t) { return Err(format!("conclusion {} is not believed in {}", x.t.printed(), s.printed())); }
                    if con.by_usage.len() < 20 && !con.by_usage.iter().any(|b| b.term == x.t) { return Err(format!("conclusion {} is not believed in {}", x.t.printed(), s.printed())); }
                } }
            }
        }
    }
    // nothing is forgotten while there is space
    for c in &cons {
        let p = match post_cons.iter().find(|x| x.name == c.name) { Some(p) => p, None => return Err(format!("concept {} was lost", c.name.printed())) };
        if p.by_exp.len() < 20 { for b in &c.by_exp { if !p.by_exp.iter().any(|x| x.term == b.term && b.ids.iter().all(|i| x.ids.contains(i))) { return Err(format!("belief {} was lost in {}", b.key(), c.name.printed())); } } }
        if p.by_usage.len() < 20 { for b in &c.by_usage { if !p.by_usage.iter().any(|x| x.term == b.term && b.ids.iter().all(|i| x.ids.contains(i))) { return Err(format!("belief {} was lost in {}", b.key(), c.name.printed())); } } }
    }
    Ok(())
}

fn c12(ctx: &mut Ctx) {
    let lines: &[&str] = &["<a --> b>.", "<b --> c>. {0.8 0.9}", "<a --> b>. {0.0 0.5}", "<c --> b>. {0.5 0.7}", "<<$x --> b> ==> <$x --> d>>.", "<(<$x --> b>&&<$x --> c>) ==> <$x --> e>>.", "<(a*b) --> r>.", "<a --> (r /1 b)>. {0.3 0.6}", "(!<a --> c>).", "<a --> [p]>.", "<a --> [q]>. {0.9 0.8}", "<a <-> b>. {0.9 0.7}", "<[a] <-> [b]>.", "<(a|b) --> c>. {0.6 0.9}", "<a --> ?x>?", "<b --> c>?"];
    let k = lines.len();
    let plans: &[(usize, usize)] = if ctx.thorough { &[(2, 9), (3, 6), (4, 3)] } else { &[(2, 6), (3, 3)] };
    for (len, cycles) in plans.iter().cloned() { for code in 0..k.pow(len as u32) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let seq: Vec<String> = (0..len).map(|i| lines[code / k.pow(i as u32) % k].to_string()).collect();
        for between in [0usize, 1] {
            let seq = seq.clone();
            ctx.case("cycle", || format!("inputs {} with {} cycles between and {} afterwards", seq.join(" | "), between, cycles), |ctx| {
                let seq = seq.clone();
                let (st, done) = seq_world_n(1, 100_000_000, move || -> Result<(Vec<String>, u64), String> {
                    let mut nar = createNar();
                    let mut st = vec![];
                    let mut done = 0;
                    for l in &seq {
                        if !inputN(&mut nar, l) { return Err(format!("{} was rejected", l)); }
                        for _ in 0..between { cycle_check(&mut nar, &mut done)?; st.push(digest(&nar.mem)); }
                    }
                    for _ in 0..cycles { cycle_check(&mut nar, &mut done)?; st.push(digest(&nar.mem)); }
                    Ok((st, done))
                })??;
                ctx.transitions += st.len() as u64;
                ctx.note("cycles_with_complete_conclusions", done);
                for s in st { ctx.state(&s); }
                Ok(())
            });
        }
    } }
    wide(ctx);
    repeated(ctx);
    // selection functions: every list of credits
    let credits = [0.0, 0.001, 0.2, 0.5, 1.0];
    let len = if ctx.thorough { 5 } else { 4 };
    for l in 1..=len { for code in 0..5usize.pow(l as u32) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let cr: Vec<f64> = (0..l).map(|i| credits[code / 5usize.pow(i as u32) % 5]).collect();
        ctx.case("selection", || format!("credits {:?}", cr), |ctx| {
            let mk = |f: &dyn Fn(usize) -> (f64, f64, f64, i64)| -> Vec<Arc<RwLock<wc::Task>>> { cr.iter().enumerate().map(|(i, c)| { let (cr, qa, mul, dv) = f(i); let _ = c; Arc::new(RwLock::new(wc::Task{sentence: judge(&inh(n("a"), n(&format!("b{}", i))), 1.0, 0.9, &[i as i64]), credit: cr, qaCredit: qa, mulCredit: mul, id: i as i64, derivTime: dv})) }).collect() };
            for mode in 0..4 {
                ctx.transitions += 1;
                let arr = mk(&|i| match mode { 0 => (cr[i], 0.0, 1.0, 0), 1 => (0.1, cr[i] * 5.0, 1.0, 0), 2 => (1.0, 0.0, cr[i], 0), _ => (cr[i], 0.1, 0.5, (i as i64) * 40) });
                let val: Vec<f64> = arr.iter().map(|t| { let t = t.read(); (t.credit + 0.2 * t.qaCredit) * (-0.001 * (200 - t.derivTime) as f64).exp() * t.mulCredit }).collect();
                for (t, v) in arr.iter().zip(&val) { let g = wc::taskCalcCredit(&t.read(), 200); if !near(g, *v) { return Err(format!("credit is {}, expected {}", g, v)); } }
                let s = wc::taskSelByCreditTop(&arr, 200);
                if val.iter().any(|v| *v > val[s] + 1e-12) { return Err(format!("{:?}: selected {}", val, s)); }
                // proportional selection: every mark on the wheel
                let sum: f64 = val.iter().sum();
                for q in 0..40 {
                    let x = (q as f64 + 0.5) / 40.0;
                    let i = wc::taskSelByCreditRandom(x, &arr, 200);
                    if i >= val.len() { return Err("out of range".into()); }
                    let lo: f64 = val[..i].iter().sum();
                    if sum > 0.0 && !(lo <= x * sum + 1e-9 && x * sum <= lo + val[i] + 1e-9) { return Err(format!("{:?}: mark {} selects {}", val, x, i)); }
                }
            }
            // questions
            let qs: Vec<Box<Task2>> = cr.iter().map(|p| Box::new(Task2{sentence: sent(&inh(qv("x"), n("b")), P::QUESTION, 1.0, 0.9, &[1]), handler: None, bestAnswerExp: 0.0, prio: *p})).collect();
            let sum: f64 = cr.iter().sum();
            for q in 0..40 {
                let x = (q as f64 + 0.5) / 40.0;
                let i = wc::task2SelByCreditRandom(x, &qs);
                if i >= cr.len() { return Err("out of range".into()); }
                let lo: f64 = cr[..i].iter().sum();
                if sum > 0.0 && !(lo <= x * sum + 1e-9 && x * sum <= lo + cr[i] + 1e-9) { return Err(format!("{:?}: mark {} selects question {}", cr, x, i)); }
            }
            Ok(())
        });
    } }
}

/// one task which is related to many others by each of its parts
fn wide(ctx: &mut Ctx) {
    let prims: &[(&str, &[&str])] = &[("<a --> b>", &["a", "b"]), ("<(a*b) --> r>", &["a", "b", "r"]), ("<<a --> b> ==> <c --> d>>", &["a", "b", "c", "d"]), ("<(a*b*c*d) --> r>", &["a", "b", "c", "d", "r"]), ("<(<a --> b>&&<c --> d>) ==> <e --> f>>", &["a", "b", "c", "d", "e", "f"])];
    let sizes: &[usize] = if ctx.thorough { &[1, 5, 10, 16, 20, 24, 30, 36, 40, 45] } else { &[5, 16, 24, 45] };
    for (prim, parts) in prims { for k in sizes { for form in 0..3usize { for late in [false, true] {
        if ctx.stop() { return; }
        if *k * parts.len() > 280 { continue; }
        if !ctx.mine() { continue; }
        ctx.case("cycle", || format!("{} with {} related statements for each part (form {}, told last: {})", prim, k, form, late), |ctx| {
            let (prim, parts, k) = (prim.to_string(), parts.iter().map(|x| x.to_string()).collect::<Vec<_>>(), *k);
            let (st, done) = seq_world_n(1, 1_000_000_000, move || -> Result<(Vec<String>, u64), String> {
                let mut nar = createNar();
                let mut ls: Vec<String> = vec![];
                for (j, p) in parts.iter().enumerate() { for i in 0..k { ls.push(match (form, i % 2) { (0, _) => format!("<{} --> z{}q{}>.", p, j, i), (1, _) => format!("<z{}q{} --> {}>. {{0.{} 0.8}}", j, i, p, i % 9), (_, 0) => format!("<{} --> z{}q{}>.", p, j, i), _ => format!("<(z{}q{}*{}) --> s>.", j, i, p) }); } }
                if late { ls.push(format!("{}.", prim)); } else { ls.insert(0, format!("{}.", prim)); }
                for l in &ls { if !inputN(&mut nar, l) { return Err(format!("{} was rejected", l)); } }
                // the question makes it the most important one
                for _ in 0..30 { inputN(&mut nar, &format!("{}?", prim)); }
                let mut st = vec![];
                let mut done = 0;
                for _ in 0..2 { cycle_check(&mut nar, &mut done)?; st.push(digest(&nar.mem)); }
                Ok((st, done))
            })??;
            ctx.transitions += st.len() as u64;
            ctx.note("cycles_with_complete_conclusions", done);
            for s in st { ctx.state(&s); }
            Ok(())
        });
    } } } }
}

/// questions in which a part occurs several times
fn repeated(ctx: &mut Ctx) {
    let qs = ["<<a --> b> ==> <a --> c>>?", "<(a*a) --> r>?", "<<a --> a> ==> <a --> b>>?", "<(a&b) --> (a|b)>?", "<a --> a>?", "<(<a --> b>&&<b --> a>) ==> <?x --> a>>?", "(!<a --> a>)?"];
    let js = ["<a --> b>.", "<b --> a>. {0.4 0.8}", "<(a*a) --> r>.", "<<a --> b> ==> <a --> c>>.", "<c --> d>.", "<(a&b) --> c>."];
    for q in 0..qs.len() { for q2 in 0..=qs.len() { for x in 0..js.len() { for y in 0..js.len() {
        if ctx.stop() { return; }
        if x == y || !ctx.mine() { continue; }
        if q2 < qs.len() && (q + q2 + x + y) % 3 != 0 && !ctx.thorough { continue; }
        ctx.case("cycle", || format!("{} {} {} {}", qs[q], qs.get(q2).unwrap_or(&""), js[x], js[y]), |ctx| {
            let mut ls = vec![qs[q].to_string(), js[x].to_string(), js[y].to_string()];
            if q2 < qs.len() { ls.push(qs[q2].to_string()); }
            let (st, done) = seq_world_n(1, 100_000_000, move || -> Result<(Vec<String>, u64), String> {
                let mut nar = createNar();
                for l in &ls { if !inputN(&mut nar, l) { return Err(format!("{} was rejected", l)); } }
                let (mut st, mut done) = (vec![], 0);
                for _ in 0..3 { cycle_check(&mut nar, &mut done)?; st.push(digest(&nar.mem)); }
                Ok((st, done))
            })??;
            ctx.transitions += st.len() as u64;
            ctx.note("cycles_with_complete_conclusions", done);
            for s in st { ctx.state(&s); }
            Ok(())
        });
    } } } }
}

fn main() {
    main_of(&[
        Check{id: "C11", rule: "every question of a set with every sequence of up to 3 candidate answers; every history of facts, questions and cycles up to a length with the real reasoner; every selection among several questions (all draws of the random generator)", assumptions: &["one thread schedule per history", "knowledge answers a question when it shares a constant part with the question or when it is newly derived"], run: c11},
        Check{id: "C12", rule: "every history of inputs up to a length over 16 lines; each cycle of the real reasoner is compared with the transition relation: credits, selection, every conclusion of the selected task with all related tasks and beliefs, nothing else; every list of credits through the selection functions", assumptions: &["completeness of conclusions is required when the documented limits (50 per term, 300 tasks) aren't reached"], run: c12},
    ]);
}
