B('b01', 'C01', [('src/NarseseParser.rs', '''  while narsese2.contains(" *") {''', '''  if narsese2.contains(" *") { // spaces before product sign''')],
 'a product which is written with two or more spaces before the product sign',
 'a valid sentence is rejected (or read as something else)',
 '''let (t, ..) = parseNarsese(&"<(a  *  b) --> r>.".to_string()).expect("accepted");
 assert!(checkEqTerm(&t, &read("<(a*b) --> r>")));''')
B('b02', 'C02', [('src/NarseseParser.rs', '''  narsese2 = narsese2.trim_end().to_string();
  //println!("{}", &narsese2);

  if''', '''  narsese2 = narsese2.trim_end_matches(|c:char| c.is_whitespace() || c == ':' || c == '|').to_string();
  //println!("{}", &narsese2);

  if''')],
 'text whose event marker is malformed (for example ":|" or "|:" after the punctuation)',
 'a part of the text is ignored: a malformed event marker is read as an eternal judgement',
 '''for t in ["<a --> b>. :|", "<a --> b>.:|:", "<a --> b>.|"] { assert!(parseNarsese(&t.to_string()).is_none(), "{}", t); }
 assert!(parseNarsese(&"<a --> b>. :|:".to_string()).unwrap().3);''')
B('b03', 'C03', [('src/Term.rs', '''        Term::Img(rel,idx,elements) => {
            let mut inner = convTermToStr(&elements[0]);''', '''        Term::Img(rel,idx,elements) if elements.len() == 1 && checkEqTerm(rel, &elements[0]) => {
            format!("( {} /{} {} )", convTermToStr(&rel), 1, convTermToStr(&elements[0]))
        },
        Term::Img(rel,idx,elements) => {
            let mut inner = convTermToStr(&elements[0]);''')],
 'an image of the second place whose relation and other component are the same term',
 'two different images are printed the same way',
 '''let a = read("(r /1 r)"); let b = read("(r /2 r)");
 assert!(!checkEqTerm(&a, &b)); assert!(convTermToStr(&a) != convTermToStr(&b));''')
B('b04', 'C04', [('src/NarUnify.rs', '''fn checkSameVal(var:&Term, val:&Term, assignments:&Vec<Asgnment>) -> bool {
    for i in assignments {
        if checkEqTerm(&i.var, &var) {
            return checkEqTerm(&i.val, &val);
        }
    }''', '''fn checkSameVal(var:&Term, val:&Term, assignments:&Vec<Asgnment>) -> bool {
    for i in assignments {
        if checkEqTerm(&i.var, &var) || checkEqTerm(&i.val, &val) {
            return checkEqTerm(&i.val, &val);
        }
    }''')],
 'a pattern with two variables where the second variable occurs again with the value of the first one',
 'an inconsistent assignment is accepted',
 '''let p = read("<($x*$y) --> <$y ==> r>>"); 
 let t = read("<(a*b) --> <a ==> r>>");
 assert!(NarUnify::unify(&p, &t).is_none());
 assert!(NarUnify::unify(&p, &read("<(a*b) --> <b ==> r>>")).is_some());''')
B('b05', 'C05', [('src/Tv.rs', 'let f = if f0.abs()<1.0e-8 {0.0} else { (a.f*b.f) / f0 };', 'let f = if (a.f*b.f).abs()<1.0e-3 {0.0} else { (a.f*b.f) / f0 };')],
 'comparison of two premises which both have a small frequency',
 'the frequency of the conclusion is 0 instead of a*b/(a or b)',
 '''let r = Tv::comp(&TV{f:0.02,c:0.9}, &TV{f:0.02,c:0.9});
 assert!(near(r.f, 0.0004/0.0396), "{}", r.f);''')
B('b06', 'C06', [('src/NarStamp.rs', '''    for ia in &a.ids {
        for ib in &b.ids {''', '''    let n = a.ids.len().min(b.ids.len()).max(8); // older evidence is at the front
    for ia in a.ids.iter().take(n) {
        for ib in b.ids.iter().take(n) {''')],
 'a shared evidence which is far back in a evidential base with more than eight entries and a short other base',
 'overlapping evidence isn\'t noticed and counted twice',
 '''let a = newStamp(&(0..12).collect::<Vec<i64>>());
 assert!(NarStamp::checkOverlap(&a, &newStamp(&vec![11])));
 assert!(NarStamp::checkOverlap(&newStamp(&vec![10]), &a));''')
B('b07', 'C07', [('src/NarWorkingCycle.rs', '''                                let subst = unifySubst(&arr[idx2], &unifyVal); // substitute vars
                                conclConj.push(Box::new(subst));''', '''                                let subst = if idx2 > conjIdx+1 {(*arr[idx2]).clone()} else {unifySubst(&arr[idx2], &unifyVal)}; // substitute vars
                                conclConj.push(Box::new(subst));''')],
 'a conditional conjunction of at least three parts with a variable which is shared by the detached part and a part two places behind it',
 'the conclusion keeps the unbound variable in a part of the condition',
 '''let im = read("<(<$x --> a>&&<k --> b>&&<$x --> c>) ==> <$x --> d>>");
 let mut w = false;
 let r = infBinary(&im, EnumPunctation::JUGEMENT, &Some(TV{f:1.0,c:0.9}), &read("<e --> a>"), EnumPunctation::JUGEMENT, &Some(TV{f:1.0,c:0.9}), &mut w);
 let want = read("<(<k --> b>&&<e --> c>) ==> <e --> d>>");
 assert!(r.iter().any(|x| checkEqTerm(&x.0, &want)), "{:?}", r.iter().map(|x| convTermToStr(&x.0)).collect::<Vec<_>>());''')
B('b08', 'C08', [('src/NarWorkingCycle.rs', '''                    for iTerm in &*arr {
                        let concl = Term::Stmt(Copula::PREDIMPL,''', '''                    for iTerm in arr.iter().filter(|v| !checkEqTerm(v, &arr[0]) || arr.len() == 2) {
                        let concl = Term::Stmt(Copula::PREDIMPL,''')],
 'a implication with three or more parallel effects',
 'the first effect isn\'t concluded',
 '''let par = |v: &[&str]| Term::Par(v.iter().map(|x| Box::new(n(x))).collect());
 for k in [&["a","b"][..], &["a","b","c"], &["a","b","c","d"]] {
  let r = infSinglePremise2(&jud(&s(Copula::PREDIMPL, &n("x"), &par(k)), 1.0, 0.9, &[1]));
  for e in k { assert!(r.iter().any(|x| checkEqTerm(&x.0.term, &s(Copula::PREDIMPL, &n("x"), &n(e)))), "{}", e); } }''')
B('b09', 'C09', [('src/NarWorkingCycle.rs', '''                                            let stamp = NarStamp::merge(&iBelief.stamp, &sentence.stamp);
                                            let tvA:Tv = retTv(&iBelief).unwrap();''', '''                                            let stamp = NarStamp::merge(&sentence.stamp, &NarStamp::newStamp(&iBelief.stamp.ids.iter().take(4).cloned().collect()));
                                            let tvA:Tv = retTv(&iBelief).unwrap();''', 1)],
 'a statement for which more than five pieces of evidence were told, then one of the first pieces is told again',
 'the belief in the second table forgets a part of its evidential base, the same evidence is counted twice',
 '''let mem = createMem2(64, 20);
 let t = read("<a --> b>");
 for i in 0..8 { memAddTask(Arc::clone(&mem.read().shared), &jud(&t, 1.0, 0.5, &[i]), true, 64, 20, 1.0, 0); }
 let c0: Vec<f64> = { let m = Arc::clone(&mem.read().shared.read().mem); let g = m.read(); let v = NarMem::ret_beliefs_of_concept(&g, &t).unwrap().map(|b| retTv(&b.read()).unwrap().c).collect(); v };
 for i in 0..8 { memAddTask(Arc::clone(&mem.read().shared), &jud(&t, 1.0, 0.5, &[i]), true, 64, 20, 1.0, 0); }
 let c1: Vec<f64> = { let m = Arc::clone(&mem.read().shared.read().mem); let g = m.read(); let v = NarMem::ret_beliefs_of_concept(&g, &t).unwrap().map(|b| retTv(&b.read()).unwrap().c).collect(); v };
 assert_eq!(c0, c1);''')
B('b10', 'C10', [('src/NarMem.rs', '''                for iBelief in &concept.payload.beliefsByExp {
                    let iBeliefGuard = iBelief.read();
                    rating = rating.max(''', '''                for iBelief in concept.payload.beliefsByExp.iter().take(1) { // ordered by exp
                    let iBeliefGuard = iBelief.read();
                    rating = rating.max(''')],
 'a concept whose best belief was put at the end of the table by a revision, then the memory is limited',
 'a concept with a higher expectation is given up instead of a worse one',
 '''let mem = createMem2(64, 20);
 let add = |t: &str, f: f64, c: f64, i: i64| memAddTask(Arc::clone(&mem.read().shared), &jud(&read(t), f, c, &[i]), true, 64, 20, 1.0, 0);
 add("<a --> b>", 1.0, 0.5, 1); add("<a --> c>", 1.0, 0.4, 2); add("<d --> e>", 1.0, 0.75, 3);
 for i in 4..14 { add("<a --> c>", 1.0, 0.5, i); }
 let m = Arc::clone(&mem.read().shared.read().mem);
 let mut g = m.write();
 NarMem::limitMemory(&mut g, 3);
 assert!(g.concepts.contains_key(&n("a")));''')
B('b11', 'C11', [('src/NarWorkingCycle.rs', '''    if calcExp(&retTv(concl).unwrap()) > qTask.bestAnswerExp { // is the answer potentially better?
        let unifyRes''', '''    let candidateExp = calcExp(&retTv(concl).unwrap());
    if candidateExp > qTask.bestAnswerExp { // is the answer potentially better?
        if checkEqTerm(&concl.term, &qTask.sentence.term) || calcComplexity(&concl.term) > calcComplexity(&qTask.sentence.term) {qTask.bestAnswerExp = candidateExp;}
        let unifyRes''')],
 'a more complex judgement with a high expectation which doesn\'t match the question is looked at before the matching one',
 'a matching answer is never reported',
 '''struct H(std::sync::Mutex<Vec<String>>);
 struct H2(Arc<H>);
 impl QHandler for H2 { fn answer(&mut self, _q: &Term, a: &Sentence) { self.0.0.lock().unwrap().push(convTermToStr(&a.term)); } }
 let h = Arc::new(H(std::sync::Mutex::new(vec![])));
 let mut q = Task2{sentence: newEternalSentenceByTv(&read("<a --> ?x>"), EnumPunctation::QUESTION, &TV{f:1.0,c:0.0}, newStamp(&vec![1])), handler: None, bestAnswerExp: 0.0, prio: 1.0};
 let nar = createNar();
 qaTryAnswer(&mut q, &jud(&read("<<a --> b> ==> <c --> d>>"), 1.0, 0.95, &[2]), &vec![]);
 qaTryAnswer(&mut q, &jud(&read("<a --> b>"), 1.0, 0.8, &[3]), &vec![]);
 assert!(near(q.bestAnswerExp, 0.9), "{}", q.bestAnswerExp);''')
B('b12', 'C12', [('src/NarWorkingCycle.rs', 'if icnt > 50 { //', 'if icnt > 5 { //')],
 'a task which shares a term with more than six other tasks',
 'the conclusions with the other related tasks are missing',
 '''let mut nar = createNar();
 for i in 0..9 { inputT(&mut nar, &inh(n("m"), n(&format!("p{}", i))), EnumPunctation::JUGEMENT, &TV{f:1.0,c:0.9}); }
 inputT(&mut nar, &inh(n("s"), n("m")), EnumPunctation::JUGEMENT, &TV{f:1.0,c:0.9});
 // work on the last one only
 { let m = nar.mem.read(); let sh = m.shared.read(); for t in &sh.judgementTasks { let mut g = t.write(); g.mulCredit = if checkEqTerm(&g.sentence.term, &inh(n("s"), n("m"))) {100.0} else {0.01}; } }
 cycle(&mut nar);
 let has = |i: usize| { let m = nar.mem.read(); let sh = m.shared.read(); let g = sh.mem.read(); g.concepts.contains_key(&inh(n("s"), n(&format!("p{}", i)))) };
 assert!(wait(|| (0..9).all(|i| has(i))));''')
B('b13', 'C13', [('src/NarGoalSystem.rs', '            Tv::calcExp(&retTv(&iv2.sentence).unwrap())*\n            (iv2.desirability as f64).abs()*', '            Tv::calcExp(&retTv(&iv2.sentence).unwrap())*\n            (iv2.desirability as f64).abs().max(0.5)*')],
 'more goals than the limit, some of them satisfied (not desired anymore) and the open ones with a lower expectation',
 'satisfied goals displace open goals when goals are limited',
 '''let nar = createNar();
 let gs = Arc::clone(&nar.procNar.goalSystem);
 for i in 0..20 { NarGoalSystem::addEntry(&gs, &nar.mem.read(), 0, Arc::new(goal(&n(&format!("g{}", i)), 1.0, 0.99, &[i])), None, 0); }
 for i in 0..20 { NarGoalSystem::event_occurred(&mut gs.write(), &n(&format!("g{}", i))); }
 for i in 0..5 { NarGoalSystem::addEntry(&gs, &nar.mem.read(), 0, Arc::new(goal(&n(&format!("h{}", i)), 0.4, 0.5, &[100+i])), None, 0); }
 NarGoalSystem::limitMemory(&gs, &nar.mem.read(), 0);
 let k = NarGoalSystem::retEntries(&gs.read()).iter().filter(|e| convTermToStr(&e.read().sentence.term).starts_with("h")).count();
 assert_eq!(k, 5);''')
B('b14', 'C14', [('src/NarInfProcedural.rs', 'let stamp = NarStamp::merge(&goal.stamp, &belief.stamp);', 'let stamp = if goal.stamp.ids.len() > belief.stamp.ids.len() {NarStamp::newStamp(&goal.stamp.ids)} else {NarStamp::merge(&goal.stamp, &belief.stamp)};')],
 'a subgoal of a subgoal: a goal with more evidence than the used implication',
 'the evidence of the implication is missing in the subgoal, so that it can be used again (circular goals)',
 '''let g = goal(&n("g"), 1.0, 0.9, &[1,2,3]);
 let b = evi(&s(Copula::PREDIMPL, &n("c"), &n("g")), 3, 3, 1, &[7]);
 let r = NarInfProcedural::infGoalBelief(&g, &b).unwrap();
 let mut ids = r.stamp.ids.clone(); ids.sort();
 assert_eq!(ids, vec![1,2,3,7]);''')
B('b15', 'C15', [('src/NarProc.rs', 'let dt:i64 = selTraceItems[selTraceItems.len()-1].occT - selTraceItems[selTraceItems.len()-2].occT;', 'let dt:i64 = traceGuard[traceGuard.len()-1].occT - selTraceItems[selTraceItems.len()-2].occT;')],
 'the event before the last one is the effect and the last event happened much later',
 'the learned implication gets the wrong time interval',
 '''let mut nar = createNar();
 nar.procNar.cfgEnBabbling = false;
 nar.procNar.ops.push(std::rc::Rc::new(Box::new(nar20_1::OpLib::OpNop{name: "^p".to_string()})));
 let ev = |nar: &Nar, t: Term, at: i64| nar.procNar.trace.event_happened(std::rc::Rc::new(NarProc::SimpleSentence{name: t, evi: at, occT: at}));
 ev(&nar, n("a"), 0); ev(&nar, read("<{({SELF}*x)} --> ^p>"), 1); ev(&nar, n("b"), 2); ev(&nar, n("z"), 19);
 nar.procNar.t = 20;
 for _ in 0..50 { NarProc::narStep0(&mut nar.procNar); }
 let want = s(Copula::PREDIMPL, &seq(&vec![n("a"), read("<{({SELF}*x)} --> ^p>")]), &n("b"));
 let mut dts = vec![];
 wait(|| { dts = NarProc::mem_ret_evidence_all_nonunique(&nar.procNar).iter().filter(|e| checkEqTerm(&e.read().term, &want)).map(|e| e.read().expDt.unwrap()).collect(); dts.len() > 0 });
 assert!(dts.len() > 0 && dts.iter().all(|d| *d == NarProc::findMinTableIdx(1, &nar.procNar.expIntervalsTable)), "{:?}", dts);''')
B('b16', 'C16', [('src/NarProc.rs', 'filter(|v| v.deadline <= nar.t)', 'filter(|v| v.deadline < nar.t)')],
 'a deadline which is checked in exactly the step in which it passes',
 'a missed anticipation is removed without counting against the knowledge',
 '''let mut nar = createNar();
 let im = s(Copula::PREDIMPL, &seq(&vec![n("a"), read("<{({SELF}*x)} --> ^p>")]), &n("b"));
 NarProc::mem_add_evidence(Arc::clone(&nar.procNar.evidenceMem), &evi(&im, 5, 5, 0, &[1]), 100, 0, &mut nar.procNar.rng);
 let e = Arc::clone(&NarProc::mem_ret_evidence_all_nonunique(&nar.procNar)[0]);
 nar.procNar.t = 7;
 nar.procNar.anticipatedEvents.push(NarProc::AnticipationEvent{evi: Arc::clone(&e), deadline: 7});
 NarProc::narStep0(&mut nar.procNar);
 assert!(nar.procNar.anticipatedEvents.is_empty());
 match e.read().evi.as_ref().unwrap() { Evidence::CNT{pos, cnt} => assert_eq!((*pos, *cnt), (5, 6)), _ => panic!() };''')
