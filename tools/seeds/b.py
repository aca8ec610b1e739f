B('b17', 'C17', [('src/NarProc.rs', 'let cfg__forwardPredication_steps:i64 = 3;', 'let cfg__forwardPredication_steps:i64 = 2;')],
 'a goal which is reached by two operations one after the other, with no direct knowledge',
 'the operation which is justified by a prediction of two steps is not executed',
 '''let mut nar = createNar();
 nar.procNar.cfgEnBabbling = false;
 for o in ["^p", "^q"] { nar.procNar.ops.push(std::rc::Rc::new(Box::new(nar20_1::OpLib::OpNop{name: o.to_string()}))); }
 let op = |o: &str| read(&format!("<{{({{SELF}}*x)}} --> {}>", o));
 let im = |c: &str, o: &str, e: &str| s(Copula::PREDIMPL, &seq(&vec![n(c), op(o)]), &n(e));
 for (i, t) in [im("a", "^p", "b"), im("b", "^q", "g")].iter().enumerate() { NarProc::mem_add_evidence(Arc::clone(&nar.procNar.evidenceMem), &evi(t, 500, 500, 0, &[50 + i as i64]), 100, 0, &mut nar.procNar.rng); }
 NarGoalSystem::addEntry(&nar.procNar.goalSystem, &nar.mem.read(), 0, Arc::new(goal(&n("g"), 1.0, 0.9998, &[1])), None, 0);
 nar.procNar.cfg__resourceExpectedTime = 0.0;
 nar.procNar.trace.event_happened(std::rc::Rc::new(NarProc::SimpleSentence{name: n("a"), evi: 0, occT: 0}));
 NarProc::narStep0(&mut nar.procNar);
 NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
 let last = nar.procNar.trace.ret_last_events().expect("events");
 assert!(last.iter().any(|e| checkEqTerm(&e.name, &op("^p"))), "{:?}", last.iter().map(|e| convTermToStr(&e.name)).collect::<Vec<_>>());''')
B('b18', 'C18', [('src/OpLib.rs', 'None => {} // ignore', 'None => {return;} // soft error')],
 'a execute-and-inject call whose sequence contains something which isn\'t a operation',
 'the event is not injected and the remaining operations are not called',
 '''let mut nar = createNar();
 nar.procNar.ops.push(std::rc::Rc::new(Box::new(nar20_1::OpLib::OpNop{name: "^p".to_string()})));
 let op = nar20_1::OpLib::Op_nal9__exec_and_inject{};
 use NarProc::Op;
 op.call(&mut nar.procNar, &None, &vec![read("{SELF}"), seq(&vec![n("z"), read("<{({SELF}*x)} --> ^p>")]), n("b")]);
 let last = nar.procNar.trace.ret_last_events();
 assert!(last.is_some() && last.unwrap().iter().any(|e| checkEqTerm(&e.name, &n("b"))));''')
B('b19', 'C19', [('src/NarInputFacade.rs', 'for _i in 0..nCycles {', 'for _i in 0..nCycles.min(200) {')],
 'a command for more than 200 cycles',
 'fewer cycles than requested are done',
 '''let mut nar = createNar();
 let mut q = false;
 let t = || 0;
 let before = nar.mem.read().shared.read().cycleCounter.load(std::sync::atomic::Ordering::SeqCst);
 NarInputFacade::input(&mut nar, &"!s 1".to_string(), &mut q);
 NarInputFacade::input(&mut nar, &"!s300".to_string(), &mut q);
 let after = nar.mem.read().shared.read().cycleCounter.load(std::sync::atomic::Ordering::SeqCst);
 assert_eq!(after - before, 300);''')
B('b20', 'C20', [('src/bin/main.rs', '''            nar20_1::NarUtilReadn::readNarseseFile(&mut nar, &iFilePath, &mut quit);
            if quit {''', '''            nar20_1::NarUtilReadn::readNarseseFile(&mut nar, &iFilePath, &mut quit);
            if quit || iFilepathIdx > 1 {''')],
 'a session which is started with three or more files',
 'the session ends after the third file',
 '''let a: Vec<String> = std::env::args().collect();
 let mut files = vec![];
 for i in 0..4 { let p = format!("{}/f{}.nal", a[1], i); std::fs::write(&p, format!("<f{} --> b>.\\n!s1\\n", i)).unwrap(); files.push(p); }
 let p2 = format!("{}/q.nal", a[1]); std::fs::write(&p2, "<f3 --> b>?\\n!s20\\n!QQ\\n").unwrap();
 let out = std::process::Command::new(&a[2]).arg("it").args(&files).arg(&p2).stdin(std::process::Stdio::null()).output().unwrap();
 let o = String::from_utf8_lossy(&out.stdout).to_string();
 assert!(o.contains("<f3-->b>") || o.contains("<f3 --> b>"), "{}", o);''')
B('b21', 'C21', [('src/NarServer.rs', 'myIdCounter = data.idCounter; // sync up', 'myIdCounter = if data.arr.len() > 1 {data.idCounter - 1} else {data.idCounter}; // sync up')],
 'a client which connects after at least two messages were published',
 'the client receives a message which was published before it connected',
 '''use std::io::{Read, Write};
 let a: Vec<String> = std::env::args().collect();
 struct K(std::process::Child);
 impl Drop for K { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
 let _k = K(std::process::Command::new(&a[2]).arg("srv").stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).spawn().unwrap());
 let con = || { for _ in 0..200 { if let Ok(c) = std::net::TcpStream::connect("127.0.0.1:2039") { c.set_read_timeout(Some(std::time::Duration::from_millis(300))).unwrap(); return c; } std::thread::sleep(std::time::Duration::from_millis(50)); } panic!("no server") };
 let rd = |c: &mut std::net::TcpStream| { let mut o = String::new(); let mut b = [0u8; 4096]; while let Ok(k) = c.read(&mut b) { if k == 0 { break; } o += &String::from_utf8_lossy(&b[..k]); } o };
 let mut c = con();
 for l in ["<a --> b>. {1.0 0.5}", "<a --> ?x>?", "!s30", "<a --> c>. {1.0 0.9}", "!s30", "<a --> d>. {1.0 0.99}", "!s30"] { c.write_all((l.to_string() + "\\n").as_bytes()).unwrap(); }
 let mut got = String::new();
 for _ in 0..40 { c.write_all(b"!s1\\n").unwrap(); got += &rd(&mut c); if got.matches("answer").count() >= 2 { break; } }
 assert!(got.matches("answer").count() >= 2, "no answers: {}", got);
 for _ in 0..5 { c.write_all(b"!s1\\n").unwrap(); got += &rd(&mut c); }
 drop(c);
 let mut c2 = con();
 std::thread::sleep(std::time::Duration::from_millis(300));
 c2.write_all(b"!s1\\n").unwrap();
 let o = rd(&mut c2);
 assert_eq!(o, "");''')
B('b22', 'C22', [('src/NarWorkingCycle.rs', 'let optTasksBySubtermGuard = sharedGuard.judgementTasksByTerm.read();', 'let lookup = Arc::clone(&memGuard.shared.read().judgementTasksByTerm);\n                        let optTasksBySubtermGuard = lookup.read();')],
 'a worker thread which waits for write access to the shared state between two nested read accesses of the cycle (a question is known)',
 'the reasoner deadlocks',
 '''use std::sync::atomic::{AtomicU64, Ordering};
 let prog = Arc::new(AtomicU64::new(0));
 let p2 = Arc::clone(&prog);
 std::thread::spawn(move || { let mut last = u64::MAX; loop { std::thread::sleep(std::time::Duration::from_secs(8)); let v = p2.load(Ordering::SeqCst); if v == last { eprintln!("no progress"); std::process::exit(3); } last = v; } });
 let start = std::time::Instant::now();
 while start.elapsed().as_secs() < 40 {
   let mut nar = createNar();
   inputT(&mut nar, &read("<<(a*b) --> (c*d)> ==> <e --> ?x>>"), EnumPunctation::QUESTION, &TV{f:1.0,c:0.9});
   inputT(&mut nar, &read("<a --> ?x>"), EnumPunctation::QUESTION, &TV{f:1.0,c:0.9});
   for i in 0..12 { inputT(&mut nar, &inh(n(["a","b","c","d"][i % 4]), n(["b","c","d","e","a"][i % 5])), EnumPunctation::JUGEMENT, &TV{f:1.0,c:0.9}); }
   for _ in 0..120 { cycle(&mut nar); prog.fetch_add(1, Ordering::SeqCst); }
 }''')
B('b23', 'C23', [('src/NarWorkingCycle.rs', 'let taskId:i64 = sharedGuard.taskIdCounter.fetch_add(1, Ordering::SeqCst);', 'let taskId:i64 = sharedGuard.taskIdCounter.load(Ordering::SeqCst); sharedGuard.taskIdCounter.store(taskId+1, Ordering::SeqCst);')],
 'two tasks which are added by two threads at the same time',
 'two tasks get the same id, so that one of them is never considered as the partner of another task',
 '''let mut dup = false;
 for round in 0..40 {
   let mem = createMem2(64, 20);
   let ts: Vec<_> = (0..8).map(|k| { let sh = Arc::clone(&mem.read().shared); std::thread::spawn(move || for i in 0..60 { memAddTask(Arc::clone(&sh), &jud(&inh(n(&format!("a{}", k)), n(&format!("b{}", i))), 1.0, 0.9, &[k * 1000 + i]), true, 64, 20, 1.0, 0); }) }).collect();
   for t in ts { t.join().unwrap(); }
   let m = mem.read(); let sh = m.shared.read();
   let mut ids: Vec<i64> = sh.judgementTasks.iter().map(|t| t.read().id).collect();
   let l = ids.len(); ids.sort(); ids.dedup();
   if ids.len() != l { dup = true; }
 }
 assert!(!dup, "duplicate ids");''')
