From 6417081c1a7f7debb278916b771d8e22db2bdbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:09 +0000
Subject: [PATCH 01/37] hook: cfg(vp_mc) controlled threads, channels, clock
 and atomics

---
 src/Nar.rs             |  3 ++-
 src/NarProc.rs         | 12 ++++++++----
 src/NarWorkingCycle.rs | 15 ++++++++++-----
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index 3c761a7..d20d118 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -3,7 +3,8 @@
 
 use std::rc::Rc;
 use std::sync::{Arc};
-use std::sync::atomic::{AtomicI64, Ordering};
+#[cfg(not(vp_mc))] use std::sync::atomic::{AtomicI64, Ordering};
+#[cfg(vp_mc)] use parking_lot::vp::atomic::{AtomicI64, Ordering}; // controlled execution for verification
 use parking_lot::RwLock;
 
 use crate::Tv::*;
diff --git a/src/NarProc.rs b/src/NarProc.rs
index 41d6db7..349df85 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -1,11 +1,15 @@
 use rand::Rng;
-use std::time::{Instant};
+#[cfg(not(vp_mc))] use std::time::{Instant};
+#[cfg(vp_mc)] use parking_lot::vp::time::Instant; // controlled execution for verification
 use std::rc::Rc;
 use std::sync::{Arc};
 use std::sync::atomic::{AtomicBool, Ordering};
-use std::sync::mpsc::{sync_channel, SyncSender};
-use std::thread;
-use std::thread::JoinHandle;
+#[cfg(not(vp_mc))] use std::sync::mpsc::{sync_channel, SyncSender};
+#[cfg(vp_mc)] use parking_lot::vp::mpsc::{sync_channel, SyncSender}; // controlled execution for verification
+#[cfg(not(vp_mc))] use std::thread;
+#[cfg(vp_mc)] use parking_lot::vp::thread; // controlled execution for verification
+#[cfg(not(vp_mc))] use std::thread::JoinHandle;
+#[cfg(vp_mc)] use parking_lot::vp::thread::JoinHandle; // controlled execution for verification
 use parking_lot::RwLock;
 
 use crate::NarStamp::*;
diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 0088f03..34221c1 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1,12 +1,14 @@
 //! implementation of basic working cycle (for declarative reasoner)
 
-use std::thread;
+#[cfg(not(vp_mc))] use std::thread;
+#[cfg(vp_mc)] use parking_lot::vp::thread; // controlled execution for verification
 use rand::Rng;
 use rand::rngs::ThreadRng;
 
 use std::rc::Rc;
 use std::sync::{Arc};
-use std::time::{Instant};
+#[cfg(not(vp_mc))] use std::time::{Instant};
+#[cfg(vp_mc)] use parking_lot::vp::time::Instant; // controlled execution for verification
 
 use crate::Term::Term;
 use crate::Term::Copula;
@@ -1022,9 +1024,12 @@ pub struct DeriverWorkMessage {
 use std::collections::HashMap;
 use std::cell::{RefCell};
 use parking_lot::RwLock;
-use std::thread::JoinHandle;
-use std::sync::mpsc::{SyncSender, sync_channel};
-use std::sync::atomic::{AtomicI64, Ordering};
+#[cfg(not(vp_mc))] use std::thread::JoinHandle;
+#[cfg(vp_mc)] use parking_lot::vp::thread::JoinHandle; // controlled execution for verification
+#[cfg(not(vp_mc))] use std::sync::mpsc::{SyncSender, sync_channel};
+#[cfg(vp_mc)] use parking_lot::vp::mpsc::{SyncSender, sync_channel}; // controlled execution for verification
+#[cfg(not(vp_mc))] use std::sync::atomic::{AtomicI64, Ordering};
+#[cfg(vp_mc)] use parking_lot::vp::atomic::{AtomicI64, Ordering}; // controlled execution for verification
 
 /// shared (memory) state of declarative memory, accessed and modified by worker threads
 /// all other memory is in nonshared portion!
-- 
2.43.0


From 04702e44041b3f99384ffe830d2a9f8bd839fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:34 +0000
Subject: [PATCH 02/37] fix: Narsese parser crashed on non-ASCII text and
 malformed truth values, accepted values outside of [0;1]

---
 src/NarseseParser.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f14a838..304a4ea 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -22,23 +22,19 @@ use crate::TermApi::*;
 pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   *tv = Tv{f:1.0,c:0.9}; // set TV to default
   
-  if narsese.len() > 0 && narsese.chars().nth(narsese.len()-1).unwrap() == '}' {
-    for revIdx in 1..narsese.len() { // scan for '{'
-      let idx = narsese.len() - revIdx; // compute index from back
-      
-      if narsese.chars().nth(idx).unwrap() == '{' {
-        let tvStr = &narsese[idx+1..narsese.len()-1];
-        let splitted:Vec<&str> = tvStr.split(" ").collect();
-        
-        if splitted.len() == 2 { // must have two values
-          // TODO< handle error better >
-          let f = splitted[0].parse::<f64>().unwrap();
-          let c = splitted[1].parse::<f64>().unwrap();
-          *narsese = narsese[..idx].to_string(); // cut away
+  if !narsese.ends_with('}') {
+    return;
+  }
+  if let Some(idx) = narsese.rfind('{') {
+    let splitted:Vec<&str> = narsese[idx+1..narsese.len()-1].split(" ").collect();
+
+    if splitted.len() == 2 { // must have two values
+      if let (Ok(f), Ok(c)) = (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
+        let isValid = |v:f64| v >= 0.0 && v <= 1.0; // is false for NaN
+        if isValid(f) && isValid(c) {
           *tv = Tv{f:f,c:c};
-          return;
+          *narsese = narsese[..idx].to_string(); // cut away
         }
-        return;
       }
     }
   }
@@ -73,8 +69,8 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
     return None; // can't parse empty string!
   }
   
-  let punctationChar = narsese2.chars().nth(narsese2.len()-1).unwrap();
-  let narseseInner = narsese2[..narsese2.len()-1].to_string();
+  let punctationChar = narsese2.chars().last().unwrap();
+  let narseseInner = narsese2[..narsese2.len()-punctationChar.len_utf8()].to_string();
   
   let punctation = match punctationChar {
     '.' => {EnumPunctation::JUGEMENT},
-- 
2.43.0


From 2a06c77f524f81ee22ef0398b748916790b5e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:36 +0000
Subject: [PATCH 03/37] fix: reject Narsese with text which isn't part of the
 term instead of ignoring it

---
 src/NarseseParser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 304a4ea..a1e2dd2 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -86,7 +86,10 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
   let parsed:IResult<&str, Term> = parseEntry(&narseseInner);
 
   match parsed {
-    Ok((_str2, term)) => {
+    Ok((rest, term)) => {
+      if !rest.trim().is_empty() {
+        return None; // there is text which isn't part of the term
+      }
       Some((term, tv, punctation, isEvent))
     },
     Err(_) => {
-- 
2.43.0


From 75cac09affcddd1ef9c086f074b39965634aab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:38 +0000
Subject: [PATCH 04/37] fix: revision with confidence 1.0 computed NaN

---
 src/Tv.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tv.rs b/src/Tv.rs
index 22ddb51..2e72dab 100644
--- a/src/Tv.rs
+++ b/src/Tv.rs
@@ -70,6 +70,7 @@ pub fn w2c(w:f64) -> f64 {
 
 pub fn c2w(c:f64) -> f64 {
     let h=1.0;
+    let c = c.min(1.0 - 1.0e-9); // weight of c=1.0 would be infinite, which leads to NaN in revision
     h * c / (1.0 - c)
 }
 
-- 
2.43.0


From b03d927ed0190485252c8ae16a4d1326b914b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:25 +0000
Subject: [PATCH 05/37] fix: truth values of the premises were exchanged when
 rules are applied to the swapped premises

---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 34221c1..b9f41af 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -743,7 +743,7 @@ pub fn infBinary(a: &Term, aPunct:EnumPunctation, aTv:&Option<Tv>, b: &Term, bPu
     let mut res = vec![];
     *wereRulesApplied = false; // because no rules were applied yet
     res.extend(infBinaryInner(&a, aPunct, &aTv, &b, bPunct, &bTv, wereRulesApplied).iter().cloned());
-    res.extend(infBinaryInner(&b, bPunct, &aTv, &a, aPunct, &bTv, wereRulesApplied).iter().cloned());
+    res.extend(infBinaryInner(&b, bPunct, &bTv, &a, aPunct, &aTv, wereRulesApplied).iter().cloned());
     res
 }
 
-- 
2.43.0


From 0ef9923e1779641b2f31a36a125779a372dd4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:26 +0000
Subject: [PATCH 06/37] fix: product to image transformation dropped components
 of products with more than two components

---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index b9f41af..05a60ab 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -139,7 +139,7 @@ pub fn infStructProd0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
     match a {
         Term::Stmt(Copula::INH, prod, pred) => {
             match &**prod {
-                Term::Prod(arr) => {
+                Term::Prod(arr) if arr.len() == 2 => {
                     let prod0 = &arr[0];
                     let prod1 = &arr[1];
 
-- 
2.43.0


From 799b6a1ee4b4d73e02d305406e721d76031675b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:28 +0000
Subject: [PATCH 07/37] fix: eternal questions were rejected and temporal
 questions were never answered

---
 src/Nar.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index d20d118..6fe2e4f 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -46,9 +46,13 @@ pub fn createNar() -> Nar {
     let cfg__nConceptBeliefs = 20;
     let cfg__maxComplexity = 64;
 
+    let procNar = NarProc::narInit();
+    let mem = createMem2(cfg__maxComplexity, cfg__nConceptBeliefs);
+    mem.read().shared.write().procMem = Arc::clone(&procNar.evidenceMem); // link up procedural memory for temporal Q&A
+
     Nar{
-        procNar:NarProc::narInit(),
-        mem:createMem2(cfg__maxComplexity, cfg__nConceptBeliefs),
+        procNar:procNar,
+        mem:mem,
         currentTime:AtomicI64::new(0),
         cfgVerbosityInput:0, // enable verbose input by default
         cfg__nConceptBeliefs:cfg__nConceptBeliefs,
@@ -97,8 +101,7 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
 
     if isTemporal {
         if punct == EnumPunctation::QUESTION { // temporal Q&A
-            // quesion was already added
-            //memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
+            memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
         else if punct == EnumPunctation::JUGEMENT {
             // add to temporal knowledge
@@ -115,12 +118,9 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
         if punct == EnumPunctation::GOAL {
             println!("ERR : eternal goals are not supported!");
         }
-        else if punct == EnumPunctation::JUGEMENT {
+        else { // judgement or question
             memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
-        else {
-            println!("ERR : form is not supported!");
-        }
     }
 }
 
-- 
2.43.0


From 876410ca63228c03fbb7bf7e016e6453c3883beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:29 +0000
Subject: [PATCH 08/37] fix: command facade crashed on non-ASCII lines and
 malformed cycle counts, !spA and !spB did a full step

---
 src/NarInputFacade.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 5807805..3b6e507 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -25,11 +25,17 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     trimNewline(&mut input);
 
     // TODO< trim comment by // away   >
-    if input.len() >= 2 && &input[..2] == "//" { // is commented line?
+    if input.starts_with("//") { // is commented line?
         // ignore
     }
     
-    else if input.len() >= 3 && &input[..3] == "!sp" { // step procedural
+    else if input == "!spA" { // step procedural A
+        NarProc::narStep0(&mut nar.procNar);
+    }
+    else if input == "!spB" { // step procedural B
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
+    }
+    else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
         //    // TODO< check if it was parsed fine! >
@@ -39,17 +45,16 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         NarProc::narStep0(&mut nar.procNar);
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input == "!spA" { // step procedural A
-        NarProc::narStep0(&mut nar.procNar);
-    }
-    else if input == "!spB" { // step procedural B
-        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
-    }
-    else if input.len() >= 2 && &input[..2] == "!s" {
+    else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-            // TODO< check if it was parsed fine! >
-            nCycles = input[2..].parse::<i64>().unwrap();
+            match input[2..].parse::<i64>() {
+                Ok(n) => {nCycles = n;},
+                Err(_) => {
+                    println!("ERR - couldn't parse!");
+                    return retInfo;
+                }
+            }
         }
         for _i in 0..nCycles {
             cycle(nar);
@@ -58,7 +63,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!dtf" { // delcarative tasks flush
         flushTasks(&*nar.mem.read());
     }
-    else if input.len() >= 5 && &input[..5] == "!por " { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
+    else if input.starts_with("!por ") { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
         let args:Vec<&str> = input[5..].split_whitespace().collect();
         if args.len() == 1 {
             let argOpType:String = args[0].to_string();
@@ -95,7 +100,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         nar.procNar.cfgEnBabbling = true;
     }
 
-    else if input.len() > 6 && &input[..6] == "!.nlp " {
+    else if input.len() > 6 && input.starts_with("!.nlp ") {
         let natural = &input[6..].to_string();
         NarModuleNlp3::process(nar, &natural);
     }
-- 
2.43.0


From ed12cbad1639492d4f497a90455441786638a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 09/37] fix: possible deadlock when tasks are listed while the
 deriver adds tasks

---
 src/NarWorkingCycle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 05a60ab..0bd7b58 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1986,7 +1986,8 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
     
     // debug credit of tasks
     {
-        for iTask in &mem.shared.read().judgementTasks {
+        let sharedGuard = mem.shared.read(); // must be locked just once, recursive read lock leads to a deadlock if a writer waits
+        for iTask in &sharedGuard.judgementTasks {
             let taskSentenceAsStr = convSentenceTermPunctToStr(&iTask.read().sentence, true);
             
             let mut taskAsStr = taskSentenceAsStr.clone();
@@ -1996,7 +1997,7 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
                 taskAsStr = format!("{} {}", taskAsStr, NarStamp::convToStr(&iTask.read().sentence.stamp));
             }
 
-            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), mem.shared.read().cycleCounter.load(Ordering::Relaxed))));
+            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), sharedGuard.cycleCounter.load(Ordering::Relaxed))));
         }
     }
 
-- 
2.43.0


From 1e5b5cf77edb02505993a863da6947f995c25fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:18 +0000
Subject: [PATCH 10/37] fix: crash while a variable name for the variable
 introduction was drawn

---
 src/NarInfProcedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index c3e861f..cc7d768 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -218,7 +218,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
 fn create_random_varname(rng: &mut rand::rngs::ThreadRng) -> Term {
     let mut name: String = "Q".to_string();
     for _i in 0..24 {
-        let v = "012456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
+        let v = "0123456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
         name += &v.to_string();
     }
     Term::IndepVar(name)
-- 
2.43.0


From 08773cf97c3b2c1253615d3ee2234b8d49c9d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:20 +0000
Subject: [PATCH 11/37] fix: same goal was stored multiple times and op goals
 were counted twice when the goals are limited

---
 src/NarGoalSystem.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index c377a02..8ca4e1d 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -266,6 +266,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         // * so we have to find the group with the same term if the group exists and add it there or
         // * add it as a new group
         
+        let mut isInGroup = false; // is it already added to a existing group?
         { // try to search for group by e.sentence.term
             for iGroup in &mut chosenBatch.groups { // iterate over groups by term
                 if checkEqTerm(&iGroup.term, &e.read().sentence.term) { // found entry?
@@ -273,17 +274,20 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     e.write().accDesirability = newAcc; // update
     
                     iGroup.entries.push(Arc::clone(&e)); // add entry
-                    return;
+                    isInGroup = true;
+                    break;
                 }
             }
         }
     
-        { // case to add it as a new group
-            chosenBatch.groups.push(EntryFoldedByTerm {
-                    term:(*(e.read().sentence.term)).clone(),
-                    entries:vec![Arc::clone(&e)],
-                }
-            );
+        { // case to add it as a new group and to the index by term
+            if !isInGroup {
+                chosenBatch.groups.push(EntryFoldedByTerm {
+                        term:(*(e.read().sentence.term)).clone(),
+                        entries:vec![Arc::clone(&e)],
+                    }
+                );
+            }
 
             match goalSystem.write().entriesByTerm.get_mut(&e.read().sentence.term) {
                 Some(arr) => {
@@ -292,7 +296,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     for iItem in arr.read().iter() {
                         let borrowedItem = iItem.read();
                         if checkEqTerm(&borrowedItem.sentence.term, &e.read().sentence.term) && 
-                           NarStamp::checkOverlap(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
+                           NarStamp::checkSame(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
                             exists = true;
                             break; // OPT
                         }
@@ -439,10 +443,6 @@ fn checkSetContains(set: &Vec< Arc<RwLock<Entry>> >, s: &Sentence) -> bool {
 pub fn limitMemory(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, t: i64) {
     let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries
     
-    for iv in &goalSystem.read().activeSet.set {
-        arr.push(Arc::clone(&iv));
-    }
-
     dbg(&format!("nEntries={}", arr.len()));
 
     // * recalc utility
-- 
2.43.0


From 07c07754b5729d4dffc8298aa6d73988a050de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:45 +0000
Subject: [PATCH 12/37] fix: goals were not sampled by desirability, satisfied
 goals were still sampled

---
 src/NarGoalSystem.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 8ca4e1d..723485d 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -282,6 +282,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
     
         { // case to add it as a new group and to the index by term
             if !isInGroup {
+                e.write().accDesirability = 0.0; // is the first entry of the group
                 chosenBatch.groups.push(EntryFoldedByTerm {
                         term:(*(e.read().sentence.term)).clone(),
                         entries:vec![Arc::clone(&e)],
@@ -557,7 +558,7 @@ pub fn sample(goalSystem: &GoalSystem, rng: &mut rand::rngs::ThreadRng) -> Optio
         if des2+sum > selPriority { // is the range of the selection inside this "group"?
 
             use crate::BinSearch::binSearch;
-            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority);
+            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority-sum); // is relative to the group
             let selEntry2 = selEntry3.read();
             selEntry = Some((Arc::clone(&selEntry2.sentence), selEntry2.depth));
             break;
@@ -833,6 +834,18 @@ pub fn event_occurred(goalSystem: &mut GoalSystem, eventTerm:&Term) {
         }
     }
 
+    // the desirability of entries may have changed, so the accumulated desirability has to be updated
+    for iBatch in &goalSystem.batchesByDepth {
+        for iGroup in &iBatch.read().groups {
+            let mut acc:f64 = 0.0;
+            for iEntry in &iGroup.entries {
+                let mut iEntry2 = iEntry.write();
+                iEntry2.accDesirability = acc;
+                acc += iEntry2.desirability.max(0.0) as f64;
+            }
+        }
+    }
+
     for iEntityRc in &goalSystem.activeSet.set {
         let mut iEntity = iEntityRc.write();
         if goalSystem.cfg__enGoalSatisfaction && // do we want to satisfy goals?
-- 
2.43.0


From d303ad47f67db4d30cb55a1f305a072e049d7a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:06 +0000
Subject: [PATCH 13/37] fix: crash of input or of the storage worker for
 temporal knowledge given by the user

---
 src/NarProc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 349df85..d94e8bf 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -407,7 +407,7 @@ pub fn narInit() -> ProcNar {
                         
                         if !checkOverlap(&iEE.stamp, &evidenceSentence.stamp) { // evidence must no overlap!
                             if
-                                iEE.expDt.unwrap() >= evidenceSentence.expDt.unwrap() && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
+                                iEE.expDt.is_some() && iEE.expDt.unwrap() >= evidenceSentence.expDt.unwrap() && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
                                 
                                 // does impl seq match?
                                 checkEqTerm(&iEE.term, &evidenceSentence.term)
@@ -1119,7 +1119,7 @@ pub fn retSeqCond(term:&Term) -> Term {
                 Term::Seq(seq) => {
                     *seq[0].clone()
                 },
-                _ => {panic!("expected seq!");}
+                _ => {(**subj).clone()} // not a sequence, the condition is the subject itself
             }
         },
         _ => {panic!("expected pred impl!");}
-- 
2.43.0


From 0b0385039b7f0b2fb7615ce5d8365a27f6aa55da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:08 +0000
Subject: [PATCH 14/37] fix: crash of decision making when the sequence of the
 best goal doesn't end with a op

---
 src/NarProc.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index d94e8bf..7792057 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -829,7 +829,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
 
         match bestEntry2 {
             Some(bestEntry3) => {
-                if bestEntry3.exp > nar.cfgDescnThreshold {
+                if bestEntry3.exp > nar.cfgDescnThreshold && is_seqAndLastOp(&bestEntry3.unifiedSeq) { // can only decide to execute if last is a op
                     match bestEntry3.evidence {
                         Some(evidence) => {
                             
@@ -839,7 +839,6 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
 
                             // extract op of seq
                             enforce(is_seq(&bestEntry3.unifiedSeq)); // must be sequence
-                            enforce(is_seqAndLastOp(&bestEntry3.unifiedSeq)); // last must be op!
                             let opTerm:Term = retSeqLast(&bestEntry3.unifiedSeq);
                             
                             
-- 
2.43.0


From 00196c3942e121bda821243197b1335a88e732e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:09 +0000
Subject: [PATCH 15/37] fix: derivative of division was wrong

---
 src/ad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ad.rs b/src/ad.rs
index e9cfdf6..61363ac 100644
--- a/src/ad.rs
+++ b/src/ad.rs
@@ -20,7 +20,7 @@ pub fn mul(a: &Ad,b: &Ad) -> Ad {
 }
 
 pub fn div(a: &Ad,b: &Ad) -> Ad {
-    let z=a.r*b.d+a.d*b.r;
+    let z=a.d*b.r-a.r*b.d;
     Ad{r:a.r/b.r,d:z/(b.r*b.r)}
 }
 
-- 
2.43.0


From 32386321b1723a99138309a2b4e274b85de76a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:11 +0000
Subject: [PATCH 16/37] fix: crash of the chaos environment

---
 src/ProcChaosEntry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProcChaosEntry.rs b/src/ProcChaosEntry.rs
index 218c733..5ae621e 100644
--- a/src/ProcChaosEntry.rs
+++ b/src/ProcChaosEntry.rs
@@ -39,7 +39,7 @@ pub fn procChaosEntry() {
 
         nar.procNar.trace.event_happened( Rc::new(NarProc::SimpleSentence {name:Term::Name(format!("{}",t)),evi:nar.procNar.t,occT:nar.procNar.t}) );
 
-        NarProc::narStep1(&mut nar.procNar, &None);
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
         
         
         
-- 
2.43.0


From e879d0f693284396d3a97a3ae77940c8f823c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:13 +0000
Subject: [PATCH 17/37] fix: interactive session did repeat the last input
 forever at the end of the input

---
 src/NarInteractive.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/NarInteractive.rs b/src/NarInteractive.rs
index 630dae7..c4177cd 100644
--- a/src/NarInteractive.rs
+++ b/src/NarInteractive.rs
@@ -12,6 +12,7 @@ pub fn runInteractive(nar:&mut Nar) {
     loop {
         let mut input2 = String::new();
         match io::stdin().read_line(&mut input2) {
+            Ok(0) => {break;}, // end of input, the session is closed
             Ok(_) => {
                 let mut input = input2.clone();
                 trimNewline(&mut input);
-- 
2.43.0


From cc20714440cce3e13dd5b4c007c6396a282039c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:14 +0000
Subject: [PATCH 18/37] fix: ^nlpRel0 dropped components of products with more
 than two components

---
 src/OpLib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpLib.rs b/src/OpLib.rs
index cbda5f8..545349e 100644
--- a/src/OpLib.rs
+++ b/src/OpLib.rs
@@ -104,7 +104,7 @@ impl NarProc::Op for Op__nlp_rel_0 {
         let rewrittenRel:Term = match rel.clone() {
             Term::Stmt(Copula::INH, subj, pred) => {
                 match *subj {
-                    Term::Prod(arr) => {
+                    Term::Prod(arr) if arr.len() == 2 => {
                         let right:Term = (*arr[1]).clone();
                         let rewrittenRight:Term = match right {
                             Term::Seq(arr) if arr.len() == 3 && checkEqTerm(&arr[1], &Term::Name("and".to_string())) => {
-- 
2.43.0


From 84809140d164399fe0ebf12839ef8c13172a36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:16 +0000
Subject: [PATCH 19/37] fix: server did send messages multiple times to a
 client and kept all answers

---
 src/NarServer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index f15ebd2..6fffd4e 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -58,7 +58,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
             let data = global.lock().unwrap(); // unwrap to panic if it can't unlock
             for iItem in &data.arr { // iterate over global items and send to writer
                 if iItem.0 >= myIdCounter { // is it a message which this tread didn't yet observe?
-                    myIdCounter = iItem.0; // update counter so the message is next time ignored
+                    myIdCounter = iItem.0+1; // update counter so the message is next time ignored
                     let bcastedMsg:String = iItem.1.clone(); // copy broadcasted string to local variable
                     toSend.push(bcastedMsg);
                 }
@@ -154,6 +154,12 @@ impl QHandler for QHandlerImpl {
         let idCounter = data.idCounter;
         data.arr.push((idCounter, msg.clone()));
         data.idCounter+=1;
+
+        // limit size of data
+        let dataMaxLength = 50;
+        if data.arr.len() > dataMaxLength {
+            data.arr = data.arr[data.arr.len()-dataMaxLength..].to_vec();
+        }
     }
 }
 
-- 
2.43.0


From e80d2a8ba1d589089ad64d2c50273d57396104dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:28 +0000
Subject: [PATCH 20/37] fix: variable introduction ignored the relation of
 images

---
 src/NarInfProcedural.rs | 2 +-
 src/Term.rs             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index cc7d768..1e8eb36 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -180,7 +180,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
                 for i in elements {
                     arr.push(Box::new(helper(i, repl, with)));
                 }
-                Term::Img(Box::new((**rel).clone()),*idx,arr)
+                Term::Img(Box::new(helper(rel, repl, with)),*idx,arr)
             },
             Term::IntInt(elements) => {
                 let mut arr = vec![];
diff --git a/src/Term.rs b/src/Term.rs
index 61b0cf1..e9f52de 100644
--- a/src/Term.rs
+++ b/src/Term.rs
@@ -601,7 +601,7 @@ pub fn count_occurence_subterms(t: &Term, searched: &Term) -> i64 {
             n
         },
         Term::Img(rela,idxa,elementsa) => {
-            let mut n = 0;
+            let mut n = count_occurence_subterms(rela, searched);
             for idx in 0..elementsa.len() {
                 n += count_occurence_subterms(&elementsa[idx], searched);
             }
-- 
2.43.0


From 90f4a0c25f6337787a71b80b5134ee5cf32257c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:29 +0000
Subject: [PATCH 21/37] hook: cfg(vp_mc) entry to serve one connection

---
 src/NarServer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index 6fffd4e..8878d5c 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -163,3 +163,8 @@ impl QHandler for QHandlerImpl {
     }
 }
 
+/// serves one connection, entry for verification
+#[cfg(vp_mc)]
+pub fn vp_serve(stream: std::net::TcpStream, tx: Sender<String>, global:Arc<Mutex<Global>>) {
+    let _ = task::block_on(connectionLoop(TcpStream::from(stream), tx, global));
+}
-- 
2.43.0


From da248873b321d97adddaebce16328bb7383a565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:00 +0000
Subject: [PATCH 22/37] fix: names with non-ASCII letters swallowed the
 following characters

---
 src/NarseseParser.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index a1e2dd2..9b712e5 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -1,8 +1,7 @@
 
 use nom::{
   IResult,
-  bytes::complete::{tag, take_while_m_n},
-  combinator::map_res,
+  bytes::complete::{tag, take_while1},
   //Err,
 //  sequence::tuple,
 //  take_while,
@@ -479,19 +478,14 @@ mod tests {
 
 
 
-fn ok1(input: &str) -> Result<&str, std::num::ParseIntError> {
-  Ok(input)
-}
-
 fn isValidSign(c: char) -> bool {
   c.is_alphanumeric() || c == '-' || c == '_' || c == '^'
 }
 
 fn alpha2(input: &str) -> IResult<&str, &str> {
-  map_res(
-    take_while_m_n(1, 512, isValidSign),
-    ok1
-  )(input)
+  let (_, name) = take_while1(isValidSign)(input)?;
+  let len:usize = name.chars().take(512).map(|c| c.len_utf8()).sum(); // limit length of name, in bytes because chars can have multiple bytes
+  Ok((&input[len..], &input[..len]))
 }
 
 fn a(input:&str)  -> IResult<&str, Term> {
-- 
2.43.0


From 6e05b267bab9e1240b81b0b8404dc2d4f6dac021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:17 +0000
Subject: [PATCH 23/37] fix: negative evidence of missed anticipations was only
 added to one copy of the knowledge

---
 src/NarProc.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 7792057..f2f9a99 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -514,6 +514,26 @@ pub fn mem_ret_evidence_all_nonunique(procNar:&ProcNar) -> Vec<Arc<RwLock<Senten
     res
 }
 
+/// returns the evidence together with all of its copies, because a piece of evidence is stored as a copy in each table of each concept
+fn ret_copies_of_evidence(procNar:&ProcNar, evidence:&Arc<RwLock<Sentence>>) -> Vec<Arc<RwLock<Sentence>>> {
+    let mut res = vec![Arc::clone(evidence)];
+    let (term, stamp, expDt) = {
+        let guard = evidence.read();
+        (Arc::clone(&guard.term), guard.stamp.clone(), guard.expDt)
+    };
+    let evidenceMemGuard = procNar.evidenceMem.read();
+    for iBelief in NarMem::ret_beliefs_by_terms_nonunique(&evidenceMemGuard, &[retSeqCond(&term), retPred(&term)]) {
+        let isCopy = {
+            let guard = iBelief.read();
+            checkEqTerm(&guard.term, &term) && guard.expDt == expDt && checkSame(&guard.stamp, &stamp)
+        };
+        if isCopy && !res.iter().any(|iv| Arc::ptr_eq(iv, &iBelief)) { // must not be counted twice
+            res.push(iBelief);
+        }
+    }
+    res
+}
+
 /// helper which tries to build a impl seq out of events
 /// ex: [a, b, c]  returns (a, b) =/> c
 pub fn try_build_implSeq(nar:&ProcNar, events:&[Term]) -> Option<Term> {
@@ -565,7 +585,8 @@ pub fn narStep0(nar:&mut ProcNar) {
     { // neg confirm for anticipated events
         {
             for iDeadlineViolated in nar.anticipatedEvents.iter().filter(|v| v.deadline <= nar.t) {
-                let mut mutEviGuard = iDeadlineViolated.evi.write();
+              for iEvi in ret_copies_of_evidence(&nar, &iDeadlineViolated.evi) {
+                let mut mutEviGuard = iEvi.write();
                 
                 // KEYWORD< neg-confirm >
                 if false {match mutEviGuard.evi.as_ref().unwrap() {
@@ -588,6 +609,7 @@ pub fn narStep0(nar:&mut ProcNar) {
                     },
                     _ => {panic!("expected CNT!");}
                 }}
+              }
             }
         }
         
-- 
2.43.0


From 199a44bcf01608e3ebc70c66e8ea67a44c9564d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:31 +0000
Subject: [PATCH 24/37] fix: evidence was lost when two threads added the same
 statement at the same time

---
 src/NarWorkingCycle.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 0bd7b58..4a58028 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1421,7 +1421,7 @@ pub fn populateTaskByTermLookup(judgementTasksByTerm:Arc<RwLock< HashMap<Term, V
 /// tries to revise the belief if possible
 ///
 /// returns Some with the conclusion if it has done revision
-pub fn memReviseBelief(mem:Arc<RwLock<NarMem::Mem>>, sentence:&Sentence) -> Option<Sentence> {
+pub fn memReviseBelief(mem:&mut NarMem::Mem, sentence:&Sentence) -> Option<Sentence> {
     // MECHANISM< belief revision
     // revises beliefs if the term matches and if the stamps don't overlap
     // >
@@ -1435,7 +1435,7 @@ pub fn memReviseBelief(mem:Arc<RwLock<NarMem::Mem>>, sentence:&Sentence) -> Opti
         EnumPunctation::JUGEMENT => {
             
             for iTerm in retSubterms(&*sentence.term) { // enumerate all terms, we need to do this to add the sentence to all relevant names
-                match mem.write().concepts.get_mut(&iTerm.clone()) {
+                match mem.concepts.get_mut(&iTerm.clone()) {
                     Some(arcConcept) => {
                         match Arc::get_mut(arcConcept) {
                             Some(concept) => {
@@ -1540,20 +1540,26 @@ pub fn memAddTask(shared:Arc<RwLock<DeclarativeShared>>, sentence:&Sentence, cal
 
     let mut toAddToTasks = vec![sentence.clone()];
     
-    // try to revise
-    let revisionConcl:Option<Sentence> = memReviseBelief(Arc::clone(&shared.read().mem), sentence);
-    let wasRevised = revisionConcl.is_some();
-    match revisionConcl {
-        Some(revConcl) => {
-            toAddToTasks.push(revConcl.clone());
-        },
-        None => {}
-    }
+    {
+        // revision and storage must be done under a single lock, else we lose evidence if another thread adds the same statement at the same time
+        let memArc = Arc::clone(&shared.read().mem);
+        let mut memGuard = memArc.write();
+
+        // try to revise
+        let revisionConcl:Option<Sentence> = memReviseBelief(&mut memGuard, sentence);
+        let wasRevised = revisionConcl.is_some();
+        match revisionConcl {
+            Some(revConcl) => {
+                toAddToTasks.push(revConcl.clone());
+            },
+            None => {}
+        }
 
 
-    if !wasRevised {
-        // add it only if it wasn't revised
-        NarMem::storeInConcepts(&mut shared.read().mem.write(), sentence, cfg__nConceptBeliefs, currentTime); // store sentence in memory, adressed by concepts
+        if !wasRevised {
+            // add it only if it wasn't revised
+            NarMem::storeInConcepts(&mut memGuard, sentence, cfg__nConceptBeliefs, currentTime); // store sentence in memory, adressed by concepts
+        }
     }
 
     for iToAddToTasks in &toAddToTasks {
-- 
2.43.0


From 74eea741fcf088ed3d797b4b90b3853c2f685e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:34 +0000
Subject: [PATCH 25/37] fix: reading of nested compounds takes linear instead
 of exponential time

---
 src/NarseseParser.rs | 249 +++++--------------------------------------
 1 file changed, 27 insertions(+), 222 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 9b712e5..8bb2b2c 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -540,27 +540,7 @@ fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
   }
 
   {
-    let res0 = parseSeq(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseIntInt2(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseExtInt2(input);
+    let res0 = parseCompound(input);
     match res0 {
       Ok(term) => {
         return Ok(term.clone())
@@ -589,64 +569,6 @@ fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
     }
   }
 
-  {
-    let res0 = parseProd(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseImg0(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseImg1(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseConj2(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-  {
-    let res0 = parseConj3(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-  {
-    let res0 = parseConj4(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
   {
     let res0 = parseStatement(input);
     match res0 {
@@ -762,101 +684,24 @@ pub fn parseNeg(input: &str) -> IResult<&str, Term> {
   Ok((input, Term::Neg(Box::new(a.clone()))))
 }
 
-pub fn parseSeq(input: &str) -> IResult<&str, Term> {
-  let mut subterms = vec![];
-
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  subterms.push(a.clone());
-  let (input, _) = tag(",")(input)?;
-  let (mut input, b) = parseSubjOrPred(input, true)?;
-  subterms.push(b.clone());
-
-  loop { // loop for more sub-terms
-    let res0: IResult<&str, &str> = tag(",")(input);
-    match res0 {
-      Ok((input2, _)) => {
-        input = input2;
-      },
-      Err(_) => {
-        break;
-      },
-    };
-
-    let (input2, subterm) = parseSubjOrPred(input, true)?;
-    input = input2;
-    subterms.push(subterm.clone());
-  }
-
-  let (input2, _) = tag(")")(input)?;
-  input = input2;
-  Ok((input, seq(&subterms)))
-}
-
-
-pub fn parseExtInt2(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&")(input)?;
-  let (input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, Term::ExtInt([&a,&b].iter().map(|v| Box::new((*v).clone())).collect())))
-}
-pub fn parseIntInt2(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;//parse0(input)?;
-  let (input, _) = tag("|")(input)?;
-  let (input, b) = parseSubjOrPred(input, true)?;//parse0(input)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, Term::IntInt([&a,&b].iter().map(|v| Box::new((*v).clone())).collect())))
-}
-
-
-// parses product with two components
-pub fn parseProd(input: &str) -> IResult<&str, Term> {
+/// parses sequence, product, intersection, conjunction or image
+///
+/// the first component is parsed only once, the separator after it decides which compound it is. Trying the
+/// compounds one after the other would take exponential time for nested compounds
+pub fn parseCompound(input: &str) -> IResult<&str, Term> {
   let (input, _) = tag("(")(input)?;
-  let mut subterms = vec![];
   let (input, a) = parseSubjOrPred(input, true)?;
-  subterms.push(a.clone());
-  let (input, _) = tag("*")(input)?;
-  
-  /*
-  let mut type_:Option<&str> = None;
 
-  {
-    let res0 = conStar(input);
-    match res0 {
-      Ok((_,X)) => {
-        type_ = Some(X);
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  *
-  if !type_.is_some() {
-    let res0 = conConj(input);
-    match res0 {
-      Ok((_,X)) => {
-        type_ = Some(X);
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-  *
-
-  if !type_.is_some() {
-    return Err(nom::Err::Incomplete(nom::Needed::Unknown)); // propagate error
-  }
+  let separators = [",", "*", "|", "&&", "&", " /1 ", " /2 "];
+  let separator:&str = match separators.iter().find(|v| input.starts_with(**v)) {
+    Some(separator) => separator,
+    None => {return Err(nom::Err::Error(nom::error::Error::new(input, nom::error::ErrorKind::Tag)));} // isn't a compound
+  };
   
-  */
-
-
-  let (mut input, b) = parseSubjOrPred(input, true)?;
-  subterms.push(b.clone());
-
-  loop { // loop for more sub-terms
-    let res0: IResult<&str, &str> = tag("*")(input);
+  let mut subterms = vec![a];
+  let mut input = input;
+  loop { // loop for sub-terms
+    let res0: IResult<&str, &str> = tag(separator)(input);
     match res0 {
       Ok((input2, _)) => {
         input = input2;
@@ -868,62 +713,22 @@ pub fn parseProd(input: &str) -> IResult<&str, Term> {
 
     let (input2, subterm) = parseSubjOrPred(input, true)?;
     input = input2;
-    subterms.push(subterm.clone());
+    subterms.push(subterm);
   }
 
   let (input2, _) = tag(")")(input)?;
-  input = input2;
-  Ok((input, p(&subterms)))
-}
 
-// parse image
-pub fn parseImg0(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(" /1 ")(input)?;
-  let (mut input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, Term::Img(Box::new(a.clone()), 0, vec![Box::new(b.clone())])))
-}
-pub fn parseImg1(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(" /2 ")(input)?;
-  let (mut input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, Term::Img(Box::new(a.clone()), 1, vec![Box::new(b.clone())])))
-}
-
-// parses product with two components
-pub fn parseConj2(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, conj(&vec![a, b])))
-}
-pub fn parseConj3(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, c) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, conj(&vec![a, b, c])))
-}
-pub fn parseConj4(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, c) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, d) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, conj(&vec![a, b, c, d])))
+  let boxed = |terms:&[Term]| -> Vec<Box<Term>> {terms.iter().map(|v| Box::new(v.clone())).collect()};
+  match (separator, subterms.len()) {
+    (",", _) => Ok((input2, seq(&subterms))),
+    ("*", _) => Ok((input2, p(&subterms))),
+    ("|", 2) => Ok((input2, Term::IntInt(boxed(&subterms)))),
+    ("&", 2) => Ok((input2, Term::ExtInt(boxed(&subterms)))),
+    ("&&", 2..=4) => Ok((input2, conj(&subterms))),
+    (" /1 ", 2) => Ok((input2, Term::Img(Box::new(subterms[0].clone()), 0, boxed(&subterms[1..])))),
+    (" /2 ", 2) => Ok((input2, Term::Img(Box::new(subterms[0].clone()), 1, boxed(&subterms[1..])))),
+    _ => Err(nom::Err::Error(nom::error::Error::new(input, nom::error::ErrorKind::Many0))), // too many components
+  }
 }
 
 pub fn parseStatement(input: &str) -> IResult<&str, Term> {
-- 
2.43.0


From 156b18833b3eda50058de2de994e9f4863cbe951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:41 +0000
Subject: [PATCH 26/37] fix: text which is nested too deep is rejected instead
 of overflowing the stack

---
 src/NarseseParser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 8bb2b2c..aa9def5 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -40,6 +40,10 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
 }
 
 pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)> {
+  if narsese.chars().filter(|c| "<({[".contains(*c)).count() > 500 {
+    return None; // is nested too deep, parsing would overflow the stack
+  }
+
   let mut narsese2:String = narsese.clone();
 
   // HACK< replace spaces so the parser itself doesn't have to care to much about spaces in certain places >
-- 
2.43.0


From fcfb89da7c3f699b4a0a390e1be62c7f4d14652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:23 +0000
Subject: [PATCH 27/37] fix: a client which leaves before its connection is
 accepted must not end the server

---
 src/NarServer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index 8878d5c..956c96a 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -28,8 +28,14 @@ async fn acceptLoop(addr: impl ToSocketAddrs + async_std::net::ToSocketAddrs, tx
     let mut incoming = listener.incoming();
     
     while let Some(stream) = incoming.next().await {
-        let stream = stream?;
-        println!("Accepting from: {}", stream.peer_addr()?);
+        let stream = match stream {
+            Ok(stream) => {stream},
+            Err(_) => {continue;} // must not affect other clients
+        };
+        match stream.peer_addr() {
+            Ok(peerAddr) => {println!("Accepting from: {}", peerAddr);},
+            Err(_) => {continue;} // client is already gone, must not affect other clients
+        }
         let _handle = task::spawn(connectionLoop(stream, tx.clone(), global.clone()));
     }
 
-- 
2.43.0


From 3b4ef1c92800d8739500fb0d1152b5ba7bb67528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:23 +0000
Subject: [PATCH 28/37] fix: long messages were sent only partially to clients
 which read slowly

---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index 956c96a..b950c1d 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -73,7 +73,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
         
         for iLine in &toSend {
             // send broadcasted to stream
-            writer.write((iLine.to_owned()+"\n").as_bytes()).await;
+            writer.write_all((iLine.to_owned()+"\n").as_bytes()).await;
             writer.flush().await;
         }
 
-- 
2.43.0


From 4829e99b7b347dd0447fb5f4936577de4faa69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:27 +0000
Subject: [PATCH 29/37] fix: sigmoid activation gave NaN for large values

---
 src/ad.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ad.rs b/src/ad.rs
index 61363ac..22e2f31 100644
--- a/src/ad.rs
+++ b/src/ad.rs
@@ -48,8 +48,9 @@ pub fn reluAct(v:&Ad) -> Ad {
 }
 
 pub fn sigmoidAct(v:&Ad) -> Ad {
-    let z=exp(&v);
-    div(&z, &add(&z, &Ad{r:1.0,d:0.0}))
+    // written so that it can't overflow, exp() is infinite for large values
+    let r = 1.0/(1.0+(-v.r).exp());
+    Ad{r:r,d:v.d*r*(1.0-r)}
 }
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From 7c4206173b1ba805e6a96faa1e2944760c56f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 30/37] fix: convolution ignored the last row and column of
 kernels with odd size

---
 src/ModVisionC.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModVisionC.rs b/src/ModVisionC.rs
index f7f9dfc..045bf16 100644
--- a/src/ModVisionC.rs
+++ b/src/ModVisionC.rs
@@ -9,8 +9,8 @@ pub fn convWithoutBorder(v:&Map2d<f64>, kernel:&Map2d<f64>) -> Map2d<f64> {
 
             let mut acc:f64 = 0.0;
 
-            for idy in -kernel.h/2..kernel.h/2 {
-                for idx in -kernel.w/2..kernel.w/2 {
+            for idy in -kernel.h/2..kernel.h-kernel.h/2 {
+                for idx in -kernel.w/2..kernel.w-kernel.w/2 {
                     let kx = kernel.w/2+idx; // kernel x
                     let ky = kernel.h/2+idy;
                     
@@ -30,8 +30,8 @@ pub fn convo(v:&Map2d<f64>, kernel:&Map2d<f64>) -> Map2d<f64> {
     for iy in 0..v.h {
         for ix in 0..v.w {
             let mut acc:f64 = 0.0;
-            for idy in -kernel.h/2..kernel.h/2 {
-                for idx in -kernel.w/2..kernel.w/2 {
+            for idy in -kernel.h/2..kernel.h-kernel.h/2 {
+                for idx in -kernel.w/2..kernel.w-kernel.w/2 {
                     let kx = kernel.w/2+idx; // kernel x
                     let ky = kernel.h/2+idy;
                     
-- 
2.43.0


From f5fe0ad397e6ae6d5b879f651b4b805e1f8fa618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 31/37] fix: circles were drawn with the square root of the
 radius

---
 src/Map2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index aba5fcb..00b03fb 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -53,7 +53,7 @@ pub fn map2dDrawBox<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,w:i32,h:i32,v:T) {
 pub fn map2dDrawCircle<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,r:i32,v:T) {
     for iy in -(r+1)..r+1 {
         for ix in -(r+1)..r+1 {
-            if ix*ix+iy*iy <= r {
+            if ix*ix+iy*iy <= r*r {
                 writeAt(m,cy+iy,cx+ix, v);
             }
         }
-- 
2.43.0


From 59b9e9358a3f39ecdab6f8e31149b47c6933103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 32/37] fix: pixels were projected on the line with a direction
 which isn't normalized

---
 src/Map2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index 00b03fb..5ae9d40 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -90,8 +90,8 @@ pub fn drawLine<T:Copy>(m:&mut Map2d<T>, ax:i32,ay:i32,bx:i32,by:i32,v:T) {
             }
 
             // projected
-            let px = (ax as f64) + dotRes*fdiffx;
-            let py = (ay as f64) + dotRes*fdiffy;
+            let px = (ax as f64) + dotRes*nfdiffx;
+            let py = (ay as f64) + dotRes*nfdiffy;
 
             let diff2x = (ix as f64) - px;
             let diff2y = (iy as f64) - py;
-- 
2.43.0


From 3d3fb2021fbe4ead492734f0cc0373368901aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 33/37] fix: the second natural language input of a session
 ended the reasoner

---
 src/ModNlpA.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index a6c89d1..ec230aa 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -616,8 +616,7 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
 
 
     let mut file = OpenOptions::new()
-        .create_new(true)
-        .write(true)
+        .create(true)
         .append(true)
         .open("logX.txt")
         .unwrap();
-- 
2.43.0


From 587ae82048f5ecf98fee60530a66792fd60e2724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 34/37] fix: natural language input without a trained network
 ended the reasoner

---
 src/ModNlpA.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index ec230aa..88f74b9 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -113,7 +113,7 @@ fn nn_load() -> Result<(NeuralNetwork)> {
         })?;
 
         for i_val in val_iter {
-            n_layers = i_val.unwrap();
+            n_layers = i_val?;
         }
     }
     n_layers += 1;
@@ -127,7 +127,7 @@ fn nn_load() -> Result<(NeuralNetwork)> {
             })?;
 
             for i_val in val_iter {
-                n_neurons = i_val.unwrap();
+                n_neurons = i_val?;
             }
         }
         n_neurons += 1;
@@ -594,7 +594,13 @@ fn network_test() {
 // /param stimulus_words the actual words of the stimulus
 // /return (control sequence which was returned from the NN, extracted relations)
 pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
-    let nn:NeuralNetwork = nn_load().unwrap();
+    let nn:NeuralNetwork = match nn_load() {
+        Ok(nn) => {nn},
+        Err(e) => {
+            println!("ERR - couldn't load the network from nn_nlp0.db: {}", e);
+            return (vec![], vec![]);
+        }
+    };
 
 
     { // debug: print weights
-- 
2.43.0


From 35c3fb5ea2c4c7d6d6fc9ad388f31e9d61123826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 35/37] fix: a unknown word in natural language input ended the
 reasoner

---
 src/ModNlpA.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index 88f74b9..874a52c 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -639,7 +639,10 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
 
     let mut extracted_relations: Vec<Relation> = vec![]; // array of extracted relations
     
-    let pos: Vec<String> = conv_tokens_to_poss(&stimulus_words);
+    let pos: Vec<String> = match conv_tokens_to_poss(&stimulus_words) {
+        Some(pos) => {pos},
+        None => {return (control_log, extracted_relations);} // can't be processed
+    };
     println!("pos = {:?}", &pos); // DGB pos
 
     let mut current_stimulus: Vec<i64> = prot_pos0(pos); //prot_pos0(vec!["NNP".to_string(), "VBZ".to_string(), "JJ".to_string(), "CC".to_string(), "JJ".to_string()]);
@@ -1043,7 +1046,8 @@ pub fn prot_pos0(cls:Vec<String>) -> Vec<i64> {
 
 
 // convert words to part of speech
-pub fn conv_tokens_to_poss(tokens:&[String]) -> Vec<String> {
+// /return None if a word is unknown
+pub fn conv_tokens_to_poss(tokens:&[String]) -> Option<Vec<String>> {
     let mut res = vec![];
     for i_token in tokens {
         if      i_token == &"Tom".to_string() {res.push("NNP".to_string());}
@@ -1072,8 +1076,11 @@ pub fn conv_tokens_to_poss(tokens:&[String]) -> Vec<String> {
         else if i_token == &"Cat".to_string() {res.push("NN".to_string());} // is this right?
 
         else if i_token == &"want".to_string() {res.push("VBT".to_string());} // not always right
-        else {panic!(format!("unknown word \"{}\"", &i_token));}
+        else {
+            println!("ERR - unknown word \"{}\"", &i_token);
+            return None;
+        }
     }
-    res
+    Some(res)
 }
 
-- 
2.43.0


From 2e4125c37cd17f7fdeb50d7902fc5d0bbcdb9264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 36/37] fix: a natural language sentence which is too short for
 the selected relation ended the reasoner

---
 src/ModNlpA.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index 874a52c..2b9f042 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -673,7 +673,15 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
         }
 
         
-        { // debug + build relations
+        // index of the last word which is used by the action
+        let last_word_idx: usize = match current_action_idx {
+            1 => 2,
+            2 | 3 | 7 => 4,
+            4 => 3,
+            _ => 0,
+        };
+
+        if last_word_idx < stimulus_words.len() { // debug + build relations, is only possible if the sentence has all words
             if current_action_idx == 0 { // is FIN action? then we are done with interpreting actions
                 // do nothing
             }
-- 
2.43.0


From 4e2ef137afda6bb94baccc882ed531dc320a6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 37/37] fix: a long natural language sentence ended the
 reasoner

---
 src/ModNlpA.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index 2b9f042..1bbc27a 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -914,8 +914,9 @@ pub fn conv_seq_to_nninput(seq:&Seq) -> Vec<(f64,f64)> {
         let seq2_len = seq.seq.len();
 
         for seq2_idx in 0..seq2_len { // iterate from end of sequence to beginning
-            // TODO< don't iterate over maximal capacity of encoding!
-            
+            if seq2_len-seq2_idx > len_codes {
+                continue; // the beginning of a long sequence doesn't fit into the encoding
+            }
             
             codes[len_codes-1-(seq.seq.len()-1-seq2_idx)] = seq.seq[seq2_idx];
         }
-- 
2.43.0

