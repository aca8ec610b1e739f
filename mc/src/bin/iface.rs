//! C19, C20, C21: commands, sessions, server
use std::collections::HashSet;
use std::io::{BufRead, BufReader, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};
use mc::engine::*;
use mc::goal::*;
use mc::nar::*;
use mc::procref::*;
use mc::rt::*;
use mc::seq_world_n;
use nar20_1::Nar::{createNar, cycle, inputN, Nar};
use nar20_1::NarInputFacade;
use nar20_1::NarProc::{narStep0, narStep1};
use nar20_1::NarServer::{vp_serve, Global, QHandlerImpl};
use nar20_1::NarUtilReadn;
use nar20_1::NarWorkingCycle::{taskCalcCredit, QHandler};
use vpmc::quiesce;

/// everything which is observable of a reasoner
fn full(nar: &Nar) -> String {
    quiesce();
    let p = &nar.procNar;
    let m = nar.mem.read();
    let sh = m.shared.read();
    let q: Vec<String> = sh.questionTasks.read().iter().map(|t| format!("{}? {:.6}", R::of(&t.sentence.term).printed(), t.bestAnswerExp)).collect();
    let cc = sh.cycleCounter.load(nar_ord());
    let id = sh.stampIdCounter.load(nar_ord());
    drop(sh); drop(m);
    let ant: Vec<String> = p.anticipatedEvents.iter().map(|a| format!("{} {}", B::of(&a.evi.read()).key(), a.deadline)).collect();
    let ix: Vec<(String, usize)> = index_of(&nar.mem).into_iter().filter(|x| !x.1.is_empty()).map(|x| (x.0.printed(), x.1.len())).collect();
    format!("time {} cycles {} next evidence {}\n{}\ntasks by term {:?}\nquestions {:?}\nprocedural time {} events {:?}\nknowledge {}\ngoals {:?}\noperations {:?} babbling {}\nanticipations {:?}",
        nar.currentTime.load(nar_ord()), cc, id, digest(&nar.mem), ix, q, p.t, trace_of(p), canon(&tab_of(&p.evidenceMem.read())), keys(&list(&p.goalSystem)),
        p.ops.iter().map(|o| o.retName()).collect::<Vec<_>>(), p.cfgEnBabbling, ant)
}
fn nar_ord() -> std::sync::atomic::Ordering { std::sync::atomic::Ordering::SeqCst }

/// meaning of a line
#[derive(Clone, Debug, PartialEq)]
enum Mean { Nothing, Narsese, StepA, StepB, Step, Cycles(i64), Flush, RegExec, RegRel, RegNop(String), Babble(bool), Tasks, Concepts, Quit, Unspecified }
fn meaning(line: &str) -> Mean {
    let l = line.trim_end_matches(|c| c == '\n' || c == '\r');
    if l.is_empty() || l.starts_with("//") { return Mean::Nothing; }
    if !l.starts_with('!') { return Mean::Narsese; }
    match l {
        "!spA" => return Mean::StepA, "!spB" => return Mean::StepB, "!sp" => return Mean::Step, "!s" => return Mean::Cycles(1), "!dtf" => return Mean::Flush,
        "!pse" => return Mean::Nothing, "!peb 0" => return Mean::Babble(false), "!peb 1" => return Mean::Babble(true), "!dt" => return Mean::Tasks, "!dmd" => return Mean::Concepts, "!QQ" => return Mean::Quit,
        _ => {}
    }
    if l.starts_with("!sp") { return Mean::Unspecified; }
    if let Some(r) = l.strip_prefix("!s") {
        if r.chars().all(|c| c.is_ascii_digit()) { return match r.parse::<i64>() { Ok(k) if k <= 20000 => Mean::Cycles(k), Ok(_) => Mean::Unspecified, Err(_) => Mean::Nothing }; }
        // a sign in front of the number
        if r.strip_prefix('+').map(|x| x.chars().all(|c| c.is_ascii_digit())).unwrap_or(false) { return Mean::Unspecified; }
        return Mean::Nothing;
    }
    if let Some(r) = l.strip_prefix("!por ") {
        let w: Vec<&str> = r.split_whitespace().collect();
        return match &w[..] { ["execinj"] => Mean::RegExec, ["nlpRel0"] => Mean::RegRel, ["NOP", x] => Mean::RegNop(x.to_string()), _ => Mean::Nothing };
    }
    if l.starts_with("!.nlp ") { return Mean::Unspecified; }
    // unknown command: not Narsese either
    Mean::Narsese
}
/// does what the line means with the interface for programs; returns the quit flag and the requested information
fn apply(nar: &mut Nar, line: &str) -> (bool, Vec<String>) {
    let l = line.trim_end_matches(|c| c == '\n' || c == '\r').to_string();
    let m = Some(Arc::clone(&nar.mem));
    match meaning(line) {
        Mean::Nothing | Mean::Unspecified => {},
        Mean::Narsese => { inputN(nar, &l); },
        Mean::StepA => narStep0(&mut nar.procNar),
        Mean::StepB => narStep1(&mut nar.procNar, &m),
        Mean::Step => { narStep0(&mut nar.procNar); narStep1(&mut nar.procNar, &m); },
        Mean::Cycles(k) => for _ in 0..k { cycle(nar); },
        Mean::Flush => { let m = nar.mem.read(); let mut sh = m.shared.write(); sh.judgementTasks.clear(); sh.judgementTasksByTerm.write().clear(); },
        Mean::RegExec => nar.procNar.ops.push(std::rc::Rc::new(Box::new(nar20_1::OpLib::Op_nal9__exec_and_inject{}))),
        Mean::RegRel => nar.procNar.ops.push(std::rc::Rc::new(Box::new(nar20_1::OpLib::Op__nlp_rel_0{}))),
        Mean::RegNop(s) => nar.procNar.ops.push(std::rc::Rc::new(Box::new(nar20_1::OpLib::OpNop{name: s}))),
        Mean::Babble(b) => nar.procNar.cfgEnBabbling = b,
        Mean::Tasks => {
            quiesce();
            let m = nar.mem.read();
            let sh = m.shared.read();
            let r = sh.judgementTasks.iter().map(|t| { let t = t.read(); let b = B::of(&t.sentence); format!("{}|{:.6}", b.term.printed(), taskCalcCredit(&t, sh.cycleCounter.load(nar_ord()))) }).collect();
            return (false, r);
        },
        Mean::Concepts => { quiesce(); return (false, vec![format!("{}", concepts_of(&nar.mem).len())]); },
        Mean::Quit => return (true, vec![]),
    }
    (false, vec![])
}
/// information lines of the facade in the form of the reference
fn info(line: &str, out: &[String]) -> Result<Vec<String>, String> {
    match meaning(line) {
        Mean::Tasks => out.iter().map(|l| {
            let bad = || format!("line {:?} of the task list is not understood", l);
            let c: f64 = l.rsplit("credit=").next().and_then(|x| x.trim().parse().ok()).ok_or_else(bad)?;
            let t = l.trim_start_matches("task").trim_start();
            let e = t.find(". ").or_else(|| t.find(".  ")).ok_or_else(bad)?;
            Ok(format!("{}|{:.6}", &t[..e], c))
        }).collect(),
        Mean::Concepts => match out { [l] => Ok(vec![l.rsplit(' ').next().unwrap_or("").to_string()]), _ => Err(format!("{} lines instead of the number of concepts", out.len())) },
        _ => Ok(out.to_vec())
    }
}

/// given to a new reasoner before the lines
const PRE: [&[&str]; 4] = [&[],
    &["<a --> b>.", "<b --> c>. {0.8 0.6}", "<a --> ?x>?"],
    &["<(a,<{({SELF}*x)} --> ^p>) =/> g>.", "!por NOP ^p", "g! :|:", "a. :|:", "<q --> r>."],
    // a larger state
    &["!por NOP ^p", "!por NOP ^q", "!por execinj", "!por NOP ^p", "!por nlpRel0", "!por NOP ^r", "<a --> b>.", "<b --> c>.", "<c --> d>.", "<d --> e>. {0.3 0.8}", "<e --> f>.", "<f --> g>.", "<(a,<{({SELF}*x)} --> ^p>) =/> g>.", "<(b,<{({SELF}*x)} --> ^q>) =/> a>.", "<a --> ?x>?", "<?x --> d>?", "<a --> e>?", "g! :|:", "h! :|:", "i! {0.9 0.9} :|:",
      "a. :|:", "b. :|:", "<{({SELF}*x)} --> ^p>. :|:", "c. :|:", "d. :|:", "!sp", "e. :|:", "f. :|:", "!s2"]];

fn facade(nar: &mut Nar, l: &str) -> Result<(bool, Vec<String>), String> {
    let mut quit = true;
    let o = NarInputFacade::input(nar, &l.to_string(), &mut quit);
    Ok((quit, info(l, &o)?))
}

fn c19(ctx: &mut Ctx) {
    // sequences of lines, compared with the same actions through the interface for programs
    let lines = ["", "// <a --> b>.", "<a --> b>.", "<c --> d>. {0.3 0.4}\r\n", "<a --> ?1>?", "g! :|:", "a. :|:", "<{({SELF}*x)} --> ^p>. :|:", "<(a,<{({SELF}*x)} --> ^p>) =/> g>.",
        "g!", "((", "!s", "!s3", "!s0", "!sx", "!sp", "!spA", "!spB", "!dtf", "!por execinj", "!por nlpRel0", "!por NOP ^p", "!por NOP", "!por", "!por XOP ^p", "!por NOP ^p ^q", "!pse", "!peb 0", "!peb 1", "!dt", "!dmd", "!QQ", "!unknown", "!dt ", " !dmd", "é", "!é", "!s99999999999999999999", "<ä --> ö>."];
    let depth = if ctx.thorough { 3 } else { 2 };
    for (pi, pre) in PRE.iter().enumerate() { for len in 1..=depth { for code in 0..lines.len().pow(len as u32) {
        if ctx.stop() { return; }
        if pi != 1 && len == 3 || pi == 3 && len > 1 && !ctx.thorough { continue; }
        if !ctx.mine() { continue; }
        let ls: Vec<String> = (0..len).map(|i| lines[code / lines.len().pow(i as u32) % lines.len()].to_string()).collect();
        let pre: Vec<String> = pre.iter().map(|s| s.to_string()).collect();
        ctx.case("commands", || format!("after {:?} lines {:?}", pre, ls), |ctx| {
            let (p2, l2) = (pre.clone(), ls.clone());
            let want = seq_world_n(1, 20_000_000, move || { let mut nar = createNar(); for l in &p2 { apply(&mut nar, l); quiesce(); } l2.iter().map(|l| { let r = apply(&mut nar, l); (r, full(&nar)) }).collect::<Vec<_>>() })?;
            let (p2, l2) = (pre.clone(), ls.clone());
            let got = seq_world_n(1, 20_000_000, move || -> Result<Vec<_>, String> { let mut nar = createNar(); for l in &p2 { facade(&mut nar, l)?; quiesce(); } let mut r = vec![]; for l in &l2 { if meaning(l) == Mean::Tasks || meaning(l) == Mean::Concepts { quiesce(); } let x = facade(&mut nar, l)?; r.push((x, full(&nar))); } Ok(r) })??;
            for i in 0..ls.len() {
                let ((gq, mut gi), gs) = got[i].clone();
                let ((wq, mut wi), ws) = want[i].clone();
                gi.sort(); wi.sort();
                if gq != wq { return Err(format!("line {:?}: quit is {}", ls[i], gq)); }
                if gi != wi { return Err(format!("line {:?} returned {:?}, expected {:?}", ls[i], gi, wi)); }
                if gs != ws { return Err(format!("after line {:?} the state is\n{}\nexpected\n{}", ls[i], gs, ws)); }
                ctx.transitions += 1;
                ctx.state(&gs);
            }
            Ok(())
        });
    } } }
    // every short text: nothing happens if it has no meaning, no text terminates the system
    let alpha: &[&str] = &["!", "s", "p", "d", "t", "f", "Q", "1", " ", "a", ".", "/", "é", "\n"];
    let n_max = if ctx.thorough { 5 } else { 4 };
    let mut batch: Vec<String> = vec![];
    let mut all: Vec<String> = vec![];
    for len in 0..=n_max { for code in 0..alpha.len().pow(len as u32) { all.push((0..len).map(|i| alpha[code / alpha.len().pow(i as u32) % alpha.len()]).collect()); } }
    // every edit of a set of commands
    for c in ["!por NOP ^p", "!por execinj", "!por nlpRel0", "!peb 0", "!peb 1", "!s12", "!spA", "!dtf", "!dmd", "!pse", "!QQ", "!.nlp", "//x"] {
        let cs: Vec<char> = c.chars().collect();
        for i in 0..=cs.len() {
            let mut x: Vec<String> = vec![cs[..i].iter().collect()];
            if i < cs.len() { x.push(cs[..i].iter().chain(cs[i + 1..].iter()).collect()); x.push(cs[i..].iter().collect()); }
            for e in [" ", "!", "é", "x", "0", "\t", "\u{1F600}", "-"] {
                x.push(format!("{}{}{}", cs[..i].iter().collect::<String>(), e, cs[i..].iter().collect::<String>()));
                if i < cs.len() { x.push(format!("{}{}{}", cs[..i].iter().collect::<String>(), e, cs[i + 1..].iter().collect::<String>())); }
            }
            all.extend(x);
        }
    }
    let silent = |l: &str| match meaning(l) { Mean::Nothing => true, Mean::Narsese => mc::refp::impl_parse(l.trim_end_matches(|c| c == '\n' || c == '\r')).is_none(), _ => false };
    for l in all {
        if l.starts_with("!.nlp ") { continue; }
        if silent(&l) { batch.push(l); } else { one(ctx, &l); }
        if batch.len() >= 500 { silent_batch(ctx, std::mem::take(&mut batch)); }
    }
    silent_batch(ctx, batch);
    // every number of cycles
    for k in (0..=130).chain([150, 199, 200, 201, 250, 255, 256, 257, 300, 400, 500, 512, 1000, 1024, 1025, 2000]).chain(if ctx.thorough { vec![4096, 5000, 10000, 20000] } else { vec![] }) {
        for t in [format!("!s{}", k), format!("!s{:05}", k)] { one(ctx, &t); }
    }
    // many operations, many statements
    for k in [5usize, 10, 17, 33, 60] { for kind in 0..3 {
        if ctx.stop() || !ctx.mine() { continue; }
        ctx.case("many", || format!("{} lines of kind {}", k, kind), |_| {
            let ls: Vec<String> = (0..k).map(|i| match kind { 0 => format!("!por NOP ^op{}", i), 1 => format!("<n{} --> m{}>. {{0.{} 0.8}}", i, i % 7, i % 10), _ => format!("e{}. :|:", i % 11) }).collect();
            let l2 = ls.clone();
            let want = seq_world_n(1, 20_000_000, move || { let mut nar = createNar(); for l in &l2 { apply(&mut nar, l); quiesce(); } full(&nar) })?;
            let got = seq_world_n(1, 20_000_000, move || -> Result<_, String> { let mut nar = createNar(); for l in &ls { facade(&mut nar, l)?; quiesce(); } Ok(full(&nar)) })??;
            if got != want { return Err(format!("state is\n{}\nexpected\n{}", got, want)); }
            Ok(())
        });
    } }
    files(ctx);
}

fn silent_batch(ctx: &mut Ctx, b: Vec<String>) {
    if ctx.stop() || !ctx.mine() { return; }
    ctx.case("texts", || format!("{} texts without meaning, first {:?} last {:?}", b.len(), b.first(), b.last()), |ctx| {
        let n = b.len() as u64;
        let b = b.clone();
        for s in &b { ctx.state(s); }
        seq_world_n(1, 50_000_000, move || -> Result<(), String> {
            let mut nar = createNar();
            for l in PRE[2] { facade(&mut nar, l)?; }
            let before = full(&nar);
            for l in &b {
                crumb(&format!("line {:?}", l));
                let (q, i) = facade(&mut nar, l)?;
                if q || !i.is_empty() { return Err(format!("line {:?}: quit {} information {:?}", l, q, i)); }
                let after = full(&nar);
                if after != before { return Err(format!("line {:?} changed the state to\n{}\nfrom\n{}", l, after, before)); }
            }
            Ok(())
        })??;
        ctx.transitions += n;
        Ok(())
    });
}
fn one(ctx: &mut Ctx, l: &str) {
    if ctx.stop() || !ctx.mine() { return; }
    let l = l.to_string();
    ctx.case("texts", || format!("line {:?}", l), |_| {
        let l2 = l.clone();
        let want = seq_world_n(1, 20_000_000, move || { let mut nar = createNar(); for x in PRE[2] { apply(&mut nar, x); } let b = full(&nar); let r = apply(&mut nar, &l2); (b, r, full(&nar)) })?;
        let l2 = l.clone();
        let got = seq_world_n(1, 20_000_000, move || -> Result<_, String> { let mut nar = createNar(); for x in PRE[2] { facade(&mut nar, x)?; quiesce(); } let r = facade(&mut nar, &l2)?; Ok((r, full(&nar))) })??;
        if meaning(&l) == Mean::Unspecified { return if got.0 .0 { Err("quits".into()) } else { Ok(()) }; }
        let (mut a, mut b) = (got.0 .1.clone(), want.1 .1.clone());
        a.sort(); b.sort();
        if got.0 .0 != want.1 .0 || a != b { return Err(format!("quit and information {:?}, expected {:?}", got.0, want.1)); }
        if got.1 != want.2 { return Err(format!("state is\n{}\nexpected\n{}", got.1, want.2)); }
        Ok(())
    });
}

fn scratch(ctx: &Ctx) -> String { let d = format!("{}/evidence/scratch.{}.{}.{}", std::env::var("VP_VERIF").unwrap_or("/verif".into()), ctx.id, ctx.shard, std::process::id()); std::fs::create_dir_all(&d).unwrap(); d }

/// files: same effect as giving their lines one after another, up to the command which quits
fn files(ctx: &mut Ctx) {
    let ls: [&[u8]; 7] = [b"<a --> b>.", b"!dtf", b"!QQ", b"", b"// c", b"<c --> d>.", b"\xff\xfe"];
    let dir = scratch(ctx);
    let path = format!("{}/f.nal", dir);
    for len in 0..=(if ctx.thorough { 5 } else { 4 }) { for code in 0..ls.len().pow(len) { for end in [&b"\n"[..], b"\r\n", b""] {
        if ctx.stop() { break; }
        if !ctx.mine() { continue; }
        let seq: Vec<Vec<u8>> = (0..len).map(|i| ls[code / ls.len().pow(i) % ls.len()].to_vec()).collect();
        let mut data = seq.join(if end == b"\r\n" { &b"\r\n"[..] } else { &b"\n"[..] });
        data.extend_from_slice(end);
        let p = path.clone();
        ctx.case("files", || format!("file {:?}", String::from_utf8_lossy(&data)), |_| {
            std::fs::write(&p, &data).map_err(|e| e.to_string())?;
            let p2 = p.clone();
            let got = seq_world_n(1, 20_000_000, move || { let mut nar = createNar(); let mut q = false; NarUtilReadn::readNarseseFile(&mut nar, &p2, &mut q); (q, full(&nar)) })?;
            let want = seq_world_n(1, 20_000_000, move || { let mut nar = createNar(); let mut q = false; for l in &seq { if let Ok(l) = String::from_utf8(l.clone()) { if apply(&mut nar, &l).0 { q = true; break; } } } (q, full(&nar)) })?;
            if got != want { return Err(format!("quit and state {:?}, expected {:?}", got, want)); }
            Ok(())
        });
    } } }
    // blanks around lines have no meaning of their own, long files
    let odd: [&[u8]; 14] = [b" !dtf", b"!dtf ", b"\t!QQ", b"!QQ ", b" !peb 0", b"!peb 0\t", b"!peb  0", b" <a --> b>.", b"<a --> b>. ", b"! dtf", b" // <k --> l>.", b"!por NOP ^x ", b" !por NOP ^x", b"!s2 "];
    let mut more: Vec<Vec<Vec<u8>>> = vec![];
    for a in &odd { more.push(vec![b"<c --> d>.".to_vec(), a.to_vec(), b"<e --> f>.".to_vec()]); for b in &odd { more.push(vec![b"<c --> d>.".to_vec(), a.to_vec(), b.to_vec()]); } }
    for k in [8usize, 40, 150] { more.push((0..k).map(|i| format!("<a{} --> b>.", i).into_bytes()).collect()); more.push((0..k).map(|i| if i == k - 2 { b"!QQ".to_vec() } else if i % 3 == 1 { b"!por NOP ^p".to_vec() } else { format!("<a{} --> b>.", i).into_bytes() }).collect()); }
    for seq in more {
        if ctx.stop() { break; }
        if !ctx.mine() { continue; }
        let p = path.clone();
        ctx.case("files", || format!("file {:?}", seq.iter().take(12).map(|l| String::from_utf8_lossy(l).to_string()).collect::<Vec<_>>()), |_| {
            std::fs::write(&p, seq.join(&b"\n"[..])).map_err(|e| e.to_string())?;
            let p2 = p.clone();
            if seq.iter().any(|l| meaning(&String::from_utf8_lossy(l)) == Mean::Unspecified) { return Ok(()); }
            let got = seq_world_n(1, 20_000_000, move || { let mut nar = createNar(); let mut q = false; NarUtilReadn::readNarseseFile(&mut nar, &p2, &mut q); (q, full(&nar)) })?;
            let seq = seq.clone();
            let want = seq_world_n(1, 20_000_000, move || { let mut nar = createNar(); let mut q = false; for l in &seq { if apply(&mut nar, &String::from_utf8_lossy(l)).0 { q = true; break; } } (q, full(&nar)) })?;
            if got != want { return Err(format!("quit and state {:?}, expected {:?}", got, want)); }
            Ok(())
        });
    }
    if ctx.mine() { let p = format!("{}/missing", dir); ctx.case("files", || "missing file".into(), |_| seq_world_n(1, 1_000_000, move || { let mut nar = createNar(); let b = full(&nar); let mut q = false; NarUtilReadn::readNarseseFile(&mut nar, &p, &mut q); if q || full(&nar) != b { Err("something happened".to_string()) } else { Ok(()) } })?); }
    let _ = std::fs::remove_dir_all(&dir);
}

fn program() -> std::path::PathBuf { std::env::current_exe().unwrap().parent().unwrap().join("nar20") }

/// runs the program with the input, returns (exit code, standard output) or None when it doesn't end
fn run_program(args: &[String], input: &[u8]) -> Result<(Option<i32>, String), String> {
    let mut ch = Command::new(program()).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("engine: {}", e))?;
    { let mut i = ch.stdin.take().unwrap(); let _ = i.write_all(input); }
    let mut o = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || { let mut v = vec![]; let mut buf = [0u8; 65536]; loop { match std::io::Read::read(&mut o, &mut buf) { Ok(0) | Err(_) => break, Ok(n) => if v.len() < 4_000_000 { v.extend_from_slice(&buf[..n]) } } } v });
    let t0 = Instant::now();
    let st = loop {
        if let Ok(Some(s)) = ch.try_wait() { break s; }
        alive();
        if t0.elapsed() > Duration::from_secs(40) { let _ = ch.kill(); let _ = ch.wait(); return Err("the session didn't end within 40 s".into()); }
        std::thread::sleep(Duration::from_micros(300));
    };
    let v = rd.join().map_err(|_| "engine: reader")?;
    Ok((st.code(), String::from_utf8_lossy(&v).to_string()))
}

fn c20(ctx: &mut Ctx) {
    let ls: [&[u8]; 13] = [b"<a --> b>.", b"<c --> d>.", b"!dmd", b"", b"!QQ", b"!s2", b"!dt", b"// c", b"))x", b"\xc3\x28", b"!por NOP ^x", b"  ", b" !QQ"];
    let names: [&[&str]; 13] = [&["a", "b", "<a --> b>"], &["c", "d", "<c --> d>"], &[], &[], &[], &[], &[], &[], &[], &[], &[], &[], &[]];
    let dir = scratch(ctx);
    let max = if ctx.thorough { 4 } else { 3 };
    for style in 0..3 { for len in 0..=max { for code in 0..ls.len().pow(len) {
        if !ctx.violations.is_empty() { break; }
        if !ctx.mine() { continue; }
        let ix: Vec<usize> = (0..len).map(|i| code / ls.len().pow(i) % ls.len()).collect();
        // a line end in front of the end of the input is optional; the first line can come from a file
        let in_file = style == 2;
        if in_file && len == 0 { continue; }
        let mut data = vec![];
        for (k, i) in ix.iter().enumerate() { if in_file && k == 0 { continue; } data.extend_from_slice(ls[*i]); if style != 1 || k + 1 < ix.len() { data.extend_from_slice(if style == 2 { b"\r\n" } else { b"\n" }); } }
        let mut args = vec!["it".to_string()];
        if in_file {
            let f = format!("{}/s.nal", dir);
            let mut d = ls[ix[0]].to_vec(); d.push(b'\n');
            std::fs::write(&f, &d).unwrap();
            args.push(f);
            args.push(format!("{}/missing.nal", dir));
        }
        ctx.case("session", || format!("session style {} lines {:?}", style, ix.iter().map(|i| String::from_utf8_lossy(ls[*i]).to_string()).collect::<Vec<_>>()), |ctx| {
            // reference: what the session prints about the number of concepts
            let mut cons: HashSet<&str> = HashSet::new();
            let mut last: Option<usize> = None;
            let mut want: Vec<usize> = vec![];
            let mut tasks_at = 0usize;
            let mut after_cycle = false;
            let mut n_tasks: Option<usize> = Some(0);
            let mut seen = HashSet::new();
            let mut task_lines = 0usize;
            let mut ops = 0usize;
            for (k, i) in ix.iter().enumerate() {
                let from_file = in_file && k == 0;
                let mut i = *i;
                if i == 9 { continue; } // not readable
                if style == 1 && k + 1 == ix.len() && i == 3 { continue; } // no line at all
                if !from_file { if i == 3 { match last { Some(l) => i = l, None => continue } } else { last = Some(i); } }
                if i == 4 { break; }
                if i <= 1 { for s in names[i] { cons.insert(s); } if let Some(t) = n_tasks.as_mut() { *t += if seen.insert(i) { 1 } else { 2 }; } } // new evidence and the revised belief
                if i == 10 { ops += 1; }
                if i == 5 { after_cycle = true; n_tasks = None; }
                if i == 2 && !from_file { want.push(cons.len()); }
                if i == 6 && !from_file { match n_tasks { Some(t) => task_lines += t, None => tasks_at = usize::MAX } }
            }
            let _ = after_cycle;
            let (code, out) = run_program(&args, &data)?;
            if code != Some(0) { return Err(format!("the session ended with {:?}", code)); }
            let got: Vec<usize> = out.lines().filter_map(|l| l.strip_prefix("concept count = ").and_then(|x| x.trim().parse().ok())).collect();
            if got != want { return Err(format!("reported numbers of concepts {:?}, expected {:?}", got, want)); }
            let added = out.lines().filter(|l| l.contains("added op")).count();
            if added != ops { return Err(format!("{} operations were registered, expected {}", added, ops)); }
            let tl = out.lines().filter(|l| l.starts_with("task ")).count();
            if tasks_at != usize::MAX && tl != task_lines { return Err(format!("{} tasks were listed, expected {}", tl, task_lines)); }
            ctx.transitions += ix.len() as u64;
            Ok(())
        });
    } } }
    long_sessions(ctx, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    answers(ctx);
}

/// long sessions and several files
fn long_sessions(ctx: &mut Ctx, dir: &str) {
    for nfiles in 0..=3usize { for flen in [1usize, 2, 7] { for len in [0usize, 1, 5, 12, 60, 250] { for pat in 0..4usize { for quit in 0..3usize {
        if !ctx.violations.is_empty() { return; }
        if nfiles == 0 && flen > 1 || len > 60 && nfiles > 1 { continue; }
        // quit: nowhere, in the last file, in the session
        if quit == 1 && (nfiles == 0 || flen < 2) || quit == 2 && len < 5 { continue; }
        if !ctx.mine() { continue; }
        let mut id = 0;
        let mut line = |k: usize| -> String { id += 1; match (k + pat) % 5 { 0 => format!("<a{} --> b{}>.", id, id), 1 => "!dmd".into(), 2 => if pat % 2 == 0 { "".into() } else { format!("<c{} --> a>.", id) }, 3 => "!por NOP ^x".into(), _ => if pat > 1 { "".into() } else { "// x".into() } } };
        let mut files: Vec<Vec<String>> = (0..nfiles).map(|_| (0..flen).map(|k| line(k)).collect()).collect();
        let mut lines: Vec<String> = (0..len).map(|k| line(k)).collect();
        if quit == 1 { files[nfiles - 1][flen - 2] = "!QQ".into(); }
        if quit == 2 { lines[len - 2] = "!QQ".into(); }
        ctx.case("long session", || format!("{} files of {} lines, {} lines, pattern {}, quit {}", nfiles, flen, len, pat, quit), |ctx| {
            let mut args = vec!["it".to_string()];
            for (i, f) in files.iter().enumerate() { let p = format!("{}/l{}.nal", dir, i); std::fs::write(&p, f.join("\n")).map_err(|e| e.to_string())?; args.push(p); }
            let mut cons: HashSet<String> = HashSet::new();
            let (mut want, mut ops) = (vec![], 0usize);
            let mut last = String::new();
            let mut end = false;
            for (l, file) in files.iter().flatten().map(|l| (l, true)).chain(lines.iter().map(|l| (l, false))) {
                if end { break; }
                ctx.transitions += 1;
                let l = if file { l.clone() } else if l.is_empty() { last.clone() } else { last = l.clone(); l.clone() };
                if l == "!QQ" { end = true; }
                else if l == "!dmd" { if !file { want.push(cons.len()); } }
                else if l.starts_with("!por") { ops += 1; }
                else if l.starts_with('<') { for x in mc::refp::impl_parse(&l).ok_or("engine: line")?.term.uniq() { cons.insert(x.printed()); } }
            }
            let mut data: String = lines.join("\n");
            if pat != 1 && !lines.is_empty() { data += "\n"; }
            else if lines.last().map(|l| l.is_empty()).unwrap_or(false) { data += "\n"; }
            let (code, out) = run_program(&args, data.as_bytes())?;
            if code != Some(0) { return Err(format!("the session ended with {:?}", code)); }
            let got: Vec<usize> = out.lines().filter_map(|l| l.strip_prefix("concept count = ").and_then(|x| x.trim().parse().ok())).collect();
            if got != want { return Err(format!("reported numbers of concepts {:?}, expected {:?}", got, want)); }
            let added = out.lines().filter(|l| l.contains("added op")).count();
            if added != ops { return Err(format!("{} operations were registered, expected {}", added, ops)); }
            Ok(())
        });
    } } } } }
}

/// questions asked in a session are answered
fn answers(ctx: &mut Ctx) {
    let cases: [(&[&str], &str, bool); 6] = [
        (&["<a --> b>.", "<a --> ?x>?", "!s300"], "<a --> b>", true),
        (&["<a --> b>.", "<b --> c>.", "<a --> c>?", "!s300"], "<a --> c>", true),
        (&["<a --> b>.", "!s10", "<a --> c>?", "!s20"], "<a --> c>", false),
        (&["<a --> b>.", "!s5", "", "<?x --> b>?", "!s300"], "<a --> b>", true),
        (&["<a --> b>.", "!QQ", "<?x --> b>?", "!s30"], "<a --> b>", false),
        (&["<(a,<{({SELF}*x)} --> ^p>) =/> g>.", "<(a,<{({SELF}*x)} --> ^p>) =/> ?x>?", "!s300"], "=/> g>", true),
    ];
    for (ls, ans, yes) in cases {
        if ctx.stop() || !ctx.mine() { continue; }
        ctx.case("answers", || format!("session {:?}", ls), |_| {
            // the workers of the program run on their own: a answer which is to be derived needs possibly more time
            for k in 0..40 {
                let mut ls: Vec<&str> = ls.to_vec();
                if yes { for _ in 0..k.min(10) * 3 { ls.push("!s300"); } }
                let (code, out) = run_program(&["it".to_string()], (ls.join("\n") + "\n").as_bytes())?;
                if code != Some(0) { return Err(format!("the session ended with {:?}", code)); }
                let got = out.lines().any(|l| l.contains("answer") && l.rsplit("? ").next().map(|x| x.contains(ans)).unwrap_or(false));
                if !yes { return if got { Err("the question was answered".into()) } else { Ok(()) }; }
                if got { return Ok(()); }
                alive();
            }
            Err("the question was not answered in any of 40 sessions".into())
        });
    }
}

/// `got`: numbers of the received messages, `must`: messages which have to be received, `from`: first message after the connection was established
struct Client { w: TcpStream, r: BufReader<TcpStream>, got: Vec<usize>, must: std::collections::BTreeSet<usize>, from: usize, handle: Option<std::thread::JoinHandle<()>>, open: bool }
impl Client {
    /// number of the message
    fn take(&mut self, s: &str, all: usize) -> Result<(), String> {
        let s = s.trim_end_matches('\n');
        let x = s.rsplit("<a --> m").next().and_then(|x| x.split('>').next()).and_then(|x| x.parse::<usize>().ok());
        match x { Some(x) if s.contains("answer") && s.contains("<a --> ?x>") && x < all => { self.got.push(x); Ok(()) }, _ => Err(format!("message {:?} isn't the answer to the question", s)) }
    }
    /// reads up to the message with the number
    fn read(&mut self, to: usize) -> Result<(), String> {
        while self.got.last().map(|x| *x < to).unwrap_or(true) {
            let mut s = String::new();
            match self.r.read_line(&mut s) { Ok(0) => return Err("connection was closed".into()), Ok(_) => self.take(&s, to + 1)?, Err(_) => return Err("a message was not delivered within 10 s".into()) }
        }
        Ok(())
    }
}
struct Srv { global: Arc<Mutex<Global>>, tx: std::sync::mpsc::Sender<String>, rx: Receiver<String>, cl: Vec<Option<Client>>, all: usize, lines: u64 }
impl Srv {
    fn new() -> Srv { let (tx, rx) = channel(); Srv{global: Arc::new(Mutex::new(Global{arr: vec![], idCounter: 0})), tx, rx, cl: vec![None, None], all: 0, lines: 0} }
    fn connect(&mut self, i: usize) -> Result<(), String> {
        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| format!("engine: {}", e))?;
        let w = TcpStream::connect(l.local_addr().unwrap()).map_err(|e| format!("engine: {}", e))?;
        let (s, _) = l.accept().map_err(|e| format!("engine: {}", e))?;
        let (tx, g) = (self.tx.clone(), Arc::clone(&self.global));
        let handle = Some(std::thread::spawn(move || vp_serve(s, tx, g)));
        w.set_nodelay(true).ok();
        let r = w.try_clone().unwrap();
        r.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
        self.cl[i] = Some(Client{w, r: BufReader::new(r), got: vec![], must: Default::default(), from: self.all, handle, open: true});
        self.line(i) // after the first line was received the connection is established
    }
    fn publish(&mut self, k: usize) {
        for _ in 0..k {
            let i = self.all;
            let q = inh(n("a"), R::Q("x".into()));
            let a = inh(n("a"), n(&format!("m{}", i)));
            QHandlerImpl{global: Arc::clone(&self.global)}.answer(&q.t(), &judge(&a, 1.0, 0.9, &[i as i64]));
            self.all += 1;
        }
    }
    fn line(&mut self, i: usize) -> Result<(), String> {
        self.lines += 1;
        let text = match self.lines % 4 { 1 => format!("line {} \u{e9}", self.lines), 2 => format!(" \tline\r{}\u{1F600} ", self.lines), 3 => format!("{}{}", "long ".repeat(2500), self.lines), _ => String::new() };
        let all = self.all;
        let c = self.cl[i].as_mut().unwrap();
        c.w.write_all(format!("{}\n", text).as_bytes()).map_err(|_| "the connection was closed".to_string())?;
        match self.rx.recv_timeout(Duration::from_secs(10)) { Ok(l) if l == text => {}, Ok(l) => return Err(format!("the reasoner received {:?} instead of {:?}", l, text)), Err(_) => return Err(format!("line {:?} did not reach the reasoner", text)) }
        // at least the newest 50 messages are delivered by now, the last line of the client delivered possibly some of the messages which were published meanwhile
        for k in c.from.max(all.saturating_sub(50))..all { c.must.insert(k); }
        if all > c.from { c.read(all - 1)?; }
        Ok(())
    }
    fn check(&mut self, i: usize, bye: bool) -> Result<(), String> {
        let all = self.all;
        let Some(c) = self.cl[i].as_mut() else { return Ok(()) };
        if bye && c.open {
            c.open = false;
            let _ = c.w.shutdown(Shutdown::Write);
            let mut s = String::new();
            loop { s.clear(); match c.r.read_line(&mut s) { Ok(0) => break, Ok(_) => c.take(&s, all)?, Err(_) => { if c.handle.as_ref().map(|h| h.is_finished()).unwrap_or(true) { break; } return Err("the connection isn't closed after the client left".into()); } } }
            if let Some(h) = c.handle.take() { if h.join().is_err() { return Err("the server crashed".into()); } }
        }
        if c.got.windows(2).any(|w| w[0] >= w[1]) || c.got.iter().any(|x| *x < c.from) || c.must.iter().any(|x| !c.got.contains(x)) {
            return Err(format!("client {} (connected at message {}) received the messages {:?} of {}, expected at least {:?}", i, c.from, c.got, all, c.must));
        }
        Ok(())
    }
}

fn c21(ctx: &mut Ctx) {
    // operations: 0 publish, 1/2 line of client, 3/4 (re)connect or leave of client
    let max = if ctx.thorough { 8 } else { 6 };
    for len in 1..=max { for code in 0..5usize.pow(len) {
        if !ctx.violations.is_empty() { break; }
        let ops: Vec<usize> = (0..len).map(|i| code / 5usize.pow(i) % 5).collect();
        // only histories in which the clients are connected when they send; first connected is client 0
        let mut on = [false, false];
        let mut ok = true;
        for o in &ops { match o { 1 | 2 => if !on[o - 1] { ok = false }, 3 | 4 => { if *o == 4 && !on[0] && ops.contains(&3) { ok = false; } on[o - 3] = !on[o - 3]; }, _ => {} } }
        if !ok || !ops.contains(&0) || (!ops.contains(&3) && !ops.contains(&4)) { continue; }
        if !ctx.mine() { continue; }
        server_case(ctx, &ops, 1);
    } }
    // more messages than are kept
    for k in [48usize, 49, 50, 51, 52, 60, 101, 250] { for pat in [&[3usize, 0, 1][..], &[3, 0, 1, 0, 1], &[3, 4, 0, 1, 2, 0, 2, 1], &[0, 3, 0, 1], &[3, 0, 4, 2, 1, 0, 2, 1]] {
        if !ctx.violations.is_empty() { break; }
        if !ctx.mine() { continue; }
        server_case(ctx, pat, k);
    } }
    slow_clients(ctx);
    repeated_messages(ctx);
    if ctx.shard == 0 && ctx.violations.is_empty() { whole_server(ctx); }
}
fn server_case(ctx: &mut Ctx, ops: &[usize], k: usize) {
    let names = ["publish", "line of client 1", "line of client 2", "client 1 connects/leaves", "client 2 connects/leaves"];
    ctx.case("server", || format!("{} messages per publication: {}", k, ops.iter().map(|o| names[*o]).collect::<Vec<_>>().join(" , ")), |ctx| {
        let mut s = Srv::new();
        let mut on = [false, false];
        for o in ops {
            ctx.transitions += 1;
            match o {
                0 => s.publish(k),
                1 | 2 => { s.line(o - 1)?; s.check(o - 1, false)?; },
                _ => { let i = o - 3; if on[i] { s.check(i, true)?; s.cl[i] = None; } else { s.connect(i)?; } on[i] = !on[i]; }
            }
            let n = s.global.lock().unwrap().arr.len();
            if n > 50 { return Err(format!("{} messages are kept", n)); }
        }
        for i in 0..2 { if on[i] { s.line(i)?; s.check(i, true)?; } }
        if let Ok(l) = s.rx.try_recv() { return Err(format!("the reasoner received the additional line {:?}", l)); }
        ctx.state(&format!("{} {:?}", k, ops));
        Ok(())
    });
}

/// long messages and clients which read late
fn slow_clients(ctx: &mut Ctx) {
    for size in [10usize, 100, 5_000, 9_000, 70_000, 400_000] { for count in [1usize, 3, 50] { for wait in [0u64, 150] {
        if !ctx.violations.is_empty() { break; }
        if size * count > 30_000_000 || !ctx.mine() { continue; }
        ctx.case("slow client", || format!("{} messages of {} characters, the client reads after {} ms", count, size, wait), |ctx| {
            let mut s = Srv::new();
            s.connect(0)?;
            let pad = "x".repeat(size);
            for i in 0..count { QHandlerImpl{global: Arc::clone(&s.global)}.answer(&inh(n("a"), R::Q("x".into())).t(), &judge(&inh(n(&pad), n(&format!("m{}", i))), 1.0, 0.9, &[i as i64])); }
            let c = s.cl[0].as_mut().unwrap();
            c.w.write_all(b"line\n").map_err(|e| e.to_string())?;
            std::thread::sleep(Duration::from_millis(wait));
            for i in 0..count {
                let mut l = String::new();
                match c.r.read_line(&mut l) { Ok(k) if k > 0 => {}, _ => return Err(format!("message {} was not delivered", i)) }
                alive();
                if !l.contains(&format!("<{} --> m{}>", pad, i)) || l.len() > size + 100 { return Err(format!("message {} with {} characters was received as {} characters {:?}...", i, size, l.len(), l.chars().take(60).collect::<String>())); }
                ctx.transitions += 1;
            }
            let _ = c.w.shutdown(Shutdown::Both);
            if let Some(h) = c.handle.take() { if h.join().is_err() { return Err("the server crashed".into()); } }
            Ok(())
        });
    } } }
}

/// messages which are equal to each other are messages of their own
fn repeated_messages(ctx: &mut Ctx) {
    for len in 1..=6u32 { for code in 0..3usize.pow(len) { for rep in [1usize, 9] {
        if !ctx.violations.is_empty() { break; }
        // 0, 1: one of two messages is published, 2: the client sends a line
        let ops: Vec<usize> = (0..len).map(|i| code / 3usize.pow(i) % 3).collect();
        if !ctx.mine() { continue; }
        ctx.case("repeated", || format!("messages and lines (2) {:?}, each message {} times", ops, rep), |ctx| {
            let mut s = Srv::new();
            s.connect(0)?;
            let mut want: Vec<usize> = vec![];
            let mut got: Vec<usize> = vec![];
            for o in ops.iter().chain([&2]) {
                ctx.transitions += 1;
                if *o < 2 { for _ in 0..rep { QHandlerImpl{global: Arc::clone(&s.global)}.answer(&inh(n("a"), R::Q("x".into())).t(), &judge(&inh(n("a"), n(&format!("m{}", o))), 1.0, 0.9, &[1])); want.push(*o); } continue; }
                let c = s.cl[0].as_mut().unwrap();
                c.w.write_all(b"line\n").map_err(|e| e.to_string())?;
                // the messages of the step before may be under way with the line before
                let lost = want.len().saturating_sub(got.len()).saturating_sub(50);
                want.drain(got.len()..got.len() + lost);
                while got.len() < want.len() {
                    let mut l = String::new();
                    match c.r.read_line(&mut l) { Ok(k) if k > 0 => {}, _ => return Err(format!("received the messages {:?} of {:?} only", got, want)) }
                    got.push((0..2).find(|i| l.contains(&format!("<a --> m{}>", i))).ok_or_else(|| format!("message {:?} is unknown", l))?);
                }
            }
            let c = s.cl[0].as_mut().unwrap();
            let _ = c.w.shutdown(Shutdown::Write);
            let mut l = String::new();
            while let Ok(k) = c.r.read_line(&mut l) { if k == 0 { break; } return Err(format!("additional message {:?}", l)); }
            if let Some(h) = c.handle.take() { if h.join().is_err() { return Err("the server crashed".into()); } }
            if got != want { return Err(format!("received the messages {:?}, expected {:?}", got, want)); }
            Ok(())
        });
    } } }
}

/// the whole server process
fn whole_server(ctx: &mut Ctx) {
    // expected messages of a history of lines: (client, line)
    let hist: Vec<Vec<(usize, &str)>> = vec![
        vec![(0, "!dmd"), (0, ""), (1, "")],
        vec![(0, "<a --> b>."), (1, "!dmd"), (0, "!dmd")],
        vec![(0, "<a --> b>."), (1, "!dmd"), (0, "<c --> d>."), (1, "!dmd"), (1, "))"), (1, "!dmd")],
        vec![(0, "<a --> b>."), (0, "<a --> ?x>?"), (0, "!s300"), (1, "!dmd")],
        vec![(0, "!QQ"), (1, "!dmd")],
        vec![(0, "é"), (1, "!sé"), (0, "!s-"), (1, "!dmd")],
        // a client which leaves before its connection is accepted
        vec![(0, "!dmd"), (9, ""), (1, "!dmd"), (0, "!dmd")],
    ];
    for h in hist {
        if ctx.stop() { return; }
        if TcpStream::connect("127.0.0.1:2039").is_ok() { ctx.note("server port in use", 1); return; }
        ctx.case("whole server", || format!("lines {:?}", h), |ctx| {
            let mut ch = Command::new(program()).arg("srv").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| format!("engine: {}", e))?;
            let r = whole_case(ctx, &h, ch.id());
            let dead = ch.try_wait().ok().flatten();
            let _ = ch.kill();
            let _ = ch.wait();
            r?;
            if let Some(d) = dead { return Err(format!("the server ended: {:?}", d)); }
            Ok(())
        });
    }
    for k in [5usize, 49, 50, 51, 55, 130] {
        if !ctx.violations.is_empty() { return; }
        ctx.case("silent client", || format!("{} messages while a client is silent", k), |ctx| {
            let mut ch = Command::new(program()).arg("srv").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| format!("engine: {}", e))?;
            let r = silent_client(ctx, k, ch.id());
            let dead = ch.try_wait().ok().flatten();
            let _ = ch.kill();
            let _ = ch.wait();
            r?;
            if let Some(d) = dead { return Err(format!("the server ended: {:?}", d)); }
            Ok(())
        });
    }
}
fn whole_case(ctx: &mut Ctx, h: &[(usize, &str)], pid: u32) -> Result<(), String> {
    let mut cl = vec![];
    let t0 = Instant::now();
    while cl.len() < 2 {
        match TcpStream::connect("127.0.0.1:2039") {
            Ok(s) => { let r = s.try_clone().unwrap(); r.set_read_timeout(Some(Duration::from_millis(100))).unwrap(); cl.push((s, BufReader::new(r), vec![] as Vec<String>)); },
            Err(_) => { alive(); if t0.elapsed() > Duration::from_secs(60) { return Err("the server doesn't accept connections".into()); } std::thread::sleep(Duration::from_millis(20)); }
        }
    }
    let mut cons: HashSet<String> = HashSet::new();
    let mut want: Vec<String> = vec![];
    // the counter of a client is synchronized when its connection is served: wait for it with a marker
    let poll = |c: &mut (TcpStream, BufReader<TcpStream>, Vec<String>), k: usize| -> Result<(), String> {
        let t0 = Instant::now();
        while c.2.len() < k {
            alive();
            if t0.elapsed() > Duration::from_secs(60) { return Err(format!("received {:?} only", c.2)); }
            c.0.write_all(b"\n").map_err(|e| e.to_string())?;
            let mut s = String::new();
            while let Ok(n) = c.1.read_line(&mut s) { if n == 0 { return Err("connection closed".into()); } c.2.push(s.trim().to_string()); s.clear(); if c.2.len() >= k { break; } }
        }
        Ok(())
    };
    // both connections are served when both clients got the answer to a line of the second client
    for i in 0..2 {
        cl[i].0.write_all(format!("<x{} --> y{}>.\n!dmd\n", i, i).as_bytes()).map_err(|e| e.to_string())?;
        for x in ["x", "y"] { cons.insert(format!("{}{}", x, i)); }
        cons.insert(format!("<x{} --> y{}>", i, i));
        let msg = format!("concept count = {}", cons.len());
        for c in cl[..=i].iter_mut() { let t0 = Instant::now(); loop { if c.2.iter().any(|x| x.contains(&msg)) { break; } if t0.elapsed() > Duration::from_secs(60) { return Err(format!("received {:?}, expected {:?}", c.2, msg)); } let k = c.2.len() + 1; poll(c, k)?; } }
    }
    for c in cl.iter_mut() { c.2.clear(); }
    for (i, l) in h {
        ctx.transitions += 1;
        if *i == 9 {
            // the process is stopped while a client connects and resets the connection
            signal(pid, 19);
            std::thread::sleep(Duration::from_millis(50));
            for _ in 0..3 { if let Ok(s) = TcpStream::connect("127.0.0.1:2039") { reset(s); } }
            signal(pid, 18);
            std::thread::sleep(Duration::from_millis(200));
            continue;
        }
        cl[*i].0.write_all(format!("{}\n", l).as_bytes()).map_err(|e| e.to_string())?;
        if *l == "!dmd" { want.push(format!("concept count = {}", cons.len())); }
        if let Some(s) = mc::refp::impl_parse(l) { if s.punct == '.' { for x in s.term.uniq() { cons.insert(x.printed()); } } }
        if *l == "!s300" { want.push("<a --> b>.".into()); }
        if *l != "!dmd" {
            // the line was handled when a line after it from the same client was answered
            cl[*i].0.write_all(b"!dmd\n").map_err(|e| e.to_string())?;
            want.push(format!("concept count = {}", cons.len()));
        }
        for c in cl.iter_mut() { poll(c, want.len())?; }
    }
    // nothing more comes
    for (k, c) in cl.iter_mut().enumerate() {
        for _ in 0..3 { c.0.write_all(b"\n").map_err(|e| e.to_string())?; let mut s = String::new(); while let Ok(n) = c.1.read_line(&mut s) { if n == 0 { break; } c.2.push(s.trim().to_string()); s.clear(); } }
        if c.2.len() != want.len() || c.2.iter().zip(&want).any(|(a, b)| !a.contains(b.as_str())) { return Err(format!("client {} received {:?}, expected {:?}", k, c.2, want)); }
    }
    Ok(())
}

/// a client is silent while more messages are published than are kept
fn silent_client(ctx: &mut Ctx, k: usize, pid: u32) -> Result<(), String> {
    let _ = pid;
    let connect = || -> Result<(TcpStream, BufReader<TcpStream>), String> {
        let t0 = Instant::now();
        loop { match TcpStream::connect("127.0.0.1:2039") { Ok(s) => { let r = s.try_clone().unwrap(); r.set_read_timeout(Some(Duration::from_millis(300))).unwrap(); return Ok((s, BufReader::new(r))); }, Err(_) => { alive(); if t0.elapsed() > Duration::from_secs(60) { return Err("the server doesn't accept connections".into()); } std::thread::sleep(Duration::from_millis(20)); } } }
    };
    // messages available for a client
    let drain = |c: &mut (TcpStream, BufReader<TcpStream>)| -> Result<Vec<String>, String> {
        c.0.write_all(b"\n").map_err(|e| e.to_string())?;
        let mut v = vec![];
        let mut s = String::new();
        while let Ok(n) = c.1.read_line(&mut s) { if n == 0 { return Err("connection closed".into()); } v.push(s.trim().to_string()); s.clear(); }
        alive();
        Ok(v)
    };
    let until = |c: &mut (TcpStream, BufReader<TcpStream>), x: &str| -> Result<Vec<String>, String> {
        let t0 = Instant::now();
        let mut v = vec![];
        while !v.iter().any(|l: &String| l == x) { if t0.elapsed() > Duration::from_secs(60) { return Err(format!("{:?} was not received, only {:?}", x, v)); } v.extend(drain(c)?); }
        Ok(v)
    };
    let mut a = connect()?;
    let mut b = connect()?;
    // both are served
    a.0.write_all(b"!dmd\n").map_err(|e| e.to_string())?;
    until(&mut a, "concept count = 0")?;
    b.0.write_all(b"<p0 --> q>.\n!dmd\n").map_err(|e| e.to_string())?;
    until(&mut b, "concept count = 3")?;
    until(&mut a, "concept count = 3")?;
    // each line gives one message which differs from all others
    for i in 1..=k { a.0.write_all(format!("<p{} --> q>.\n!dmd\n", i).as_bytes()).map_err(|e| e.to_string())?; alive(); }
    let all: Vec<String> = (1..=k).map(|i| format!("concept count = {}", 3 + 2 * i)).collect();
    let mut got = until(&mut a, all.last().unwrap())?;
    got.extend(drain(&mut a)?);
    // what the sender received while it was sending is in order and without repetition
    let ix: Vec<Option<usize>> = got.iter().map(|m| all.iter().position(|x| x == m)).collect();
    if ix.iter().any(|x| x.is_none()) || ix.windows(2).any(|w| w[0] >= w[1]) { return Err(format!("the sender received {:?}", got)); }
    let want: Vec<String> = all[k.saturating_sub(50)..].to_vec();
    let mut silent = drain(&mut b)?;
    for _ in 0..30 { if silent.len() >= want.len() { break; } silent.extend(drain(&mut b)?); }
    if silent != want { return Err(format!("the silent client received {} messages {:?}, expected the newest {} {:?}", silent.len(), silent, want.len(), want)); }
    if !drain(&mut b)?.is_empty() { return Err("messages were delivered twice".into()); }
    ctx.transitions += k as u64;
    Ok(())
}
extern "C" { fn kill(pid: i32, sig: i32) -> i32; fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32; }
/// signal to a process which was started by this check
fn signal(pid: u32, sig: i32) { unsafe { kill(pid as i32, sig); } }
/// closes the connection with a reset
fn reset(s: TcpStream) { use std::os::unix::io::AsRawFd; let v = [1i32, 0]; unsafe { setsockopt(s.as_raw_fd(), 1, 13, v.as_ptr(), 8); } drop(s); }

fn main() {
    main_of(&[
        Check{id: "C19", rule: "every sequence of up to 2 (thorough 3) of 39 lines after three preparations, every text up to 4 (5) symbols over 14 symbols, every single edit of 13 commands, every file of up to 4 (5) of 7 lines: the complete state after each line is compared with the one after the same actions through the interface for programs", assumptions: &["both reasoners are run with the same deterministic schedule and random draws", "natural language input is not covered"], run: c19},
        Check{id: "C20", rule: "every session of up to 3 (4) of 10 lines in three styles (with and without final line end, with files) with the real program as a process: it ends, with the reported numbers of concepts and tasks of the reference", assumptions: &["a session which doesn't end within 40 s never ends"], run: c20},
        Check{id: "C21", rule: "every history of publications, lines and (dis)connections of two clients up to 6 (8) operations with real connections, bursts around the limit of kept messages, histories with the whole server process", assumptions: &["clients and publications are serialized; schedules inside of the asynchronous runtime are not controlled"], run: c21},
    ]);
}
