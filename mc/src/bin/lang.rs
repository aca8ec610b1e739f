//! C01..C04: the language of the system
use mc::engine::*;
use mc::refp;
use mc::rt::*;
use mc::refrules::ref_unify;
use nar20_1::Term::{self as tm, Term};

fn show(s: &Option<refp::Sent>) -> String {
    match s { None => "rejected".into(), Some(s) => format!("{:?}", s) }
}
fn cmp(text: &str) -> Result<(), String> {
    let want = refp::parse(text);
    let got = refp::impl_parse(text);
    let same = match (&want, &got) {
        (None, None) => true,
        (Some(a), Some(b)) => a.term == b.term && a.punct == b.punct && a.event == b.event && near(a.f, b.f) && near(a.c, b.c),
        _ => false
    };
    if same { Ok(()) } else { Err(format!("expected {}\n  got {}", show(&want), show(&got))) }
}
/// the text denotes exactly that sentence
fn denotes(text: &str, term: &R, f: f64, c: f64, p: char, ev: bool) -> Result<(), String> {
    let got = refp::impl_parse(text);
    match &got {
        Some(g) if g.term == *term && g.punct == p && g.event == ev && near(g.f, f) && near(g.c, c) => Ok(()),
        _ => Err(format!("expected {:?} {{{} {}}} {} event={}\n  got {}", term, f, c, p, ev, show(&got)))
    }
}

fn atoms() -> Vec<R> { vec![n("a"), n("B-2"), n("^op_x"), R::Q("x".into()), R::D("y".into()), R::I("z".into())] }

const TAILS: &[(&str, f64, f64)] = &[("", 1.0, 0.9), (" {0.4 0.8}", 0.4, 0.8), ("{0.25 0.5}", 0.25, 0.5), (" {0 1}", 0.0, 1.0), (" {1.0 0}", 1.0, 0.0), ("  {0.1 0.99}", 0.1, 0.99)];

/// blocks of 256 characters which are considered
fn char_block(b: u32, thorough: bool) -> bool { thorough || b < 0x40 || (0x4e..0x50).contains(&b) || (0xa0..0xb0).contains(&b) || (0xf9..0x108).contains(&b) || (0x10d..0x115).contains(&b) || (0x1d0..0x1fb).contains(&b) || [0x200, 0x2f8, 0x300, 0xe00, 0x10ff].contains(&b) }

fn c01(ctx: &mut Ctx) {
    let at = atoms();
    let mut terms: Vec<R> = at.clone();
    let l1 = layer(&at, false, true);
    terms.extend(l1.clone());
    // all nestings of two constructors
    let core = [n("a"), R::I("z".into())];
    let c1 = layer(&core, false, false);
    let mut l2base: Vec<R> = vec![n("b")];
    l2base.extend(layer(&[n("a")], false, true));
    l2base.push(inh(n("a"), R::Q("q".into())));
    l2base.push(c(K::Prod, &[n("a"), n("b"), n("c"), n("d")]));
    l2base.push(c(K::Seq, &[n("a"), n("b"), n("c"), n("d"), n("e")]));
    l2base.push(c(K::Conj, &[n("a"), n("b"), n("c"), n("d")]));
    let l2 = layer(&l2base, false, true);
    terms.extend(l2);
    terms.extend(layer(&c1[..], false, false));
    // three levels: every constructor in every constructor in every constructor
    let mut small = layer(&[n("a")], false, false);
    small.truncate(small.len());
    let mut l3: Vec<R> = vec![];
    for x in &small { for y in wrap(x) { for z in wrap(&y) { l3.push(z); } } }
    terms.extend(l3);
    {
        let mut l4 = vec![];
        for x in &small { for y in wrap(x) { for z in wrap1(&y) { for w in if ctx.thorough { wrap(&z) } else { wrap1(&z) } { l4.push(w); } } } }
        terms.extend(l4);
    }
    for t in &terms {
        if !ctx.mine() { continue; }
        if ctx.stop() { return; }
        let s = t.nal();
        ctx.case("denotation", || format!("parse {}.", s), |_| denotes(&format!("{}.", s), t, 1.0, 0.9, '.', false));
    }
    // repeated components: every tuple
    for (k, al, w) in [(K::Seq, 2usize, 7usize), (K::Prod, 2, 7), (K::Conj, 3, 4), (K::Seq, 3, 4), (K::Prod, 3, 4), (K::IntInt, 4, 2), (K::ExtInt, 4, 2), (K::Conj, 5, if ctx.thorough { 4 } else { 3 }), (K::Seq, 5, if ctx.thorough { 5 } else { 3 }), (K::Prod, 5, if ctx.thorough { 5 } else { 3 })] {
        let parts = [n("a"), n("b"), inh(n("a"), n("b")), R::I("a".into()), c(K::SetExt, &[n("a")])];
        for len in 2..=w { for code in 0..al.pow(len as u32) {
            if ctx.stop() { return; }
            if !ctx.mine() { continue; }
            let t = c(k, &(0..len).map(|i| parts[code / al.pow(i as u32) % al].clone()).collect::<Vec<_>>());
            for t in [t.clone(), inh(t.clone(), n("a")), imp(n("b"), t)] {
                let s = t.nal();
                ctx.case("denotation", || format!("parse {}.", s), |_| denotes(&format!("{}.", s), &t, 1.0, 0.9, '.', false));
            }
        } }
    }
    // deep nesting
    for x in 0..wrap(&n("a")).len() { for d in 5..100 {
        if !ctx.thorough && d >= 40 && ![47, 48, 49, 50, 51, 63, 64, 65, 79, 80, 98, 99].contains(&d) { continue; }
        if !ctx.mine() { continue; }
        let mut t = n("a");
        for _ in 0..d { t = wrap(&t)[x].clone(); }
        if t.complexity() > 2000 { continue; }
        ctx.case("denotation", || format!("parse {}.", t.nal()), |_| denotes(&format!("{}.", t.nal()), &t, 1.0, 0.9, '.', false));
    } }
    // every letter and digit there is
    for block in 0..0x110000u32 / 256 {
        if ctx.stop() { return; }
        if !char_block(block, ctx.thorough) || !ctx.mine() { continue; }
        ctx.case("letters", || format!("names with the characters {:x}..{:x}", block * 256, block * 256 + 256), |ctx| {
            for ch in (block * 256..block * 256 + 256).filter_map(char::from_u32).filter(|c| c.is_alphanumeric()) {
                ctx.transitions += 1;
                let (x, y, z) = (n(&ch.to_string()), n(&format!("a{}b", ch)), R::I(ch.to_string()));
                let t = inh(c(K::SetExt, &[x]), c(K::Prod, &[y, z]));
                denotes(&format!("{}.", t.nal()), &t, 1.0, 0.9, '.', false)?;
            }
            Ok(())
        });
    }
    // modifiers
    let base: Vec<R> = at.iter().cloned().chain(l1.into_iter().step_by(7)).collect();
    for t in &base {
        for p in ['.', '!', '?'] { for (tv, f, c) in TAILS { for ev in [false, true] { for sp in ["", " ", "  "] {
            if !ctx.mine() { continue; }
            let s = format!("{}{}{}{}", t.fmt(sp), p, tv, if ev { " :|:" } else { "" });
            ctx.case("denotation", || format!("parse {}", s), |_| denotes(&s, t, *f, *c, p, ev));
        } } } }
    }
    // all truth values of a grid
    let steps = if ctx.thorough { 1000 } else { 100 };
    for i in 0..=steps { for j in 0..=steps {
        if !ctx.mine() { continue; }
        let (f, c) = (i as f64 / steps as f64, j as f64 / steps as f64);
        let s = format!("<a --> b>. {{{} {}}}", f, c);
        ctx.case("denotation", || format!("parse {}", s), |_| denotes(&s, &inh(n("a"), n("b")), f, c, '.', false));
    } }
    // long names and wide compounds
    for len in [1usize, 2, 63, 64, 65, 255, 256, 257, 511, 512] {
        if !ctx.mine() { continue; }
        let nm: String = (0..len).map(|i| if i % 5 == 4 { '-' } else { (b'a' + (i % 26) as u8) as char }).collect();
        ctx.case("denotation", || format!("name of length {}", len), |_| denotes(&format!("<{} --> b>.", nm), &inh(n(&nm), n("b")), 1.0, 0.9, '.', false));
    }
    for k in [K::Seq, K::Prod] { for w in 2..=40 {
        if !ctx.mine() { continue; }
        let t = c(k, &(0..w).map(|i| n(&format!("e{}", i))).collect::<Vec<_>>());
        ctx.case("denotation", || format!("{:?} of width {}", k, w), |_| denotes(&format!("{}.", t.nal()), &t, 1.0, 0.9, '.', false));
    } }
}
/// x below every constructor
fn wrap(x: &R) -> Vec<R> {
    let o = n("o");
    let mut r = wrap1(x);
    for cc in COPS { r.push(st(cc, o.clone(), x.clone())); }
    for k in [K::Seq, K::Conj, K::Prod, K::IntInt, K::ExtInt] { r.push(c(k, &[o.clone(), x.clone()])); }
    r.push(img(o.clone(), 0, x.clone()));
    r.push(img(o.clone(), 1, x.clone()));
    for k in [K::Seq, K::Conj, K::Prod] { r.push(c(k, &[o.clone(), x.clone(), n("u")])); }
    r
}
fn wrap1(x: &R) -> Vec<R> {
    let o = n("o");
    let mut r = vec![neg(x.clone()), c(K::SetInt, &[x.clone()]), c(K::SetExt, &[x.clone()])];
    for cc in COPS { r.push(st(cc, x.clone(), o.clone())); }
    for k in [K::Seq, K::Conj, K::Prod, K::IntInt, K::ExtInt] { r.push(c(k, &[x.clone(), o.clone()])); }
    r.push(img(x.clone(), 0, o.clone()));
    r.push(img(x.clone(), 1, o.clone()));
    r
}

fn c02(ctx: &mut Ctx) {
    // all texts up to a length over alphabets
    let sets: Vec<(&str, usize)> = if ctx.thorough {
        vec![("a<>(){}[].!? ", 7), ("a*,&|()!. ", 8), ("ab<> -=./", 8), ("a.{}01 5-e", 8), ("a.:| {1}", 9), ("aä.?é✓{}", 8)]
    } else {
        vec![("a<>(){}[].!? ", 6), ("a*,&|()!. ", 6), ("ab<> -=./", 7), ("a.{}01 5-e", 6), ("a.:| {1}", 7), ("aä.?é✓{}", 6)]
    };
    for (al, maxlen) in sets {
        let al: Vec<char> = al.chars().collect();
        for len in 0..=maxlen {
            let total = (al.len() as u64).pow(len as u32);
            for i in 0..total {
                if ctx.stop() { return; }
                if !ctx.mine() { continue; }
                let mut x = i;
                let mut s = String::new();
                for _ in 0..len { s.push(al[(x % al.len() as u64) as usize]); x /= al.len() as u64; }
                ctx.case("verdict", || format!("parse {:?}", s), |_| cmp(&s));
            }
        }
    }
    // all texts of tokens
    let toks = ["a", "$b", "<", ">", " --> ", " =/> ", "(", ")", ",", "*", "&&", "&", "|", "{", "}", "[", "]", " /1 ", "!", ".", "?", " :|:", "{0.5 0.5}"];
    let maxt = if ctx.thorough { 5 } else { 4 };
    for len in 1..=maxt {
        let total = (toks.len() as u64).pow(len as u32);
        for i in 0..total {
            if ctx.stop() { return; }
            if !ctx.mine() { continue; }
            let mut x = i;
            let mut s = String::new();
            for _ in 0..len { s += toks[(x % toks.len() as u64) as usize]; x /= toks.len() as u64; }
            s.push('.');
            ctx.case("verdict", || format!("parse {:?}", s), |_| cmp(&s));
        }
    }
    // every character at every kind of place
    for block in 0..0x110000u32 / 256 {
        if ctx.stop() { return; }
        if !char_block(block, ctx.thorough) || !ctx.mine() { continue; }
        ctx.case("characters", || format!("texts with the characters {:x}..{:x}", block * 256, block * 256 + 256), |ctx| {
            for ch in (block * 256..block * 256 + 256).filter_map(char::from_u32) {
                ctx.transitions += 1;
                for (a, b) in [("", "."), ("a", "."), ("<a", " --> b>."), ("<a -->", "b>."), ("<a --> b>", "."), ("<a --> b>.", ""), ("<a --> b>. {0.", " 0.5}"), ("<$", " --> b>."), ("(a", "b)!"), ("a. :", ":")] {
                    let s = format!("{}{}{}", a, ch, b);
                    cmp(&s).map_err(|e| format!("text {:?}: {}", s, e))?;
                }
            }
            Ok(())
        });
    }
    // all single (thorough: selected double) edits of valid sentences
    let seeds = ["<a --> b>. {0.4 0.8}", "<(a,{({SELF}*x)}) =/> b>. :|:", "<(a&&c&&d) ==> <$x --> [y]>>?", "<(r /1 c) <-> (a|b)>. {1 0.9} :|:", "(!<?a <=> #b>)!", "<(a&b) --> x>.", "(a,c,d)! {0.5 0.5} :|:", "<{(a * c)} --> ^op>."];
    let ins: Vec<char> = "aä \u{1F600}<>(){}[],*&|!?.-=/:$#0\u{0}\t\n".chars().collect();
    for s in seeds {
        let cs: Vec<char> = s.chars().collect();
        let mut edits: Vec<String> = vec![];
        let push = |cs: &Vec<char>, edits: &mut Vec<String>| {
            for i in 0..=cs.len() {
                for x in &ins {
                    let mut v = cs.clone();
                    v.insert(i, *x);
                    edits.push(v.iter().collect());
                    if i < cs.len() { let mut v = cs.clone(); v[i] = *x; edits.push(v.iter().collect()); }
                }
                if i < cs.len() { let mut v = cs.clone(); v.remove(i); edits.push(v.iter().collect()); }
                if i + 1 < cs.len() { let mut v = cs.clone(); v.swap(i, i + 1); edits.push(v.iter().collect()); }
                edits.push(cs[..i].iter().collect());
                edits.push(cs[i..].iter().collect());
                edits.push(cs[..i].iter().chain(cs.iter()).collect());
                // every substring replaced by nothing
                for j in i + 2..=cs.len().min(i + if true { 12 } else { 0 }) { edits.push(cs[..i].iter().chain(cs[j..].iter()).collect()); }
            }
        };
        push(&cs, &mut edits);
        if ctx.thorough {
            let first = edits.clone();
            for e in first.iter().step_by(5) {
                let cs: Vec<char> = e.chars().collect();
                for i in 0..cs.len() {
                    let mut v = cs.clone(); v.remove(i); edits.push(v.iter().collect());
                    for x in ['a', '>', ')', '(', 'ä', ' '] { let mut v = cs.clone(); v[i] = x; edits.push(v.iter().collect()); }
                }
            }
        }
        for e in &edits {
            if ctx.stop() { return; }
            if !ctx.mine() { continue; }
            ctx.case("verdict", || format!("parse {:?}", e), |_| cmp(e));
        }
    }
    // deep and unbalanced nesting: never a crash or a endless search
    for (o, cl) in [("(", ",b)"), ("(", "*b)"), ("(", "&&b)"), ("(", "&&b&&c)"), ("(", " /2 b)"), ("(b&&", "&&c)"), ("(b,", ")"), ("(b /1 ", ")"), ("{", "}"), ("[", "]"), ("(!", ")"), ("<", " --> b>"), ("<b ==> ", ">"), ("<({", "}*b) --> c>")] {
        for d in [2usize, 5, 10, 20, 50, 100, 250, 499, 500, 501, 502, 1000, 5000, 100000] { for cut in [0usize, 1, d / 2, d] {
            if ctx.stop() { return; }
            if !ctx.mine() { continue; }
            let s = format!("{}a{}.", o.repeat(d), cl.repeat(d - cut));
            ctx.case("nesting", || format!("parse {} times {:?}, a, {} times {:?}", d, o, d - cut, cl), |_| {
                if d <= 100 { cmp(&s) } else if cut > 0 { if nar20_1::NarseseParser::parseNarsese(&s).is_none() { Ok(()) } else { Err("accepted".into()) } } else { let _ = nar20_1::NarseseParser::parseNarsese(&s); Ok(()) }
            });
        } }
    }
    // malformed truth values and names
    let nums = ["0", "1", "0.5", "-0.1", "1.1", "2", "1e-1", "1e5", "nan", "NaN", "inf", "-inf", "", "x", ".5", "+0.3", "0,5", "0x1", "1_0", "é"];
    for x in nums { for y in nums { for (l, m, r) in [("{", " ", "}"), (" {", " ", "}"), (" {", "  ", "}"), (" {", "\t", "}"), (" {", " ", "} "), (" {", " ", "0.2}"), ("{ ", " ", "}"), (" {", ";", "}"), (" ", " ", "}"), (" {", " ", "")] {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let s = format!("<a --> b>.{}{}{}{}{}", l, x, m, y, r);
        ctx.case("verdict", || format!("parse {:?}", s), |_| cmp(&s));
    } } }
    for len in [513usize, 514, 600, 1024, 1025] { for form in ["{}.", "<{} --> b>.", "<a --> {}>.", "({},b).", "?{}?"] {
        if !ctx.mine() { continue; }
        let s = form.replace("{}", &"n".repeat(len));
        ctx.case("verdict", || format!("name of length {} in {}", len, form), |_| cmp(&s));
    } }
}

/// terms which differ only late: at one position of a wide compound, at the bottom of a deep term, at one
/// character of a long name, in the index of a image
fn sized(max: usize) -> Vec<R> {
    let mut r = vec![];
    let e = |i: usize| n(&format!("e{}", i));
    for w in 1..=max {
        let base: Vec<R> = (0..w).map(e).collect();
        let mut vs = vec![base.clone()];
        for i in 0..w { let mut v = base.clone(); v[i] = n("x"); vs.push(v); }
        if w > 1 { let mut v = base.clone(); v.swap(w-1, w-2); vs.push(v); let mut v = base.clone(); v[w-1] = v[0].clone(); vs.push(v); let mut v = base.clone(); v[w-1] = inh(n("x"), n("y")); vs.push(v); }
        for v in vs {
            for k in KINDS { r.push(R::C(k, v.clone())); }
            r.push(R::Img(Box::new(n("r")), w/2, v.clone()));
            if v == base { for i in 0..=w { r.push(R::Img(Box::new(n("r")), i, v.clone())); } r.push(R::Img(Box::new(n("r2")), w, v.clone())); }
        }
    }
    // deep
    for (q, f) in [(0, Box::new(|x: R| inh(x, n("k"))) as Box<dyn Fn(R) -> R>), (1, Box::new(|x: R| inh(n("k"), x))), (2, Box::new(|x: R| neg(x))), (3, Box::new(|x: R| c(K::Prod, &[n("k"), x]))), (4, Box::new(|x: R| c(K::SetExt, &[x]))), (5, Box::new(|x: R| img(x, 0, n("k")))), (6, Box::new(|x: R| c(K::Seq, &[x, n("k")]))), (7, Box::new(|x: R| imp(c(K::Conj, &[n("k"), x]), n("k")))) ] {
        let _ = q;
        for bottom in [n("a"), n("b"), R::I("a".into())] {
            let mut t = bottom;
            for _ in 0..max { t = f(t); r.push(t.clone()); }
        }
    }
    // long names
    for l in 1..=(4*max) {
        let s = "n".repeat(l);
        r.push(n(&s));
        r.push(n(&format!("{}m", s)));
        r.push(n(&format!("m{}", s)));
        r.push(R::I(format!("{}m", s)));
        r.push(R::I(s));
    }
    r
}

fn c03(ctx: &mut Ctx) {
    let mut ts: Vec<R> = vec![n("a"), n("b"), R::Q("a".into()), R::D("a".into()), R::I("a".into()), R::I("b".into())];
    let ats = ts.clone();
    ts.extend(layer(&ats, true, false));
    ts.extend(layer(&ats[..2], true, true).into_iter().filter(|x| x.kids().len() == 3));
    let mut two = layer(&[n("a"), c(K::Prod, &[n("a"), n("b")]), inh(n("a"), n("b")), inh(n("b"), n("a")), img(n("a"), 0, n("b")), img(n("b"), 1, n("a")), neg(n("a")), c(K::SetExt, &[n("a"), n("b")]), R::Img(Box::new(n("r")), 1, vec![n("a"), n("b")]), R::Img(Box::new(n("r")), 2, vec![n("a"), n("b")])], true, false);
    if ctx.thorough { two.extend(layer(&ts[..80], true, false)); }
    ts.extend(two);
    ts.extend(sized(if ctx.thorough {16} else {9}));
    ts.sort();
    ts.dedup();
    let impls: Vec<Term> = ts.iter().map(|t| t.t()).collect();
    let h = |t: &Term| { use std::hash::{Hash, Hasher}; let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() };
    let hs: Vec<u64> = impls.iter().map(h).collect();
    for i in 0..ts.len() {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let t = &ts[i];
        let it = &impls[i];
        ctx.case("structure", || format!("structure of {}", t.printed()), |_| {
            let p = tm::convTermToStr(it);
            if p != t.printed() { return Err(format!("printed as {:?}, expected {:?}", p, t.printed())); }
            let mut a: Vec<R> = tm::retSubterms(it).iter().map(|x| R::of(x)).collect();
            let mut b = t.subs();
            a.sort(); b.sort();
            if a != b { return Err(format!("subterms {:?} expected {:?}", a, b)); }
            let mut a: Vec<R> = tm::retUniqueSubterms(it).iter().map(|x| R::of(x)).collect();
            a.sort();
            if a != t.uniq() { return Err(format!("unique subterms {:?} expected {:?}", a, t.uniq())); }
            let cx = tm::calcComplexity(it) as i64;
            if cx != t.complexity() { return Err(format!("complexity {} expected {}", cx, t.complexity())); }
            let cl = it.clone();
            if R::of(&cl) != *t || !tm::checkEqTerm(&cl, it) || h(&cl) != hs[i] { return Err("copy differs".into()); }
            for w in t.uniq() {
                let k = tm::count_occurence_subterms(it, &w.t());
                if k != t.count(&w) { return Err(format!("{} occurs {} times, expected {}", w.printed(), k, t.count(&w))); }
            }
            if tm::count_occurence_subterms(it, &n("zz").t()) != 0 { return Err("absent term is counted".into()); }
            // what is printed can be read again
            if t.writable() {
                match refp::impl_parse(&format!("{}.", t.nal())) { Some(s) if s.term == *t => {}, o => return Err(format!("read back as {:?}", o)) }
            }
            Ok(())
        });
        for j in 0..ts.len() {
            if ctx.stop() { return; }
            ctx.transitions += 1;
            let e = tm::checkEqTerm(it, &impls[j]);
            let e2 = *it == impls[j];
            if e != (i == j) || e2 != (i == j) { ctx.violate("equality", format!("{} and {}: equal {} / {}", t.printed(), ts[j].printed(), e, e2)); }
            if i == j && hs[i] != hs[j] { ctx.violate("equality", "hash".to_string()); }
        }
        ctx.note("pairs compared", ts.len() as u64);
    }
    // op encoding
    let args: Vec<Vec<R>> = vec![vec![n("a")], vec![n("a"), n("b")], vec![c(K::SetExt, &[n("SELF")]), n("x"), inh(n("u"), n("v"))], vec![c(K::Prod, &[n("a"), n("b")])]];
    for a in &args { for name in ["^op", "^nal9_exeAndInject", "x"] {
        if !ctx.mine() { continue; }
        ctx.case("ops", || format!("op {} {:?}", name, a), |_| {
            let av: Vec<Term> = a.iter().map(|x| x.t()).collect();
            let e = nar20_1::TermUtils::encodeOp(&av, &name.to_string());
            let want = inh(c(K::SetExt, &[c(K::Prod, a)]), n(name));
            if R::of(&e) != want { return Err(format!("encoded as {:?}", R::of(&e))); }
            match nar20_1::TermUtils::decodeOp(&e) {
                Some((x, nm)) if nm == name && x.iter().map(R::of).collect::<Vec<_>>() == *a => Ok(()),
                _ => Err("not decoded".into())
            }
        });
    } }
    // everything else isn't an op
    for (i, t) in ts.iter().enumerate() {
        if !ctx.mine() { continue; }
        let is_op = |t: &R| -> bool { if let R::St(Cop::Inh, s, p) = t { if let (R::C(K::SetExt, v), R::N(_)) = (&**s, &**p) { return v.len() == 1 && matches!(&v[0], R::C(K::Prod, _)); } } false };
        ctx.case("ops", || format!("is {} an op", t.printed()), |_| {
            let d = nar20_1::TermUtils::decodeOp(&impls[i]).is_some();
            if d == is_op(t) { Ok(()) } else { Err(format!("op: {}", d)) }
        });
    }
}

/// one pattern with one term: verdict, bindings and substitution
fn unify_one(p: &R, pt: &Term, g: &R, gt: &Term) -> Result<(), String> {
                let mut m = vec![];
    let want = ref_unify(p, g, &mut m);
    let got = nar20_1::NarUnify::unify(pt, gt);
    if want != got.is_some() { return Err(format!("{} with {}: unified {}, expected {}", p.printed(), g.printed(), got.is_some(), want)); }
    if let Some(asg) = got {
        let mut a: Vec<(R, R)> = asg.iter().map(|v| (R::of(&v.var), R::of(&v.val))).collect();
        a.sort(); m.sort();
        a.dedup();
        if a != m { return Err(format!("{} with {}: bindings {:?}, expected {:?}", p.printed(), g.printed(), a, m)); }
        // the substituted pattern is the other term
        let s = R::of(&nar20_1::NarUnify::unifySubst(pt, &asg));
        if s != *g { return Err(format!("{} with {}: substitution gives {}", p.printed(), g.printed(), s.printed())); }
        // substitution leaves unbound variables alone
        let o = c(K::Prod, &[R::I("unbound".into()), R::Q("unbound".into()), R::D("unbound".into()), p.clone()]);
        let s = R::of(&nar20_1::NarUnify::unifySubst(&o.t(), &asg));
        if s != c(K::Prod, &[R::I("unbound".into()), R::Q("unbound".into()), R::D("unbound".into()), g.clone()]) { return Err(format!("substitution in {} gives {}", o.printed(), s.printed())); }
    }
    Ok(())
}

/// wide and deep patterns: the variable, the mismatch and the repetition are at every position
fn c04_sized(ctx: &mut Ctx) {
    let max = if ctx.thorough {10} else {7};
    let vx = R::I("x".into());
    let mk = |k: usize, v: Vec<R>| -> R {
        if k < 8 { R::C(KINDS[k], v) } else { let w = v.len(); R::Img(Box::new(n("r")), w/2, v) }
    };
    for k in 0..9 { for w in 1..=max {
        let base: Vec<R> = (0..w).map(|i| n(&format!("e{}", i))).collect();
        let mut ps: Vec<Vec<R>> = vec![base.clone()];
        let mut gs: Vec<Vec<R>> = vec![base.clone()];
        for i in 0..w {
            for v in [vx.clone(), R::D("x".into()), R::Q("x".into()), inh(vx.clone(), n("b"))] { let mut q = base.clone(); q[i] = v; ps.push(q); }
            for v in [n("o"), inh(n("o"), n("b")), R::D("d".into())] { let mut q = base.clone(); q[i] = v; gs.push(q); }
            for j in 0..i {
                let mut q = base.clone(); q[i] = vx.clone(); q[j] = vx.clone(); ps.push(q);
                let mut q = base.clone(); q[i] = vx.clone(); q[j] = R::D("x".into()); ps.push(q);
                let mut q = base.clone(); q[i] = base[j].clone(); gs.push(q);
                let mut q = base.clone(); q[i] = n("o"); q[j] = n("o"); gs.push(q);
                let mut q = base.clone(); q[i] = n("o"); q[j] = inh(n("o"), n("b")); gs.push(q);
            }
        }
        let vs: Vec<R> = (0..w).map(|i| match i % 3 { 0 => R::I(format!("v{}", i)), 1 => R::D(format!("v{}", i)), _ => R::Q(format!("v{}", i)) }).collect();
        ps.push(vs.clone());
        // many variables, one of them twice
        for i in 0..w { for j in 0..i { let mut q = vs.clone(); q[i] = q[j].clone(); ps.push(q); } }
        ps.push((0..w).map(|i| R::I(format!("v{}", i))).collect());
        ps.push((0..w).map(|_| vx.clone()).collect());
        gs.push((0..w).map(|_| n("o")).collect());
        gs.push((0..w+1).map(|i| n(&format!("e{}", i))).collect());
        if w > 1 { gs.push(base[..w-1].to_vec()); }
        let mut gs: Vec<R> = gs.into_iter().map(|g| mk(k, g)).collect();
        if k == 8 {
            // images with another place, another relation
            for i in 0..=w { gs.push(R::Img(Box::new(n("r")), i, base.clone())); gs.push(R::Img(Box::new(n("r2")), i, base.clone())); }
            for i in 0..w { gs.push(R::Img(Box::new(inh(n("r"), n("b"))), w/2, { let mut b = base.clone(); b[i] = n("o"); b })); }
        }
        let gs: Vec<(R, Term)> = gs.into_iter().map(|g| { let t = g.t(); (g, t) }).collect();
        for q in ps {
            if ctx.stop() { return; }
            if !ctx.mine() { continue; }
            let q = mk(k, q);
            let mut qs = vec![q.clone()];
            if let R::Img(_, p, e) = &q { for v in [vx.clone(), R::I("v0".into()), R::Q("x".into())] { qs.push(R::Img(Box::new(v), *p, e.clone())); } }
            ctx.case("unify", || format!("unify {} with terms of the width {}", q.printed(), w), |ctx| {
                for q in &qs { let qt = q.t(); for (g, gt) in &gs { ctx.transitions += 1; unify_one(q, &qt, g, gt)?; } }
                Ok(())
            });
        }
    } }
    // deep
    let fs: Vec<Box<dyn Fn(R) -> R>> = vec![Box::new(|x| inh(x, n("k"))), Box::new(|x| inh(n("k"), x)), Box::new(|x| neg(x)), Box::new(|x| c(K::Prod, &[n("k"), x])), Box::new(|x| c(K::SetExt, &[x])), Box::new(|x| img(x, 0, n("k"))), Box::new(|x| img(n("k"), 1, x)), Box::new(|x| c(K::Seq, &[x, n("k")])), Box::new(|x| imp(c(K::Conj, &[n("k"), x]), n("k")))];
    for f in &fs { for d in 0..(2*max) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let nest = |x: R| { let mut t = x; for _ in 0..d { t = f(t); } t };
        let ps = [nest(vx.clone()), nest(n("a")), c(K::Prod, &[nest(vx.clone()), vx.clone()]), c(K::Prod, &[vx.clone(), nest(vx.clone())]), c(K::Prod, &[nest(vx.clone()), nest(R::I("y".into()))])];
        let gs = [nest(n("a")), nest(n("b")), nest(R::D("d".into())), c(K::Prod, &[nest(n("a")), n("a")]), c(K::Prod, &[n("a"), nest(n("a"))]), c(K::Prod, &[nest(n("a")), nest(n("b"))]), f(nest(n("a"))), c(K::Prod, &[nest(nest(n("a"))), nest(n("a"))])];
        ctx.case("unify", || format!("unify patterns of the depth {} like {}", d, ps[0].printed()), |ctx| {
            for q in &ps { for g in &gs { ctx.transitions += 1; unify_one(q, &q.t(), g, &g.t())?; } }
            Ok(())
        });
    } }
}

fn c04(ctx: &mut Ctx) {
    c04_sized(ctx);
    let vars = [R::Q("x".into()), R::D("x".into()), R::I("x".into()), R::I("y".into())];
    let mut pat: Vec<R> = vec![n("a"), n("b")];
    pat.extend(vars.iter().cloned());
    let atoms = pat.clone();
    let mut l = layer(&atoms, true, false);
    pat.append(&mut l);
    let nested = layer(&[R::I("x".into()), R::Q("x".into()), n("a"), inh(R::I("x".into()), n("b")), c(K::Prod, &[R::I("x".into()), R::I("y".into())]), img(R::D("x".into()), 0, R::I("x".into()))], true, false);
    pat.extend(nested);
    for k in [K::Seq, K::Conj, K::Prod, K::Par] {
        for a in &atoms { for b in &atoms { pat.push(c(k, &[a.clone(), b.clone(), R::I("x".into())])); } }
    }
    pat.push(R::Img(Box::new(R::I("x".into())), 1, vec![R::I("x".into()), R::I("y".into())]));
    let mut gr: Vec<R> = vec![n("a"), n("b"), R::I("x".into()), R::Q("q".into())];
    let gat = [n("a"), n("b")];
    gr.extend(layer(&gat, true, true));
    gr.extend(layer(&[n("a"), inh(n("a"), n("b")), inh(n("b"), n("b")), c(K::Prod, &[n("a"), n("b")]), c(K::Prod, &[n("a"), n("a")]), img(n("a"), 0, n("a")), R::Q("q".into())], true, false));
    gr.push(R::Img(Box::new(n("a")), 1, vec![n("a"), n("b")]));
    if ctx.thorough { let x: Vec<R> = gr[4..34].to_vec(); gr.extend(layer(&x, true, false)); let x: Vec<R> = pat[..40].to_vec(); pat.extend(layer(&x, true, false)); }
    let git: Vec<Term> = gr.iter().map(|x| x.t()).collect();
    for p in &pat {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let pt = p.t();
        ctx.case("unify", || format!("unify {} with {} terms", p.printed(), gr.len()), |ctx| {
            for (j, g) in gr.iter().enumerate() {
                crumb(&format!("unify {} {}", p.printed(), g.printed()));
                ctx.transitions += 1;
                unify_one(p, &pt, g, &git[j])?;
            }
            Ok(())
        });
    }
}

fn main() {
    main_of(&[
        Check{id: "C01", rule: "every term with one and two nested constructors (three for one spine, four in the thorough tier) times punctuation, truth value, event marker and spacing is written down and read by the real parser; each reading is one distinct case", assumptions: &["nesting depth of generated terms is at most 4"], run: c01},
        Check{id: "C02", rule: "every text up to a length over several alphabets, every token sequence up to a length, every single edit of a set of sentences; verdict and result are compared with the reference grammar", assumptions: &["reference grammar follows the documented syntax"], run: c02},
        Check{id: "C03", rule: "every pair of terms of an enumerated universe is compared, every term is printed, copied, decomposed and measured", assumptions: &[], run: c03},
        Check{id: "C04", rule: "every pattern of an enumerated universe is unified with every term of an enumerated universe", assumptions: &[], run: c04},
    ]);
}
