//! reference grammar of Narsese (recursive descent, written from the documented grammar)
use crate::rt::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Sent { pub term: R, pub f: f64, pub c: f64, pub punct: char, pub event: bool }

struct P { s: Vec<char>, i: usize }

fn name_char(c: char) -> bool { c.is_alphanumeric() || c == '-' || c == '_' || c == '^' }

impl P {
    fn lit(&mut self, l: &str) -> bool {
        let l: Vec<char> = l.chars().collect();
        if self.s.len() >= self.i + l.len() && self.s[self.i..self.i + l.len()] == l[..] { self.i += l.len(); true } else { false }
    }
    fn peek(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn name(&mut self) -> Option<String> {
        let mut r = String::new();
        while let Some(c) = self.peek() {
            if !name_char(c) || r.chars().count() == 512 { break; }
            r.push(c);
            self.i += 1;
        }
        if r.is_empty() { None } else { Some(r) }
    }
    fn term(&mut self) -> Option<R> {
        match self.peek()? {
            '{' => { self.i += 1; let t = self.term()?; if self.lit("}") { Some(c(K::SetExt, &[t])) } else { None } },
            '[' => { self.i += 1; let t = self.term()?; if self.lit("]") { Some(c(K::SetInt, &[t])) } else { None } },
            '?' => { self.i += 1; Some(R::Q(self.name()?)) },
            '#' => { self.i += 1; Some(R::D(self.name()?)) },
            '$' => { self.i += 1; Some(R::I(self.name()?)) },
            '<' => {
                self.i += 1;
                let a = self.term()?;
                let mut cc = None;
                for x in COPS { if self.lit(&format!(" {} ", cop_str(x))) { cc = Some(x); break; } }
                let b = { cc?; self.term()? };
                if self.lit(">") { Some(st(cc?, a, b)) } else { None }
            },
            '(' => {
                self.i += 1;
                if self.lit("!") { let t = self.term()?; return if self.lit(")") { Some(neg(t)) } else { None }; }
                let mut v = vec![self.term()?];
                for (sep, k, max) in [(",", K::Seq, usize::MAX), ("*", K::Prod, usize::MAX), ("|", K::IntInt, 2), ("&&", K::Conj, 4), ("&", K::ExtInt, 2)] {
                    if self.lit(sep) {
                        v.push(self.term()?);
                        while self.lit(sep) { v.push(self.term()?); }
                        return if self.lit(")") && v.len() <= max { Some(c(k, &v)) } else { None };
                    }
                }
                for i in 0..2 {
                    if self.lit(&format!(" /{} ", i + 1)) {
                        let x = self.term()?;
                        return if self.lit(")") { Some(img(v[0].clone(), i, x)) } else { None };
                    }
                }
                None
            },
            _ => Some(R::N(self.name()?)),
        }
    }
}

pub fn parse(text: &str) -> Option<Sent> {
    // spaces around the product sign carry no meaning
    let mut cs: Vec<char> = vec![];
    let src: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < src.len() {
        if src[i] == '*' {
            while cs.last() == Some(&' ') { cs.pop(); }
            cs.push('*');
            i += 1;
            while i < src.len() && src[i] == ' ' { i += 1; }
        } else { cs.push(src[i]); i += 1; }
    }
    let mut s: String = cs.into_iter().collect();
    let mut event = false;
    if let Some(x) = s.strip_suffix(" :|:") { event = true; s = x.to_string(); }
    let (mut f, mut cf) = (1.0, 0.9);
    if s.ends_with('}') {
        let parts: Vec<&str> = s.rsplitn(2, '{').collect();
        if parts.len() == 2 {
            let inner = &parts[0][..parts[0].len() - 1];
            let nums: Vec<&str> = inner.split(' ').collect();
            if let [x, y] = nums[..] {
                if let (Ok(x), Ok(y)) = (x.parse::<f64>(), y.parse::<f64>()) {
                    if (0.0..=1.0).contains(&x) && (0.0..=1.0).contains(&y) { f = x; cf = y; s = parts[1].to_string(); }
                }
            }
        }
    }
    let s = s.trim_end();
    let punct = s.chars().last()?;
    if !['.', '!', '?'].contains(&punct) { return None; }
    let body = &s[..s.len() - 1];
    let mut p = P{s: body.chars().collect(), i: 0};
    let term = p.term()?;
    if p.s[p.i..].iter().any(|c| !c.is_whitespace()) { return None; }
    Some(Sent{term, f, c: cf, punct, event})
}

/// answer of the implementation in the reference representation
pub fn impl_parse(text: &str) -> Option<Sent> {
    use nar20_1::NarSentence::EnumPunctation::*;
    nar20_1::NarseseParser::parseNarsese(&text.to_string()).map(|(t, tv, p, ev)| Sent{
        term: R::of(&t), f: tv.f, c: tv.c, punct: match p { JUGEMENT => '.', GOAL => '!', QUESTION => '?' }, event: ev
    })
}
