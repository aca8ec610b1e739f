//! reference truth functions (NAL), independent of the implementation
pub type V = (f64, f64);

pub fn c2w(c: f64) -> f64 { c / (1.0 - c) }
pub fn w2c(w: f64) -> f64 { w / (w + 1.0) }
pub fn or(a: f64, b: f64) -> f64 { a + b - a * b }
pub fn exp(a: V) -> f64 { (a.0 - 0.5) * a.1 + 0.5 }
pub fn ded(a: V, b: V) -> V { (a.0 * b.0, a.0 * b.0 * a.1 * b.1) }
/// a: S --> M, b: P --> M |- S --> P
pub fn abd(a: V, b: V) -> V { (a.0, w2c(b.0 * a.1 * b.1)) }
/// a: M --> S, b: M --> P |- S --> P
pub fn ind(a: V, b: V) -> V { (b.0, w2c(a.0 * a.1 * b.1)) }
pub fn comp(a: V, b: V) -> V {
    let o = or(a.0, b.0);
    (if o < 1e-8 { 0.0 } else { a.0 * b.0 / o }, w2c(o * a.1 * b.1))
}
pub fn int(a: V, b: V) -> V { (a.0 * b.0, a.1 * b.1) }
pub fn neg(a: V) -> V { (1.0 - a.0, a.1) }
/// goal a, belief b
pub fn ded_goal(a: V, b: V) -> V {
    let x = ded(a, b);
    let y = neg(ded(neg(a), b));
    if x.1 >= y.1 { x } else { y }
}
/// amount of evidence is additive, frequency is the weighted mean; certainty dominates
pub fn rev(a: V, b: V) -> V {
    match (a.1 >= 1.0, b.1 >= 1.0) {
        (true, true) => return ((a.0 + b.0) / 2.0, 1.0),
        (true, false) => return (a.0, 1.0),
        (false, true) => return (b.0, 1.0),
        _ => {}
    }
    let (wa, wb) = (c2w(a.1), c2w(b.1));
    if wa + wb <= 0.0 { return (0.0, 0.0); }
    ((wa * a.0 + wb * b.0) / (wa + wb), w2c(wa + wb))
}
