//! C24 automatic differentiation and networks, C25 environments, C26 images, C27 prototype classifiers, C28 natural language, C29 evaluation
use mc::engine::{main_of, near, Check, Ctx};
use mc::explore::all_draws;
use nar20_1::{ad, Nn, mlutils, Map2d, ModVisionB, ModVisionC, ModVisionD, TvVec, AeraishPerceptionComp, EnvPong3};
use nar20_1::Tv::{self, Tv as TV};
use nar20_1::NarProc::Op;
use nar20_1::Map2d::Map2d as Map;
use vpmc::ChooserCfg;

// ------------------------------------------------------------------------------------------ C24
/// expression over one variable
#[derive(Clone, Debug)]
enum E { V(f64, f64), Add(Box<E>, Box<E>), Sub(Box<E>, Box<E>), Mul(Box<E>, Box<E>), Div(Box<E>, Box<E>), Exp(Box<E>), Relu(Box<E>), Sig(Box<E>) }
use E::*;
fn imp(e: &E) -> ad::Ad {
    match e {
        V(r, d) => ad::Ad{r: *r, d: *d},
        Add(a, b) => ad::add(&imp(a), &imp(b)), Sub(a, b) => ad::sub(&imp(a), &imp(b)),
        Mul(a, b) => ad::mul(&imp(a), &imp(b)), Div(a, b) => ad::div(&imp(a), &imp(b)),
        Exp(a) => ad::exp(&imp(a)), Relu(a) => ad::reluAct(&imp(a)), Sig(a) => ad::sigmoidAct(&imp(a)),
    }
}
fn sig(x: f64) -> f64 { if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { let z = x.exp(); z / (1.0 + z) } }
fn val(e: &E) -> f64 {
    match e {
        V(r, _) => *r,
        Add(a, b) => val(a) + val(b), Sub(a, b) => val(a) - val(b), Mul(a, b) => val(a) * val(b), Div(a, b) => val(a) / val(b),
        Exp(a) => val(a).exp(), Relu(a) => val(a).max(0.0), Sig(a) => sig(val(a)),
    }
}
/// the derivative, from the table of derivatives
fn der(e: &E) -> f64 {
    match e {
        V(_, d) => *d,
        Add(a, b) => der(a) + der(b), Sub(a, b) => der(a) - der(b),
        Mul(a, b) => der(a) * val(b) + val(a) * der(b),
        Div(a, b) => der(a) / val(b) - val(a) * der(b) / (val(b) * val(b)),
        Exp(a) => der(a) * val(a).exp(),
        Relu(a) => if val(a) > 0.0 { der(a) } else { 0.0 },
        Sig(a) => { let s = sig(val(a)); let t = sig(-val(a)); der(a) * s * t },
    }
}
/// a small value next to large ones isn't exact: scale of the terms which were added up
fn scale(e: &E) -> f64 {
    match e {
        V(r, d) => r.abs().max(d.abs()),
        Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) => {
            let (x, y) = (scale(a), scale(b));
            match e { Mul(..) => x * y * 2.0 + x + y, Div(..) => { let q = val(b).abs(); (x / q + x * y / (q * q)) * (1.0 + y / q) + x + y }, _ => x + y }
        },
        Exp(a) => (1.0 + scale(a)) * (1.0 + scale(a)) * val(a).exp() + scale(a),
        Relu(a) | Sig(a) => (1.0 + scale(a)) * (1.0 + scale(a)),
    }
}
/// is the expression next to a point where it has no derivative or doesn't exist?
fn edgy(e: &E) -> bool {
    match e {
        V(..) => false,
        Add(a, b) | Sub(a, b) | Mul(a, b) => edgy(a) || edgy(b),
        Div(a, b) => edgy(a) || edgy(b) || val(b).abs() < 1e-3 * (1.0 + scale(b)).min(1e6) * 1e-3 || val(b) == 0.0,
        Relu(a) => edgy(a) || (val(a).abs() < 1e-9 * (1.0 + scale(a)) && !matches!(**a, V(..))),
        Exp(a) | Sig(a) => edgy(a),
    }
}
fn judge(e: &E) -> Result<(), String> {
    if edgy(e) { return Ok(()); }
    let (r, d) = (val(e), der(e));
    if !r.is_finite() || !d.is_finite() { return Ok(()); }
    let s = scale(e);
    if !s.is_finite() || s > 1e12 { return Ok(()); }
    let g = imp(e);
    let tol = 1e-9 * (1.0 + s);
    if !((g.r - r).abs() <= tol) { return Err(format!("value {} instead of {}", g.r, r)); }
    if !((g.d - d).abs() <= tol) { return Err(format!("derivative {} instead of {}", g.d, d)); }
    Ok(())
}
fn bin2(k: usize, a: &E, b: &E) -> E { let (a, b) = (Box::new(a.clone()), Box::new(b.clone())); match k { 0 => Add(a, b), 1 => Sub(a, b), 2 => Mul(a, b), _ => Div(a, b) } }
fn un(k: usize, a: &E) -> E { let a = Box::new(a.clone()); match k { 0 => Exp(a), 1 => Relu(a), _ => Sig(a) } }
fn grow(l: &[E]) -> Vec<E> {
    let mut r = l.to_vec();
    for a in l { for k in 0..3 { r.push(un(k, a)); } for b in l { for k in 0..4 { r.push(bin2(k, a, b)); } } }
    r
}

fn c24(ctx: &mut Ctx) {
    let mut leaves = vec![];
    for v in [-2.0, -0.5, 0.0, 0.25, 1.5] { for d in [0.0, 1.0] { leaves.push(V(v, d)); } }
    leaves.push(V(3.0, -2.0));
    let l1 = grow(&leaves);
    // every expression of depth up to 2: a case per left side
    for (i, a) in l1.iter().enumerate() {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("expression", || format!("all expressions with the first part {:?}", a), |ctx| {
            let _ = i;
            judge(a)?;
            for k in 0..3 { let e = un(k, a); judge(&e).map_err(|m| format!("{:?}: {}", e, m))?; ctx.transitions += 1; }
            for b in &l1 { for k in 0..4 {
                let e = bin2(k, a, b);
                judge(&e).map_err(|m| format!("{:?}: {}", e, m))?;
                ctx.transitions += 1;
                if ctx.thorough { for u in 0..3 { let e = un(u, &e); judge(&e).map_err(|m| format!("{:?}: {}", e, m))?; ctx.transitions += 1; }
                    for c in &leaves { for k in 0..4 { let e = bin2(k, &e, c); judge(&e).map_err(|m| format!("{:?}: {}", e, m))?; let e = bin2(k, c, &e); judge(&e).map_err(|m| format!("{:?}: {}", e, m))?; ctx.transitions += 2; } } }
            } }
            Ok(())
        });
    }
    // the activation functions are defined everywhere
    let mut xs: Vec<f64> = vec![0.0, 1e-12, 1e-6, 20.0, 36.0, 37.0, 100.0, 700.0, 709.0, 710.0, 745.0, 800.0, 1e4, 1e8];
    for i in 0..200 { xs.push(i as f64 * 0.5 + 0.25); }
    for x in xs { for x in [x, -x] { for d in [0.0, 1.0, -3.0] {
        if !ctx.mine() { continue; }
        ctx.case("activation", || format!("activation functions at {} with derivative {}", x, d), |_| {
            let v = ad::Ad{r: x, d};
            let s = ad::sigmoidAct(&v);
            let (r, t) = (sig(x), d * sig(x) * sig(-x));
            if !((s.r - r).abs() < 1e-9) { return Err(format!("sigmoid {} instead of {}", s.r, r)); }
            if !((s.d - t).abs() < 1e-9) { return Err(format!("derivative of sigmoid {} instead of {}", s.d, t)); }
            let q = ad::reluAct(&v);
            if x > 0.0 && (q.r != x || q.d != d) || x <= 0.0 && (q.r != 0.0 || q.d != 0.0) { return Err(format!("relu {:?}", q)); }
            Ok(())
        });
    } } }
    // neurons and products of every width, marked at every place
    let wmax = if ctx.thorough { 20 } else { 10 };
    for w in (1..=wmax).chain([16, 17, 31, 32, 33, 63, 64, 65, 100, 129, 257]) { for mark in 0..=2 * w + 1 {
        if w > wmax && mark % w > 2 && mark % w + 2 < w && mark % 7 != 0 && !ctx.thorough { continue; } for act in 0..2u32 { for sgn in [1.0, -1.0] {
        if !ctx.mine() { continue; }
        ctx.case("neuron", || format!("neuron with {} inputs, activation {}, marked {}, sign {}", w, act, mark, sgn), |ctx| {
            let x: Vec<f64> = (0..w).map(|i| 0.3 + 0.17 * i as f64).collect();
            let ws: Vec<f64> = (0..w).map(|i| sgn * (0.05 + 0.02 * i as f64) * if i % 3 == 1 { -1.0 } else { 1.0 }).collect();
            let b = sgn * 0.11;
            let one = |i: usize| if i == mark { 1.0 } else { 0.0 };
            let xi: Vec<ad::Ad> = (0..w).map(|i| ad::Ad{r: x[i], d: one(i)}).collect();
            let wi: Vec<ad::Ad> = (0..w).map(|i| ad::Ad{r: ws[i], d: one(w + i)}).collect();
            let s: f64 = (0..w).map(|i| x[i] * ws[i]).sum();
            let ds = if mark < w { ws[mark] } else if mark < 2 * w { x[mark - w] } else { 0.0 };
            let g = ad::dot(&xi, &wi);
            if !near(g.r, s) || !near(g.d, ds) { return Err(format!("product is {:?} instead of {} {}", g, s, ds)); }
            let n = ad::Neuron{weights: wi, bias: ad::Ad{r: b, d: one(2 * w)}, act};
            let g = ad::calc(&xi, &n);
            let (z, dz) = (s + b, ds + one(2 * w));
            let (er, ed) = if act == 0 { if z > 0.0 { (z, dz) } else { (0.0, 0.0) } } else { (sig(z), dz * sig(z) * sig(-z)) };
            if !near(g.r, er) || !near(g.d, ed) { return Err(format!("activation is {:?} instead of {} {}", g, er, ed)); }
            // vectors
            let (a, c) = (x.clone(), ws.clone());
            for k in [0.0, 1.0, -2.5] {
                let v = mlutils::vecAddScale(&a, &c, k);
                if v.len() != w || (0..w).any(|i| !near(v[i], a[i] + c[i] * k)) { return Err("vecAddScale".into()); }
                let v = mlutils::vecScale(&a, k);
                if v.len() != w || (0..w).any(|i| !near(v[i], a[i] * k)) { return Err("vecScale".into()); }
            }
            let v = mlutils::vecAdd(&a, &c);
            if v.len() != w || (0..w).any(|i| !near(v[i], a[i] + c[i])) { return Err("vecAdd".into()); }
            if !near(mlutils::vecDot(&a, &c), s) { return Err("vecDot".into()); }
            let l = |q: &[f64]| q.iter().map(|v| v * v).sum::<f64>().sqrt();
            if !near(mlutils::vecLen(&c), l(&c)) { return Err("vecLen".into()); }
            if !near(mlutils::calcCosineSim(&a, &c), s / l(&a) / l(&c)) { return Err("calcCosineSim".into()); }
            if !near(mlutils::calcCosineSim(&a, &a), 1.0) { return Err("a vector isn't similar to itself".into()); }
            ctx.transitions += 8;
            Ok(())
        });
    } } } }
    // networks of every shape
    let m = if ctx.thorough { 5 } else { 4 };
    let mut shapes: Vec<(i64, i64, i64)> = vec![(10, 12, 9), (33, 5, 2), (2, 40, 3), (3, 2, 40), (17, 17, 1), (100, 1, 1)];
    for ni in 0..=m { for n0 in 0..=m { for n1 in 0..=m { shapes.push((ni, n0, n1)); } } }
    for (ni, n0, n1) in shapes { for off in [0i64, 1, 3] { for act0 in 0..2u32 { for vals in 0..3 {
        if vals > 0 && (off == 3 || ni + n0 + n1 > 12) { continue; }
        if !ctx.mine() { continue; }
        ctx.case("network", || format!("network with {} inputs, {} and {} neurons from parameter {} on, activation {}, values {}", ni, n0, n1, off, act0, vals), |ctx| {
            let np = (n0 * (ni + 1) + n1 * (n0 + 1)) as usize;
            let params: Vec<f64> = (0..np + off as usize + 2).map(|i| match vals { 0 => 0.01 + 0.003 * i as f64 * if i % 2 == 0 { 1.0 } else { -1.0 }, 1 => [0.0, -1.5, 2.0, 0.0][i % 4], _ => 0.0 }).collect();
            let mut diffs: Vec<Option<usize>> = (0..params.len()).map(Some).collect();
            diffs.push(None); diffs.push(Some(10_000));
            for diff in diffs {
                let mut idx = off;
                let net = Nn::buildNnFromParameters(&mut idx, &params, ni, act0, n0, n1, diff);
                if idx != off + np as i64 { return Err(format!("{} parameters were used instead of {}", idx - off, np)); }
                if net.neuronsLayer0.len() != n0 as usize || net.neuronsLayer1.len() != n1 as usize { return Err("number of neurons".into()); }
                let mut p = off as usize;
                let mark = |p: usize| if diff == Some(p) { 1.0 } else { 0.0 };
                for (lay, k, boost) in [(&net.neuronsLayer0, ni, 15.0), (&net.neuronsLayer1, n0, 8.0)] {
                    for (j, n) in lay.iter().enumerate() {
                        if n.weights.len() != k as usize { return Err(format!("neuron {} has {} weights", j, n.weights.len())); }
                        for w in &n.weights {
                            if w.r != params[p] || w.d != mark(p) { return Err(format!("weight is {:?}, parameter {} is {} (marked: {:?})", w, p, params[p], diff)); }
                            p += 1;
                        }
                        if !near(n.bias.r, params[p] * boost) || n.bias.d != mark(p) { return Err(format!("bias is {:?}, parameter {} is {} (marked: {:?})", n.bias, p, params[p], diff)); }
                        p += 1;
                    }
                }
                if net.neuronsLayer0.iter().any(|n| n.act != act0) || net.neuronsLayer1.iter().any(|n| n.act == 0) { return Err("activation function".into()); }
                ctx.transitions += 1;
                // derivative of the whole network against the difference quotient
                if ni > 0 && n0 > 0 && n1 > 0 && act0 == 1 {
                    if let Some(q) = diff { if q >= off as usize && q < off as usize + np {
                        let x: Vec<ad::Ad> = (0..ni).map(|i| ad::Ad{r: 0.2 + 0.3 * i as f64, d: 0.0}).collect();
                        let fwd = |net: &Nn::Network| -> Vec<ad::Ad> { let h: Vec<ad::Ad> = net.neuronsLayer0.iter().map(|n| ad::calc(&x, n)).collect(); net.neuronsLayer1.iter().map(|n| ad::calc(&h, n)).collect() };
                        let (mut lo, mut hi) = (params.clone(), params.clone());
                        let (b0, b1) = ((ni + 1) as usize, (n0 + 1) as usize);
                        let rel = q - off as usize;
                        // the derivative of a bias is the one in respect to the boosted value
                        let first = rel < n0 as usize * b0;
                        let boost = if first { if rel % b0 == b0 - 1 { 15.0 } else { 1.0 } } else if (rel - n0 as usize * b0) % b1 == b1 - 1 { 8.0 } else { 1.0 };
                        let e = 1e-5;
                        lo[q] -= e / boost; hi[q] += e / boost;
                        let mk = |p: &Vec<f64>| { let mut i = off; Nn::buildNnFromParameters(&mut i, p, ni, act0, n0, n1, None) };
                        let (g, a, b) = (fwd(&net), fwd(&mk(&lo)), fwd(&mk(&hi)));
                        for j in 0..g.len() { let d = (b[j].r - a[j].r) / (2.0 * e); if (d - g[j].d).abs() > 1e-6 { return Err(format!("derivative of output {} in respect to parameter {} is {} instead of {}", j, q, g[j].d, d)); } }
                    } }
                }
            }
            Ok(())
        });
    } } } }
    chains(ctx);
}

fn chains(ctx: &mut Ctx) {
    // long chains of one or two operations
    for n in [5usize, 16, 17, 33, 64, 65, 130] { for k in 0..4 { for k2 in 0..4 { for side in 0..2 { for d in [0.0, 1.0] {
        if !ctx.mine() { continue; }
        ctx.case("chain", || format!("chain of {} operations {} and {} on side {}, derivative {}", n, k, k2, side, d), |ctx| {
            let mut e = V(1.25, 1.0);
            for i in 0..n { let l = V(1.0 + 0.01 * (i % 5) as f64, if i % 3 == 0 { d } else { 0.0 }); let k = if i % 2 == 0 { k } else { k2 }; e = if side == 0 { bin2(k, &e, &l) } else { bin2(k, &l, &e) }; judge(&e).map_err(|m| format!("after {} operations: {}", i + 1, m))?; ctx.transitions += 1; }
            Ok(())
        });
    } } } } }
}

// ------------------------------------------------------------------------------------------ C25
#[derive(Clone, Copy)]
struct Pong { szX: i64, szY: i64, w: i64, x: i64, y: i64, vx: i64, vy: i64, t: i64, bat: i64, bv: i64, mul: i64 }
fn mk(p: &Pong) -> EnvPong3::EnvState {
    let mut e = EnvPong3::makeEnvState();
    e.szX = p.szX; e.szY = p.szY; e.batWidth = p.w; e.virtualBatWidth = p.w; e.ballX = p.x; e.ballY = p.y; e.vX = p.vx; e.vY = p.vy; e.t = p.t; e.batX = p.bat; e.batVX = p.bv; e.mulVX = p.mul;
    e.hits = 5; e.misses = 7; e.verbosity = 0;
    e
}
fn pong_step(p: &Pong, e: &EnvPong3::EnvState) -> Result<(), String> {
    // the ball is reflected by the borders, moves up or down each step and left or right each second step
    let vx = if p.x >= p.szX - 1 { -1 } else if p.x <= 0 { 1 } else { p.vx };
    let vy = if p.y >= p.szY - 1 { -1 } else if p.y <= 0 { 1 } else { p.vy };
    let t = p.t + 1;
    let x = p.x + if t % 2 == 1 { vx } else { 0 } + vx * p.mul;
    let y = p.y + vy;
    let (mut h, mut m) = (5, 7);
    if y == 0 { if (x - p.bat).abs() <= p.w { h += 1 } else { m += 1 } }
    if e.t != t { return Err(format!("time {} instead of {}", e.t, t)); }
    if (e.hits, e.misses) != (h, m) { return Err(format!("{} hits and {} misses instead of {} and {}", e.hits, e.misses, h, m)); }
    let spawn = y == 0 || x == 0 || x >= p.szX - 1;
    if e.was_ball_spawned != spawn { return Err(format!("spawned: {} instead of {}", e.was_ball_spawned, spawn)); }
    if spawn {
        if e.ballX < 0 || e.ballX >= p.szX || e.ballY < p.szY / 2 || e.ballY >= p.szY || e.vX.abs() != 1 || e.vY != vy { return Err(format!("the ball was spawned at {} {} with velocity {} {}", e.ballX, e.ballY, e.vX, e.vY)); }
    } else if (e.ballX, e.ballY, e.vX, e.vY) != (x, y, vx, vy) { return Err(format!("ball {} {} velocity {} {} instead of {} {} velocity {} {}", e.ballX, e.ballY, e.vX, e.vY, x, y, vx, vy)); }
    let bat = (p.bat + p.bv * p.w / 2).min(p.szX - 1 + p.w).max(2 * p.w);
    if e.batX != bat { return Err(format!("bat at {} instead of {}", e.batX, bat)); }
    if e.batVX != p.bv || e.mulVX != p.mul || e.szX != p.szX || e.szY != p.szY || e.batWidth != p.w { return Err("a parameter of the environment was changed".into()); }
    Ok(())
}
fn c25(ctx: &mut Ctx) {
    let sizes: Vec<(i64, i64, i64, Vec<i64>)> = vec![(50, 20, 6, vec![0]), (12, 6, 1, vec![0, 1, 2]), (9, 5, 2, vec![0, 1]), (20, 9, 3, vec![0, 1]), (120, 41, 9, vec![0, 1])];
    for (szX, szY, w, muls) in sizes {
        for mul in muls { for bv in [-1i64, 0, 1, 2] {
            for bat in 2 * w..=szX - 1 + w {
                if szX > 100 && ![18, 19, 60, 127, 128].contains(&bat) { continue; }
                if ctx.stop() { return; }
                if !ctx.mine() { continue; }
                ctx.case("pong", || format!("pong {}x{} bat {} at {} velocity {} factor {}: every ball", szX, szY, w, bat, bv, mul), |ctx| {
                    let mut rng = rand::thread_rng();
                    for x in 0..szX { for y in 0..szY { for vx in [-1, 1] { for vy in [-1, 1] { for t in [0i64, 1, 4999] {
                        let p = Pong{szX, szY, w, x, y, vx, vy, t, bat, bv, mul};
                        for salt in 0..2 {
                            vpmc::rng::install(Some(vpmc::Chooser::new(ChooserCfg{rng_salt: salt + 10 * t as u64, ..ChooserCfg::default()}, vec![])));
                            let mut e = mk(&p);
                            EnvPong3::simStep(&mut e, &mut rng);
                            vpmc::rng::install(None);
                            ctx.transitions += 1;
                            pong_step(&p, &e).map_err(|m| format!("ball {} {} velocity {} {} time {}: {}", x, y, vx, vy, t, m))?;
                            if !e.was_ball_spawned { break; }
                        }
                    } } } } }
                    Ok(())
                });
            }
        } }
        // every place and direction of a new ball
        for (x, y, vy) in [(1i64, szY - 1, -1i64), (szX / 2, 1, -1), (szX - 2, szY / 2, 1), (0, 1, -1)] {
            if !ctx.mine() { continue; }
            ctx.case("spawn", || format!("pong {}x{}: all new balls after {} {}", szX, szY, x, y), |ctx| {
                let p = Pong{szX, szY, w, x, y, vx: if x > 1 { 1 } else { -1 }, vy, t: 0, bat: 2 * w, bv: 1, mul: 0};
                let res = all_draws(&ChooserCfg{rng_first: 10, rng_bound: 10, rng_max_n: 128, ..ChooserCfg::default()}, || {
                    let mut rng = rand::thread_rng();
                    let mut e = mk(&p);
                    EnvPong3::simStep(&mut e, &mut rng);
                    e
                });
                let mut seen = std::collections::HashSet::new();
                for (e, _) in &res { pong_step(&p, e)?; seen.insert((e.ballX, e.ballY, e.vX)); ctx.transitions += 1; }
                let all = szX * (szY - szY / 2) * 2;
                // the upper half has szY/2 rows
                let want = szX * (szY / 2) * 2;
                if (seen.len() as i64) < want || seen.len() as i64 > all { return Err(format!("a new ball has {} of {} starts", seen.len(), want)); }
                Ok(())
            });
        }
    }
    // operations of the environment
    for dir in -3..=3i64 { for name in ["^L", "^R", "^x"] {
        if !ctx.mine() { continue; }
        ctx.case("operation", || format!("operation {} with direction {}", name, dir), |_| {
            let env = std::rc::Rc::new(std::cell::RefCell::new(EnvPong3::makeEnvState()));
            let op = nar20_1::Reasoner1Entry::OpPong{env: std::rc::Rc::clone(&env), opDir: dir, selfName: name.to_string()};
            let mut nar = nar20_1::NarProc::narInit();
            let b = env.borrow().batX;
            op.call(&mut nar, &None, &vec![]);
            if op.retName() != name { return Err("name".into()); }
            if env.borrow().batVX != dir || env.borrow().batX != b { return Err(format!("velocity of the bat is {}", env.borrow().batVX)); }
            Ok(())
        });
    } }
    games(ctx);
    programs(ctx);
}

/// runs f with the standard output going to a file and returns what was printed
fn captured<T>(ctx: &Ctx, f: impl FnOnce() -> T) -> (T, String) {
    extern "C" { fn dup(a: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn close(a: i32) -> i32; }
    use std::io::Write;
    use std::os::unix::io::AsRawFd;
    let path = format!("{}/evidence/out.{}.{}.{}", std::env::var("VP_VERIF").unwrap_or("/verif".into()), ctx.id, ctx.shard, std::process::id());
    let file = std::fs::File::create(&path).expect("scratch file");
    let _ = std::io::stdout().flush();
    let old = unsafe { dup(1) };
    unsafe { dup2(file.as_raw_fd(), 1); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _ = std::io::stdout().flush();
    unsafe { dup2(old, 1); close(old); }
    let o = String::from_utf8_lossy(&std::fs::read(&path).unwrap_or_default()).to_string();
    let _ = std::fs::remove_file(&path);
    match r { Ok(v) => (v, o), Err(e) => std::panic::resume_unwind(e) }
}
fn winner(f: &[char]) -> Option<char> {
    for l in [[0, 1, 2], [3, 4, 5], [6, 7, 8], [0, 3, 6], [1, 4, 7], [2, 5, 8], [0, 4, 8], [2, 4, 6]] { if f[l[0]] != ' ' && f[l[0]] == f[l[1]] && f[l[1]] == f[l[2]] { return Some(f[l[0]]); } }
    None
}
/// are the printed games games by the rules of tic-tac-toe?
fn ttt(out: &str, games: usize) -> Result<String, String> {
    let mut f = vec![' '; 9];
    let mut next = 'a';
    let mut done = 0;
    let mut over = false; // the last move ended the game
    let mut moves = String::new();
    let (mut wins, mut losses) = (0i64, 0i64);
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("Gamestate { field: [") {
            let cs: Vec<char> = r.split('\'').skip(1).step_by(2).map(|c| c.chars().next().unwrap_or('?')).collect();
            if cs.len() != 9 { return Err(format!("field with {} places: {}", cs.len(), l)); }
            if over { return Err(format!("a move after the end of the game: {}", l)); }
            let diff: Vec<usize> = (0..9).filter(|i| f[*i] != cs[*i]).collect();
            if diff.len() != 1 || f[diff[0]] != ' ' || cs[diff[0]] != next { return Err(format!("from {:?} with {} to move to {:?}", f, next, cs)); }
            if l.contains("player: true") != (next == 'a') { return Err(format!("wrong player: {}", l)); }
            moves += &format!("{}", diff[0]);
            f = cs;
            next = if next == 'a' { 'b' } else { 'a' };
            over = winner(&f).is_some() || !f.contains(&' ');
        } else if l.starts_with("WINNER: ") || l == "DRAW!" {
            let w = l.strip_prefix("WINNER: ").and_then(|s| s.chars().next());
            if !over || winner(&f) != w { return Err(format!("{:?} was ended with {:?}", f, l)); }
            done += 1;
            if w == Some('a') { wins += 1; } else if w == Some('b') { losses += 1; }
            f = vec![' '; 9]; next = 'a'; over = false; moves.push(' ');
        } else if let Some(r) = l.strip_prefix("w/l ratio = ").and_then(|r| r.split_whitespace().next()).and_then(|r| r.parse::<f64>().ok()) {
            // with or without the game which was just decided
            let eq = |a: i64, b: i64| { let q = a as f64 / b as f64; q == r || q.is_nan() && r.is_nan() || near(q, r) };
            if wins + losses == 0 || !eq(wins, losses) && !eq(wins - 1, losses) && !eq(wins, losses - 1) { return Err(format!("the ratio is {} after {} wins and {} losses", r, wins, losses)); }
        } else if let Some(r) = l.strip_prefix("NARS stimulus: ") {
            let s: String = f.iter().map(|c| if *c == ' ' { 'S' } else { *c }).collect();
            if r != s { return Err(format!("the reasoner perceives {} instead of {}", r, s)); }
        }
    }
    if over || f.iter().any(|c| *c != ' ') { return Err(format!("a game has no end: {:?}", f)); }
    if done != games { return Err(format!("{} games instead of {}", done, games)); }
    Ok(moves)
}
/// the complete programs of the environments
fn programs(ctx: &mut Ctx) {
    for salt in 0..(if ctx.thorough { 40 } else { 8 }) { for chaos in [true, false] {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("program", || format!("{} with random numbers of salt {}", if chaos { "chaos" } else { "pong" }, salt), |ctx| {
            let w = vpmc::WorldCfg{chooser: ChooserCfg{rng_salt: salt, ..ChooserCfg::default()}, max_steps: 1_000_000_000, ..vpmc::WorldCfg::default()};
            let (r, out) = captured(ctx, || vpmc::run_world(w, vec![], move || if chaos { nar20_1::ProcChaosEntry::procChaosEntry(); 0.0 } else { nar20_1::Reasoner1Entry::reasoner1Entry() }));
            if let Some(t) = mc::explore::trouble(&r, false) { return Err(t); }
            let ratio = match r.value { Some(Ok(v)) => v, _ => return Err("the program didn't end".into()) };
            if !out.contains("[d] reasoner: DONE!") { return Err("the program didn't end".into()); }
            if chaos {
                let k: i64 = out.lines().find_map(|l| l.strip_prefix("nConcepts=")).and_then(|v| v.trim().parse().ok()).ok_or("the number of concepts isn't shown")?;
                ctx.note("concepts", k as u64);
                return Ok(());
            }
            // the reasoner perceives the place of the ball in relation to the bat in each step, each contact is counted
            let (mut good, mut bad, mut steps) = (0i64, 0i64, 0i64);
            let num = |l: &str, k: &str| -> Option<i64> { l.split_whitespace().find_map(|w| w.strip_prefix(k)).and_then(|v| v.parse().ok()) };
            let mut last: Option<(i64, i64)> = None;
            for l in out.lines() {
                if l == "env: good" { good += 1; } else if l == "env: bad" { bad += 1; }
                if let (Some(x), Some(b), Some(d)) = (num(l, "ballX="), num(l, "batX="), num(l, "diff=")) {
                    steps += 1;
                    let e = if (x - b).abs() <= 6 { "0-1-xc" } else if x < b { "0-1-xl" } else { "0-1-xr" };
                    if d != x - b || !l.starts_with(e) { return Err(format!("step {}: {}", steps, l)); }
                    let (px, pb) = last.unwrap_or((25, 20));
                    if (pb - b).abs() > 8 && last.is_some() || b < 12 || b > 55 || x < 0 || x > 49 { return Err(format!("step {}: {} after ball {} bat {}", steps, l, px, pb)); }
                    last = Some((x, b));
                }
            }
            if steps != 5001 { return Err(format!("{} steps", steps)); }
            let line = format!("[i] env hits={} misses={}", good, bad);
            if !out.contains(&line) { return Err(format!("there were {} hits and {} misses", good, bad)); }
            if !near(ratio, good as f64 / (good + bad) as f64) { return Err(format!("score {} with {} hits and {} misses", ratio, good, bad)); }
            ctx.transitions += 5001;
            Ok(())
        });
    } }
}
fn games(ctx: &mut Ctx) {
    // many games one after the other
    for salt in 0..(if ctx.thorough { 24 } else { 8 }) {
        if !ctx.mine() { continue; }
        ctx.case("games", || format!("26 games of tic-tac-toe, salt {}", salt), |ctx| {
            let w = vpmc::WorldCfg{chooser: ChooserCfg{rng_salt: 77 + salt, ..ChooserCfg::default()}, max_steps: 1_000_000_000, ..vpmc::WorldCfg::default()};
            let (r, out) = captured(ctx, || vpmc::run_world(w, vec![], || nar20_1::ProcTicTacToe::run(25)));
            if let Some(t) = mc::explore::trouble(&r, false) { return Err(t); }
            let m = ttt(&out, 26)?;
            ctx.state(&m);
            ctx.transitions += m.len() as u64;
            Ok(())
        });
    }
    // the first draws of a place (of the reasoner which tries operations and of the opponent) are enumerated
    let first = if ctx.thorough { 4 } else { 3 };
    let cfg = ChooserCfg{rng_only: 9, rng_first: first, rng_bound: first, rng_max_n: 9, ..ChooserCfg::default()};
    for salt in 0..(if ctx.thorough { 4 } else { 2 }) {
        let mut stack: Vec<Vec<vpmc::Step>> = vec![vec![]];
        while let Some(p) = stack.pop() {
            if ctx.stop() { return; }
            let places: Vec<u64> = p.iter().filter(|s| s.n == 9).map(|s| s.chosen as u64).collect();
            let cfg = ChooserCfg{rng_salt: salt, ..cfg.clone()};
            // the shards share the subtrees of the first two draws
            if places.len() >= 2 && (places[0] * 9 + places[1]) % ctx.nshards != ctx.shard { continue; }
            let mut kids = vec![];
            let pp = p.clone();
            let kk = &mut kids;
            ctx.case("tictactoe", || format!("tic-tac-toe, salt {}, places {:?}", salt, places), |ctx| {
                let w = vpmc::WorldCfg{chooser: cfg.clone(), max_steps: 100_000_000, ..vpmc::WorldCfg::default()};
                let (r, out) = captured(ctx, || vpmc::run_world(w, pp.clone(), || nar20_1::ProcTicTacToe::run(0)));
                if let Some(t) = mc::explore::trouble(&r, false) { return Err(t); }
                *kk = r.chooser.children();
                let m = ttt(&out, 1)?;
                ctx.state(&m);
                ctx.transitions += m.len() as u64;
                Ok(())
            });
            stack.extend(kids);
        }
    }
}

// ------------------------------------------------------------------------------------------ C26
fn img(h: i32, w: i32, k: usize) -> Map<f64> {
    let mut m = Map2d::makeMap2d(h, w);
    for i in 0..m.arr.len() { m.arr[i] = match k { 0 => 1.0 + i as f64, 1 => ((i * 7 + 3) % 5) as f64 * 0.5 - 1.0, _ => if i % 2 == 0 { 1.0 } else { 0.0 } }; }
    m
}
fn at(m: &Map<f64>, y: i32, x: i32) -> f64 { if y < 0 || x < 0 || y >= m.h || x >= m.w { 0.0 } else { m.arr[(y * m.w + x) as usize] } }
fn same(m: &Map<f64>, h: i32, w: i32, f: impl Fn(i32, i32) -> f64) -> Result<(), String> {
    if m.h != h || m.w != w || m.arr.len() as i32 != h * w { return Err(format!("size {}x{} ({} values) instead of {}x{}", m.h, m.w, m.arr.len(), h, w)); }
    for y in 0..h { for x in 0..w { if !near(at(m, y, x), f(y, x)) { return Err(format!("value {} at row {} column {} instead of {}", at(m, y, x), y, x, f(y, x))); } } }
    Ok(())
}
fn c26(ctx: &mut Ctx) {
    let m = if ctx.thorough { 6 } else { 4 };
    for h in 0..=m { for w in 0..=m {
        if ctx.stop() { return; }
        if ctx.mine() { ctx.case("access", || format!("every access to a image with {} rows and {} columns", h, w), |ctx| {
            for k in 0..3 {
                let a = img(h, w, k);
                for y in -3..h + 3 { for x in -3..w + 3 {
                    if Map2d::readAt(&a, y, x) != at(&a, y, x) { return Err(format!("read at row {} column {} gives {}", y, x, Map2d::readAt(&a, y, x))); }
                    let mut b = Map2d::clone(&a);
                    Map2d::writeAt(&mut b, y, x, 99.0);
                    same(&b, h, w, |yy, xx| if (yy, xx) == (y, x) { 99.0 } else { at(&a, yy, xx) }).map_err(|e| format!("write at row {} column {}: {}", y, x, e))?;
                    ctx.transitions += 2;
                    for sy in 0..=m { for sx in 0..=m {
                        let c = Map2d::crop(&a, x, y, sx, sy);
                        same(&c, sy, sx, |yy, xx| at(&a, y + yy, x + xx)).map_err(|e| format!("crop of {}x{} at row {} column {}: {}", sy, sx, y, x, e))?;
                        let mut b = a.clone();
                        Map2d::map2dDrawBox(&mut b, x, y, sx, sy, 77.0);
                        same(&b, h, w, |yy, xx| if yy >= y && yy < y + sy && xx >= x && xx < x + sx { 77.0 } else { at(&a, yy, xx) }).map_err(|e| format!("box of {}x{} at row {} column {}: {}", sy, sx, y, x, e))?;
                        ctx.transitions += 2;
                    } }
                } }
                same(&Map2d::makeMap2d(h, w), h, w, |_, _| 0.0)?;
                for k2 in 0..3 {
                    let b = img(h, w, k2);
                    same(&Map2d::sub(&a, &b), h, w, |y, x| at(&a, y, x) - at(&b, y, x)).map_err(|e| format!("difference: {}", e))?;
                    same(&Map2d::add(&a, &b), h, w, |y, x| at(&a, y, x) + at(&b, y, x)).map_err(|e| format!("sum: {}", e))?;
                }
                for d in [1.0, 2.0, -0.5] { same(&Map2d::divScalar(&a, d), h, w, |y, x| at(&a, y, x) / d).map_err(|e| format!("quotient: {}", e))?; }
                if !near(Map2d::distPow2(&a), a.arr.iter().map(|v| v * v).sum()) { return Err("distPow2".into()); }
            }
            Ok(())
        }); }
        // convolution with every kernel size
        for kh in 0..=5 { for kw in 0..=5 {
            if !ctx.mine() { continue; }
            ctx.case("convolution", || format!("convolution of {}x{} with kernel {}x{}", h * 2, w * 2, kh, kw), |ctx| {
                for k in 0..3 { for kk in 0..3 {
                    let (a, q) = (img(h * 2, w * 2, k), img(kh, kw, kk));
                    let full = |y: i32, x: i32| { let mut s = 0.0; for i in 0..kh { for j in 0..kw { s += at(&q, i, j) * at(&a, y + i - kh / 2, x + j - kw / 2); } } s };
                    same(&ModVisionC::convo(&a, &q), a.h, a.w, full)?;
                    let r = ModVisionC::convWithoutBorder(&a, &q);
                    same(&r, a.h, a.w, |y, x| {
                        let (by, bx) = (kh / 2 + 1, kw / 2 + 1);
                        if y >= by && y < a.h - by && x >= bx && x < a.w - bx { full(y, x) } else { 0.0 }
                    }).map_err(|e| format!("without border: {}", e))?;
                    ctx.transitions += 2;
                } }
                Ok(())
            });
        } }
    } }
    // shapes
    let n = if ctx.thorough { 14 } else { 9 };
    for h in [n, n - 2] { for w in [n, n + 1] { for cy in -2..h + 2 { for cx in -2..w + 2 {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("circle", || format!("circles at row {} column {} of {}x{}", cy, cx, h, w), |ctx| {
            let a = img(h, w, 0);
            for r in 0..=6 {
                let mut b = a.clone();
                Map2d::map2dDrawCircle(&mut b, cx, cy, r, -5.0);
                same(&b, h, w, |y, x| if (y - cy) * (y - cy) + (x - cx) * (x - cx) <= r * r { -5.0 } else { at(&a, y, x) }).map_err(|e| format!("radius {}: {}", r, e))?;
                ctx.transitions += 1;
            }
            Ok(())
        });
        ctx.case("line", || format!("lines from row {} column {} of {}x{}", cy, cx, h, w), |ctx| {
            let a = img(h, w, 0);
            for by in -2..h + 2 { for bx in -2..w + 2 {
                if (by, bx) == (cy, cx) { continue; }
                let mut b = a.clone();
                Map2d::drawLine(&mut b, cx, cy, bx, by, -5.0);
                let (dx, dy) = ((bx - cx) as f64, (by - cy) as f64);
                let l = (dx * dx + dy * dy).sqrt();
                for y in 0..h { for x in 0..w {
                    let (ox, oy) = ((x - cx) as f64, (y - cy) as f64);
                    let along = (ox * dx + oy * dy) / l; // place along the line
                    let off = ((ox * dy - oy * dx) / l).abs(); // distance of the line
                    let e = 1e-6;
                    let on = along >= e && along <= l - e && off <= 1.5 - e;
                    let out = along < -e || along > l + e || off > 1.5 + e;
                    let v = at(&b, y, x);
                    if on && v != -5.0 || out && v != at(&a, y, x) || v != -5.0 && v != at(&a, y, x) { return Err(format!("line to row {} column {}: value {} at row {} column {} (place {} of {}, distance {})", by, bx, v, y, x, along, l, off)); }
                } }
                ctx.transitions += 1;
            } }
            Ok(())
        });
    } } } }
    // large images
    for (h, w) in [(1, 70), (70, 1), (33, 35), (64, 16), (17, 130), (300, 2)] {
        if ctx.mine() { ctx.case("large", || format!("access to a image with {} rows and {} columns", h, w), |ctx| {
            let a = img(h, w, 0);
            same(&a, h, w, |y, x| 1.0 + (y * w + x) as f64)?;
            for y in -2..h + 2 { for x in -2..w + 2 {
                if Map2d::readAt(&a, y, x) != at(&a, y, x) { return Err(format!("read at row {} column {}", y, x)); }
                ctx.transitions += 1;
                if (y * 7 + x) % 5 != 0 { continue; }
                let mut b = Map2d::clone(&a);
                Map2d::writeAt(&mut b, y, x, -99.0);
                same(&b, h, w, |yy, xx| if (yy, xx) == (y, x) { -99.0 } else { at(&a, yy, xx) })?;
            } }
            for (sy, sx) in [(1, 1), (16, 17), (40, 3), (3, 64), (h, w), (h + 5, w + 5)] { for (y, x) in [(0, 0), (-3, -2), (h / 2, w / 3), (h - 1, w - 1), (1, 1)] {
                same(&Map2d::crop(&a, x, y, sx, sy), sy, sx, |yy, xx| at(&a, y + yy, x + xx)).map_err(|e| format!("crop: {}", e))?;
                let mut b = a.clone();
                Map2d::map2dDrawBox(&mut b, x, y, sx, sy, -77.0);
                same(&b, h, w, |yy, xx| if yy >= y && yy < y + sy && xx >= x && xx < x + sx { -77.0 } else { at(&a, yy, xx) }).map_err(|e| format!("box: {}", e))?;
            } }
            let b = img(h, w, 1);
            same(&Map2d::sub(&a, &b), h, w, |y, x| at(&a, y, x) - at(&b, y, x)).map_err(|e| format!("difference: {}", e))?;
            same(&Map2d::add(&a, &b), h, w, |y, x| at(&a, y, x) + at(&b, y, x)).map_err(|e| format!("sum: {}", e))?;
            same(&Map2d::divScalar(&a, 4.0), h, w, |y, x| at(&a, y, x) / 4.0).map_err(|e| format!("quotient: {}", e))?;
            if !near(Map2d::distPow2(&a), a.arr.iter().map(|v| v * v).sum()) { return Err("distPow2".into()); }
            for r in [3, 7, 11, 16, 25, 40] { for (cy, cx) in [(h / 2, w / 2), (0, 0), (h, w / 3)] {
                let mut b = a.clone();
                Map2d::map2dDrawCircle(&mut b, cx, cy, r, -5.0);
                same(&b, h, w, |y, x| if (y - cy) * (y - cy) + (x - cx) * (x - cx) <= r * r { -5.0 } else { at(&a, y, x) }).map_err(|e| format!("circle of radius {}: {}", r, e))?;
            } }
            Ok(())
        }); }
        for (kh, kw) in [(1, 1), (2, 7), (6, 6), (7, 7), (8, 3), (9, 9), (11, 16), (17, 5)] {
            if !ctx.mine() { continue; }
            ctx.case("large convolution", || format!("image {}x{}, kernel {}x{}", h, w, kh, kw), |ctx| {
                let (a, q) = (img(h, w, 1), img(kh, kw, 0));
                let full = |y: i32, x: i32| { let mut s = 0.0; for i in 0..kh { for j in 0..kw { s += at(&q, i, j) * at(&a, y + i - kh / 2, x + j - kw / 2); } } s };
                same(&ModVisionC::convo(&a, &q), h, w, full)?;
                let (by, bx) = (kh / 2 + 1, kw / 2 + 1);
                same(&ModVisionC::convWithoutBorder(&a, &q), h, w, |y, x| if y >= by && y < h - by && x >= bx && x < w - bx { full(y, x) } else { 0.0 }).map_err(|e| format!("without border: {}", e))?;
                ctx.transitions += 2;
                Ok(())
            });
        }
    }
    // Gabor kernels
    for width in (0..=9).chain([16, 21, 32, 33]) { for phi in 0..8 { for lam in [0.2, 0.5, 1.0] { for off in [0.0, 0.7] { for asp in [0.5, 1.0] {
        if !ctx.mine() { continue; }
        ctx.case("gabor", || format!("Gabor kernel {} {} {} {} {}", width, phi, lam, off, asp), |_| {
            let p = phi as f64 * 0.5;
            let g = ModVisionC::generateGaborKernel(width, p, lam, off, asp);
            same(&g, width, width, |yi, xi| {
                let c = |v: i32| ((v - width / 2) as f64) * 2.0 / width as f64;
                let (x, y) = (c(xi), c(yi));
                let (u, v) = (x * p.cos() + y * p.sin(), y * p.cos() - x * p.sin());
                let s = 0.56 * lam;
                (-(u * u + asp * asp * v * v) / (2.0 * s * s)).exp() * (2.0 * std::f64::consts::PI * u / lam + off).cos()
            })
        });
    } } } } }
}

// ------------------------------------------------------------------------------------------ C27
fn rev(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let w = |c: f64| c / (1.0 - c);
    let (x, y) = (w(a.1), w(b.1));
    let s = x + y;
    (if s > 0.0 { (a.0 * x + b.0 * y) / s } else { a.0 }, s / (s + 1.0))
}
fn comp(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let f0 = a.0 + b.0 - a.0 * b.0;
    let f = if f0.abs() < 1e-8 { 0.0 } else { a.0 * b.0 / f0 };
    let w = f0 * a.1 * b.1;
    (f, w / (w + 1.0))
}
type Chan = Vec<(f64, f64)>;
fn simb(s: &[Chan], p: &[Chan]) -> f64 {
    let mut t = (0.0, 0.0);
    for i in 0..s.len() { let mut k = (0.0, 0.0); for j in 0..s[i].len() { k = rev(k, comp(s[i][j], p[i][j])); } t = rev(t, k); }
    t.1 * (t.0 - 0.5) + 0.5
}
fn tvs(c: &Chan) -> Vec<TV> { c.iter().map(|v| TV{f: v.0, c: v.1}).collect() }
/// which prototypes may be chosen? None: a new one
fn best(sims: &[f64]) -> Vec<Option<usize>> {
    let m = sims.iter().cloned().fold(0.0, f64::max);
    let mut r = vec![];
    if sims.is_empty() || m < 0.5 + 1e-9 { r.push(None); }
    if m >= 0.5 - 1e-9 { for (i, s) in sims.iter().enumerate() { if *s >= m - 1e-9 { r.push(Some(i)); } } }
    r
}
fn c27(ctx: &mut Ctx) {
    // quantisation of a value
    for n in (1..=9i64).chain([16, 17, 33, 64]) { for i in 0..=60 + 4 * n { for c in [0.05, 0.5, 0.9] {
        if !ctx.mine() { continue; }
        // values of a grid and values next to the steps
        let v = if i <= 60 { i as f64 / 60.0 } else { let j = i - 61; (j / 4) as f64 / (n - 1).max(1) as f64 + [-1e-3, -1e-6, 1e-6, 1e-3][(j % 4) as usize] };
        if !(0.0..=1.0).contains(&v) || v < 1.0 && v > 0.0 && ((v * (n - 1) as f64).round() - v * (n - 1) as f64).abs() < 1e-9 { continue; }
        ctx.case("quantisation", || format!("value {} in {} steps", v, n), |_| {
            let r = ModVisionB::conv_to_tv_vec(v, n, c);
            let q = (v * (n - 1) as f64) as usize;
            if r.len() != n as usize { return Err(format!("{} values", r.len())); }
            for (j, t) in r.iter().enumerate() { if !near(t.c, c) || t.f != if j == q { 1.0 } else { 0.0 } { return Err(format!("step {} has truth value {} {}, the value is in step {}", j, t.f, t.c, q)); } }
            if ModVisionB::quantisize(v, n) != q as i64 { return Err("quantisize".into()); }
            Ok(())
        });
    } } }
    for h in 0..=3 { for w in 0..=3 { for n in 1..=4i64 {
        if !ctx.mine() { continue; }
        ctx.case("quantisation", || format!("image {}x{} in {} steps", h, w, n), |_| {
            let mut m = Map2d::makeMap2d(h, w);
            for i in 0..m.arr.len() { m.arr[i] = ((i * 3 + 1) % 7) as f64 / 6.0; }
            let r = ModVisionB::conv_img_to_tv_vec(&m, n, 0.3);
            let mut e = vec![];
            for v in &m.arr { for j in 0..n { e.push(if (v * (n - 1) as f64) as i64 == j { 1.0 } else { 0.0 }); } }
            if r.len() != e.len() || r.iter().zip(&e).any(|(a, b)| a.f != *b || !near(a.c, 0.3)) { return Err("wrong vector".into()); }
            Ok(())
        });
    } } }
    // vectors of truth values
    let g: Vec<(f64, f64)> = vec![(0.0, 0.1), (1.0, 0.1), (0.5, 0.6), (1.0, 0.9), (0.25, 0.0)];
    for l in 0..=3usize { for ia in 0..g.len().pow(l as u32) { for ib in 0..g.len().pow(l as u32) {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let get = |mut i: usize| -> Chan { (0..l).map(|_| { let r = g[i % g.len()]; i /= g.len(); r }).collect() };
        let (a, b) = (get(ia), get(ib));
        ctx.case("vectors", || format!("vectors {:?} {:?}", a, b), |_| {
            let same = |r: Vec<TV>, e: Vec<(f64, f64)>, what: &str| -> Result<(), String> {
                if r.len() != e.len() { return Err(format!("{}: length {}", what, r.len())); }
                for (x, y) in r.iter().zip(&e) { if !near(x.c, y.1) || (y.1 > 1e-9 && !near(x.f, y.0)) { return Err(format!("{}: {} {} instead of {} {}", what, x.f, x.c, y.0, y.1)); } }
                Ok(())
            };
            let z = |f: fn((f64, f64), (f64, f64)) -> (f64, f64)| a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect::<Vec<_>>();
            same(TvVec::revVec(&tvs(&a), &tvs(&b)), z(rev), "revision")?;
            same(TvVec::compVec(&tvs(&a), &tvs(&b)), z(comp), "comparison")?;
            same(vec![TvVec::foldVec(&tvs(&a))], vec![a.iter().fold((0.0, 0.0), |x, y| rev(x, *y))], "fold")
        });
    } } }
    // histories of the classifier for truth values
    let pix: Vec<Vec<f64>> = vec![vec![0.0, 0.0], vec![1.0, 1.0], vec![0.0, 1.0], vec![0.5, 1.0]];
    for nch in 1..=2usize { for nq in [2i64, 3] { for conf in [0.05, 0.4] {
        let ns = pix.len().pow(nch as u32).min(8);
        let len = if ctx.thorough { 5 } else if ns > 4 { 3 } else { 4 };
        for hist in 0..(ns * 2).pow(len) {
            if ctx.stop() { return; }
            if !ctx.mine() { continue; }
            let mut i = hist;
            let acts: Vec<(usize, bool)> = (0..len).map(|_| { let a = i % (ns * 2); i /= ns * 2; (a / 2, a % 2 == 0) }).collect();
            ctx.case("classifier", || format!("{} channels, {} steps, confidence {}: (image, learn) {:?}", nch, nq, conf, acts), |ctx| {
                let stim = |k: usize| -> Vec<Chan> { (0..nch).map(|c| { let p = &pix[(k / pix.len().pow(c as u32) + c) % pix.len()]; p.iter().flat_map(|v| (0..nq).map(move |j| (if (v * (nq - 1) as f64) as i64 == j { 1.0 } else { 0.0 }, conf))).collect() }).collect() };
                let mut cls = ModVisionB::PrototypeClassifier{prototypes: vec![], n_quantize: nq, stimulus_conf: conf};
                let mut model: Vec<(Vec<Chan>, i64)> = vec![];
                for (t, (k, learn)) in acts.iter().enumerate() {
                    let s = stim(*k);
                    let now = 100 + 3 * t as i64;
                    let st: Vec<ModVisionB::Channel> = s.iter().map(|c| ModVisionB::Channel{v: tvs(c)}).collect();
                    let sims: Vec<f64> = model.iter().map(|p| simb(&s, &p.0)).collect();
                    let got = ModVisionB::calc_sims(&st, &cls);
                    if got.len() != sims.len() || got.iter().zip(&sims).any(|(a, b)| !near(*a, *b)) { return Err(format!("similarities {:?} instead of {:?}", got, sims)); }
                    let r = ModVisionB::classify(&mut cls, &st, now, *learn);
                    let may = best(&sims);
                    let choice = match r { Some(i) if i < model.len() => Some(i), Some(i) if i == model.len() && *learn => None, None if !*learn => None, x => return Err(format!("step {}: class {:?} of {} prototypes", t, x, model.len())) };
                    if !may.contains(&choice) { return Err(format!("step {}: class {:?}, similarities {:?}", t, r, sims)); }
                    if *learn { match choice {
                        None => model.push((s, now)),
                        Some(i) => { for c in 0..nch { for j in 0..s[c].len() { model[i].0[c][j] = rev(model[i].0[c][j], s[c][j]); } } model[i].1 = now; }
                    } }
                    if cls.prototypes.len() != model.len() { return Err(format!("step {}: {} prototypes instead of {}", t, cls.prototypes.len(), model.len())); }
                    for (i, (p, m)) in cls.prototypes.iter().zip(&model).enumerate() {
                        if p.last_use_time != m.1 { return Err(format!("step {}: prototype {} was used at {} instead of {}", t, i, p.last_use_time, m.1)); }
                        if p.channels.len() != nch { return Err("number of channels".into()); }
                        for c in 0..nch { if p.channels[c].v.len() != m.0[c].len() || p.channels[c].v.iter().zip(&m.0[c]).any(|(a, b)| !near(a.f, b.0) || !near(a.c, b.1)) { return Err(format!("step {}: channel {} of prototype {} is wrong", t, c, i)); } }
                    }
                    ctx.transitions += 1;
                }
                Ok(())
            });
        }
    } } }
    // histories of the classifier for real values
    let pix: Vec<Vec<f64>> = vec![vec![0.0, 0.0, 0.0], vec![1.0, 0.2, 0.0], vec![0.1, 0.0, 0.3], vec![2.0, 2.0, -1.0]];
    for nch in 1..=2usize {
        let ns = if nch == 1 { 4 } else { 6 };
        let len = if ctx.thorough { 5 } else { 4 };
        for hist in 0..(ns * 2usize).pow(len) {
            if ctx.stop() { return; }
            if !ctx.mine() { continue; }
            let mut i = hist;
            let acts: Vec<(usize, bool)> = (0..len).map(|_| { let a = i % (ns * 2); i /= ns * 2; (a / 2, a % 2 == 0) }).collect();
            ctx.case("real classifier", || format!("{} channels: (image, learn) {:?}", nch, acts), |ctx| {
                let stim = |k: usize| -> Vec<Vec<f64>> { (0..nch).map(|c| pix[(k / pix.len().pow(c as u32) + c + if c > 0 { k } else { 0 }) % pix.len()].clone()).collect() };
                let mut cls = ModVisionD::RealPrototypeClassifier{prototypes: vec![]};
                let mut model: Vec<(Vec<Vec<f64>>, i64, i64)> = vec![]; // sums, count, time
                for (t, (k, learn)) in acts.iter().enumerate() {
                    let s = stim(*k);
                    let now = 100 + 3 * t as i64;
                    let st: Vec<ModVisionD::Channel> = s.iter().map(|c| ModVisionD::Channel{v: Map{arr: c.clone(), w: 3, h: 1}}).collect();
                    let sims: Vec<f64> = model.iter().map(|p| { let mut d = 0.0; for c in 0..nch { for j in 0..3 { let x = s[c][j] - p.0[c][j] / p.1 as f64; d += x * x; } } (-0.5 * d).exp() }).collect();
                    let got = ModVisionD::calc_sims(&st, &cls);
                    if got.len() != sims.len() || got.iter().zip(&sims).any(|(a, b)| !near(*a, *b)) { return Err(format!("similarities {:?} instead of {:?}", got, sims)); }
                    let r = ModVisionD::classify(&mut cls, &st, now, *learn);
                    let may = best(&sims);
                    let choice = match r { Some(i) if i < model.len() => Some(i), Some(i) if i == model.len() && *learn => None, None if !*learn => None, x => return Err(format!("step {}: class {:?} of {} prototypes", t, x, model.len())) };
                    if !may.contains(&choice) { return Err(format!("step {}: class {:?}, similarities {:?}", t, r, sims)); }
                    if *learn { match choice {
                        None => model.push((s, 1, now)),
                        Some(i) => { for c in 0..nch { for j in 0..3 { model[i].0[c][j] += s[c][j]; } } model[i].1 += 1; model[i].2 = now; }
                    } }
                    if cls.prototypes.len() != model.len() { return Err(format!("step {}: {} prototypes instead of {}", t, cls.prototypes.len(), model.len())); }
                    for (i, (p, m)) in cls.prototypes.iter().zip(&model).enumerate() {
                        if p.last_use_time != m.2 || p.evidence_count != m.1 { return Err(format!("step {}: prototype {} has time {} and count {} instead of {} and {}", t, i, p.last_use_time, p.evidence_count, m.2, m.1)); }
                        if p.channels.len() != nch { return Err("number of channels".into()); }
                        for c in 0..nch { if p.channels[c].v.arr.iter().zip(&m.0[c]).any(|(a, b)| !near(*a, *b)) { return Err(format!("step {}: channel {} of prototype {} is wrong", t, c, i)); } }
                    }
                    ctx.transitions += 1;
                }
                Ok(())
            });
        }
    }
    // many prototypes with many channels: each is found again
    for many in [3usize, 9, 17, 33, 40] { for nch in [1usize, 3, 6] { for order in 0..3usize {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("many", || format!("{} prototypes with {} channels, order {}", many, nch, order), |ctx| {
            let mut cls = ModVisionD::RealPrototypeClassifier{prototypes: vec![]};
            let size = 20;
            let stim = |k: usize| -> Vec<ModVisionD::Channel> { (0..nch).map(|c| ModVisionD::Channel{v: Map{arr: (0..size).map(|j| if j == k % size { 3.0 + (k / size) as f64 * 4.0 } else { 0.01 * (c + j) as f64 }).collect(), w: 5, h: 4}}).collect() };
            for k in 0..many { if ModVisionD::classify(&mut cls, &stim(k), k as i64, true) != Some(k) { return Err(format!("image {} isn't a new prototype", k)); } }
            let mut cnt = vec![1i64; many];
            let mut last: Vec<i64> = (0..many as i64).collect();
            for i in 0..2 * many {
                let k = match order { 0 => i % many, 1 => (2 * many - 1 - i) % many, _ => (i * 7) % many };
                let learn = i % 3 != 1;
                if ModVisionD::classify(&mut cls, &stim(k), 1000 + i as i64, learn) != Some(k) { return Err(format!("step {}: image {} isn't found", i, k)); }
                if learn { cnt[k] += 1; last[k] = 1000 + i as i64; }
                if cls.prototypes.len() != many { return Err(format!("step {}: {} prototypes", i, cls.prototypes.len())); }
                for (j, p) in cls.prototypes.iter().enumerate() {
                    if p.evidence_count != cnt[j] || p.last_use_time != last[j] { return Err(format!("step {}: prototype {} has {} evidence and time {} instead of {} and {}", i, j, p.evidence_count, p.last_use_time, cnt[j], last[j])); }
                    for (c, s) in p.channels.iter().zip(stim(j)) { for x in 0..size { if (c.v.arr[x] - s.v.arr[x] * cnt[j] as f64).abs() > 1e-9 { return Err(format!("step {}: prototype {} was changed", i, j)); } } }
                }
                ctx.transitions += 1;
            }
            // a image which is like none of them
            for _ in 0..2 { let mut u = stim(0); for c in u.iter_mut() { for v in c.v.arr.iter_mut() { *v = -9.0; } }
                if ModVisionD::classify(&mut cls, &u, 5000, false) != None || cls.prototypes.len() != many { return Err("a unknown image has a class".into()); } }
            // truth values
            let size = 24;
            let mut cls = ModVisionB::PrototypeClassifier{prototypes: vec![], n_quantize: 2, stimulus_conf: 0.9};
            let sb = |k: usize| -> Vec<ModVisionB::Channel> { (0..nch).map(|c| ModVisionB::Channel{v: (0..size).map(|j| TV{f: if (j + c) % size == k % size || (k >= size && (j + c + 7) % size == k % size) { 1.0 } else { 0.0 }, c: 0.9}).collect()}).collect() };
            let mut model: Vec<Vec<Chan>> = vec![];
            for i in 0..2 * many {
                let k = if i < many { i } else { match order { 0 => i % many, 1 => 2 * many - 1 - i, _ => (i * 7) % many } };
                let s: Vec<Chan> = sb(k).iter().map(|c| c.v.iter().map(|t| (t.f, t.c)).collect()).collect();
                let sims: Vec<f64> = model.iter().map(|p| simb(&s, p)).collect();
                let r = ModVisionB::classify(&mut cls, &sb(k), i as i64, true);
                let choice = match r { Some(j) if j < model.len() => Some(j), Some(j) if j == model.len() => None, x => return Err(format!("step {}: class {:?}", i, x)) };
                if !best(&sims).contains(&choice) { return Err(format!("step {}: class {:?}, similarities {:?}", i, r, sims)); }
                match choice { None => model.push(s), Some(q) => for c in 0..nch { for j in 0..size { model[q][c][j] = rev(model[q][c][j], s[c][j]); } } }
                for (q, (p, m)) in cls.prototypes.iter().zip(&model).enumerate() { for c in 0..nch { if p.channels[c].v.iter().zip(&m[c]).any(|(a, b)| !near(a.f, b.0) || !near(a.c, b.1)) { return Err(format!("step {}: prototype {} is wrong", i, q)); } } }
                ctx.transitions += 1;
            }
            let u: Vec<ModVisionB::Channel> = (0..nch).map(|_| ModVisionB::Channel{v: vec![TV{f: 1.0, c: 0.9}; size]}).collect();
            let us: Vec<Chan> = u.iter().map(|c| c.v.iter().map(|t| (t.f, t.c)).collect()).collect();
            let sims: Vec<f64> = model.iter().map(|p| simb(&us, p)).collect();
            if sims.iter().all(|s| *s < 0.4999) { ctx.note("unknown images", 1); if ModVisionB::classify(&mut cls, &u, 5000, false) != None || cls.prototypes.len() != model.len() { return Err("a unknown image has a class".into()); } }
            Ok(())
        });
    } } }
    // the best of many similarities
    let g = [0.0, 0.3, 0.4999, 0.5, 0.7, 1.0];
    for l in 0..=4usize { for i in 0..g.len().pow(l as u32) {
        if !ctx.mine() { continue; }
        let mut k = i;
        let s: Vec<f64> = (0..l).map(|_| { let r = g[k % g.len()]; k /= g.len(); r }).collect();
        ctx.case("best", || format!("similarities {:?}", s), |_| {
            let m = s.iter().cloned().fold(0.0, f64::max);
            for r in [ModVisionB::classify_max(&s), ModVisionD::classify_max(&s)] {
                match r { None => if m >= 0.5 { return Err("no class".into()); }, Some((i, v)) => if m < 0.5 || s[i] != m || v != m { return Err(format!("class {} with {}", i, v)); } }
            }
            Ok(())
        });
    } }
    // limit of the attention
    for l in (0..=12usize).chain([31, 64, 65, 300]) { for max in (0..=14usize).chain([32, 33, 64, 100, 300, 301]) {
        if !ctx.mine() { continue; }
        ctx.case("limit", || format!("{} items limited to {}", l, max), |_| {
            let a: Vec<AeraishPerceptionComp::PerceptItem<usize>> = (0..l).map(|i| AeraishPerceptionComp::PerceptItem{dat: i, salience: 0.1 * i as f64, novelity: 0.01 * i as f64}).collect();
            let r = AeraishPerceptionComp::limit(&a, max);
            if r.len() != l.min(max) { return Err(format!("{} items", r.len())); }
            for (i, v) in r.iter().enumerate() { if v.dat != i || v.salience != a[i].salience || v.novelity != a[i].novelity { return Err(format!("item {} was changed", i)); } }
            Ok(())
        });
    } }
}

// ------------------------------------------------------------------------------------------ C28
/// the known words and the code of their part of speech
const WORDS: &[(&str, i64)] = &[("Tom", 2), ("Tim", 2), ("John", 2), ("is", 0), ("can", 17), ("are", 6), ("?", 13), ("to", 9), ("of", 15), ("the", 8), ("what", 12), ("and", 3),
    ("fast", 1), ("slow", 1), ("fat", 1), ("thin", 1), ("good", 1), ("bad", 1), ("dance", 10), ("hunting", 5), ("purpose", 5), ("food", 5), ("Cat", 5), ("want", 11)];
const PLACES: i64 = 12;
const CODES: i64 = 34;
/// network: hidden neurons with (place, code, weight) and a bias, output neurons with a weight for each hidden neuron and a bias
#[derive(Clone, Debug, Default, PartialEq)]
struct Net { hid: Vec<(Vec<(i64, i64, f64)>, f64)>, out: Vec<(Vec<(usize, f64)>, f64)> }
impl Net {
    fn new(outs: usize) -> Net { Net{hid: vec![], out: vec![(vec![], 0.0); outs]} }
    /// if there is this code at this place then vote with this weight for the output
    fn rule(&mut self, place: i64, code: i64, out: usize, w: f64) { self.hid.push((vec![(place, code, 1.0)], 0.0)); let h = self.hid.len() - 1; self.out[out].0.push((h, w)); }
    fn store(&self) {
        let _ = std::fs::remove_file("nn_nlp0.db");
        let mut c = rusqlite::Connection::open("nn_nlp0.db").expect("scratch database");
        let _ = c.execute_batch("PRAGMA synchronous=OFF; PRAGMA journal_mode=MEMORY;");
        c.execute("create table if not exists weights (id integer primary key AUTOINCREMENT, nnid integer not null, layer integer not null, neuronidx integer not null, valueid integer not null, value real not null)", []).unwrap();
        let t = c.transaction().unwrap();
        {
            let mut st = t.prepare("INSERT INTO weights (nnid,layer,neuronidx,valueid,value) values (0,?1,?2,?3,?4)").unwrap();
            let mut put = |l: i64, n: usize, v: i64, x: f64| { st.execute(rusqlite::params![l, n as i64, v, x]).unwrap(); };
            for (n, (w, b)) in self.hid.iter().enumerate() {
                put(0, n, -1, *b);
                for k in 0..PLACES * CODES { put(0, n, k, w.iter().filter(|(p, c, _)| p * CODES + c == k).map(|x| x.2).sum()); }
            }
            for (n, (w, b)) in self.out.iter().enumerate() {
                put(1, n, -1, *b);
                for k in 0..self.hid.len() { put(1, n, k as i64, w.iter().filter(|x| x.0 == k).map(|x| x.1).sum()); }
            }
        }
        t.commit().unwrap();
    }
    fn eval(&self, seq: &[i64]) -> Vec<f64> {
        // the sequence is aligned to the end, the free places hold the last code
        let at = |p: i64| { let k = seq.len() as i64 - PLACES + p; if k < 0 { CODES - 1 } else { seq[k as usize] } };
        let h: Vec<f64> = self.hid.iter().map(|(w, b)| b + w.iter().filter(|(p, c, _)| at(*p) == *c).map(|x| x.2).sum::<f64>()).collect();
        self.out.iter().map(|(w, b)| b + w.iter().map(|(k, x)| h[*k] * x).sum::<f64>()).collect()
    }
}
/// actions and relations (head, first, second) for a sentence; None if two actions are equally good
fn nlp_ref(net: &Net, ws: &[String]) -> Option<(Vec<i64>, Vec<(String, String, String)>)> {
    let mut seq = vec![];
    for w in ws { match WORDS.iter().find(|x| x.0 == w) { Some(x) => seq.push(x.1), None => return Some((vec![], vec![])) } }
    seq.push(7);
    let (mut log, mut rels) = (vec![], vec![]);
    for _ in 0..10 {
        let o: Vec<f64> = net.eval(&seq).iter().map(|v| v.max(0.0).min(1.0)).collect();
        let m = o.iter().cloned().fold(0.0, f64::max);
        let a = if m <= 0.0 { 0 } else { let c: Vec<usize> = (0..o.len()).filter(|i| m - o[*i] < 1e-6).collect(); if c.len() > 1 { return None; } c[0] as i64 };
        log.push(a);
        if a == 0 { break; }
        let w = |i: usize| ws.get(i).cloned();
        let r = match a { 1 => (w(1), w(0), w(2)), 2 => (w(3), w(0), w(4)), 3 => (w(3), w(2), w(4)), 4 => (Some("want_to".to_string()), w(0), w(3)), 7 => (w(1), w(0), w(4)), _ => (None, None, None) };
        if let (Some(h), Some(x), Some(y)) = r { rels.push((h, x, y)); }
        seq.push(18 + a);
    }
    Some((log, rels))
}
/// what the network does with the sentence
fn nlp_imp(ws: &[String]) -> (Vec<i64>, Vec<(String, String, String, bool, f64)>) {
    let (l, r) = nar20_1::ModNlpA::network_run(ws);
    (l, r.iter().map(|r| (r.head.clone(), r.args.get(0).cloned().unwrap_or_default(), r.args.get(1..).map(|x| x.join("|")).unwrap_or_default(), r.isNegated, r.conf)).collect())
}
fn nlp_same(net: &Net, ws: &[String]) -> Result<bool, String> {
    let (l, r) = match nlp_ref(net, ws) { Some(x) => x, None => return Ok(false) };
    let (gl, gr) = nlp_imp(ws);
    if gl != l { return Err(format!("sentence {:?}: actions {:?} instead of {:?}", ws, gl, l)); }
    let g2: Vec<(String, String, String)> = gr.iter().map(|x| (x.0.clone(), x.1.clone(), x.2.clone())).collect();
    if g2 != r { return Err(format!("sentence {:?}, actions {:?}: relations {:?} instead of {:?}", ws, l, g2, r)); }
    for x in &gr { if x.3 || !near(x.4, 0.998) { return Err(format!("sentence {:?}: relation {:?}", ws, x)); } }
    Ok(true)
}
/// network which does these actions for every sentence
fn script(acts: &[i64]) -> Net { let mut n = Net::new(15); n.rule(0, 7, 1, 0.0); for (k, a) in acts.iter().enumerate().take(10) { n.rule(PLACES - 1 - k as i64, 7, *a as usize, 1.0); } n }
/// different words, so that exchanged words are seen
fn sentence(n: usize, rot: usize) -> Vec<String> { (0..n).map(|i| WORDS[(i * 5 + rot) % WORDS.len()].0.to_string()).collect() }
fn facade(nar: &mut nar20_1::Nar::Nar, l: &str) -> bool { let mut q = false; nar20_1::NarInputFacade::input(nar, &l.to_string(), &mut q); q }
fn tasks(nar: &nar20_1::Nar::Nar) -> Vec<String> { let mut t: Vec<String> = mc::nar::tasks_of(&nar.mem).iter().map(|t| t.b.key()).collect(); t.sort(); t }

fn c28(ctx: &mut Ctx) {
    let dir = format!("{}/evidence/nlp.{}.{}", std::env::var("VP_VERIF").unwrap_or("/verif".into()), ctx.shard, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let old = std::env::current_dir().unwrap();
    std::env::set_current_dir(&dir).expect("scratch directory");
    nlp(ctx);
    let _ = std::env::set_current_dir(old);
    let _ = std::fs::remove_dir_all(&dir);
}
fn nlp(ctx: &mut Ctx) {
    // every sequence of actions for sentences of every length
    let (alen, acts): (usize, Vec<i64>) = if ctx.thorough { (3, (0..15).collect()) } else { (2, (0..15).collect()) };
    let mut seqs: Vec<Vec<i64>> = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..alen { let mut n = vec![]; for s in &last { for a in &acts { let mut x: Vec<i64> = s.clone(); x.push(*a); n.push(x); } } seqs.extend(n.iter().cloned()); last = n; }
    let few = [0, 1, 2, 3, 4, 5, 7];
    for a in few { for b in few { for c in few { let x = vec![a, b, c]; if !seqs.contains(&x) { seqs.push(x); } } } }
    // more actions than are done for a sentence
    for a in 1..15 { seqs.push(vec![a; 10]); for k in 1..10 { let mut v = vec![a; 10]; v[k] = 0; seqs.push(v); } }
    for s in seqs {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("actions", || format!("network with the actions {:?}", s), |ctx| {
            let net = script(&s);
            net.store();
            for n in 0..=7usize { nlp_same(&net, &sentence(n, s.len()))?; ctx.transitions += 1; }
            nlp_same(&net, &sentence(11, 0))?; nlp_same(&net, &sentence(12, 1))?; nlp_same(&net, &sentence(13, 2))?; nlp_same(&net, &sentence(30, 3))?;
            ctx.transitions += 4;
            Ok(())
        });
    }
    // every word at every place of the sentence, as the network sees it: each network tells some of the codes at one place
    let names = [5usize, 6, 8, 9, 10, 11, 12, 13, 14];
    for place in 0..PLACES { for part in 0..4i64 {
        if !ctx.mine() { continue; }
        ctx.case("words", || format!("codes from {} at place {}", part * 9, place), |ctx| {
            let mut net = Net::new(15);
            for k in 0..9 { if part * 9 + k < CODES { net.rule(place, part * 9 + k, names[k as usize], 1.0); } }
            net.store();
            for n in 0..=13usize { for rot in 0..WORDS.len() {
                if n == 0 && rot > 0 || !ctx.thorough && n > 2 && n < 11 && (rot + n) % 6 != 0 { continue; }
                nlp_same(&net, &sentence(n, rot))?;
                ctx.transitions += 1;
            } }
            Ok(())
        });
    } }
    for (w, c) in WORDS {
        if !ctx.mine() { continue; }
        ctx.case("words", || format!("word {:?}", w), |ctx| {
            for code in 0..18 {
                let mut net = Net::new(15);
                net.rule(PLACES - 2, code, 1, 1.0);
                net.store();
                for n in [1usize, 3, 5] {
                    let mut s = sentence(n, 3); s[n - 1] = w.to_string();
                    nlp_same(&net, &s)?;
                    let l = nlp_imp(&s).0;
                    if (l.get(0) == Some(&1)) != (code == *c) { return Err(format!("sentence {:?} has the code {} at the end", s, code)); }
                    ctx.transitions += 2;
                }
            }
            Ok(())
        });
    }
    // an action is fed back: the next action depends on the last ones
    for a in 1..15i64 { for b in 0..15i64 { if !ctx.mine() { continue; }
        ctx.case("feedback", || format!("first action {}, then {} if the last action was {}, then what follows from it", a, b, a), |ctx| {
            let mut net = Net::new(15);
            net.rule(PLACES - 1, 7, a as usize, 1.0);
            if b != a { net.rule(PLACES - 1, 18 + a, b as usize, 0.9); }
            net.rule(PLACES - 2, 18 + a, ((b + 3) % 15) as usize, 0.4);
            net.rule(PLACES - 3, 18 + a, ((b + 5) % 15) as usize, 0.2);
            net.store();
            for n in [0usize, 1, 3, 5, 9, 12] { nlp_same(&net, &sentence(n, b as usize))?; ctx.transitions += 1; }
            Ok(())
        });
    } }
    // the best action wins: every assignment of grid values to the outputs
    let grid = [-1.0, 0.0, 0.25, 0.5, 1.5];
    for (i, j) in [(0usize, 1usize), (1, 0), (1, 2), (2, 1), (1, 14), (14, 3), (4, 7)] { for x in grid { for y in grid { for bias in [0.0, -0.3, 0.3] {
        if !ctx.mine() { continue; }
        ctx.case("best", || format!("output {} is {}, output {} is {}, bias {}", i, x, j, y, bias), |ctx| {
            let mut net = Net::new(15);
            // hidden neuron with bias and two inputs
            net.hid.push((vec![(PLACES - 1, 7, 0.5), (PLACES - 2, WORDS[0].1, 0.25)], 0.25));
            net.out[i] = (vec![(0, x)], bias);
            net.out[j] = (vec![(0, y)], 0.0);
            net.store();
            for n in [0usize, 3, 5] { let mut s = sentence(n, 2); nlp_same(&net, &s)?; if n > 0 { s[n - 1] = "Tom".into(); nlp_same(&net, &s)?; } ctx.transitions += 2; }
            Ok(())
        });
    } } } }
    // sentences for the reasoner: exactly the relations are told to it, and nothing ends the session
    let texts = ["Tom is fat", "Tim and John are thin", "Cat want to dance", "can Tom dance?", "Tom is", "", "Tom isnt fat", "Tom is fat ? ", "é ü", "<a --> b>.", "  Tom   is\tgood  ", "Tom is slow and bad", "the purpose of Tom is hunting", "?", "??? Tom", "what is Tom and Tim and John and Cat are good fat thin slow"];
    let nets: Vec<Vec<i64>> = vec![vec![], vec![0], vec![1], vec![2, 3], vec![4], vec![1, 7], vec![12], vec![1, 2, 3, 4, 7], vec![1; 10], vec![5, 6, 8]];
    for (k, a) in nets.iter().enumerate() { for i in 0..texts.len() { for j in 0..texts.len() {
        if ctx.stop() { return; }
        if !ctx.thorough && (i + j + k) % 2 == 1 { continue; }
        if !ctx.mine() { continue; }
        ctx.case("session", || format!("network with the actions {:?}: !.nlp {:?}, then !.nlp {:?}", a, texts[i], texts[j]), |ctx| {
            let net = script(a);
            net.store();
            let mut want: Vec<String> = vec![];
            for t in [texts[i], texts[j]] {
                let ws: Vec<String> = t.replace("?", " ? ").split_whitespace().map(|s| s.to_string()).collect();
                for (h, x, y) in nlp_ref(&net, &ws).unwrap().1 { want.push(format!("<({}*{}) --> {}>. {{1.0 0.998}}", x, y, h)); }
            }
            want.push("<a --> b>.".into());
            let w2 = want.clone();
            let w = mc::explore::seq_world(1, move || { let mut nar = nar20_1::Nar::createNar(); for l in &w2 { nar20_1::Nar::inputN(&mut nar, l); } tasks(&nar) })?;
            let ls: Vec<String> = [texts[i], texts[j]].iter().map(|t| format!("!.nlp {}", t)).collect();
            let g = mc::explore::seq_world(1, move || { let mut nar = nar20_1::Nar::createNar(); let mut q = false; for l in &ls { q |= facade(&mut nar, l); } q |= facade(&mut nar, "<a --> b>."); (tasks(&nar), q) })?;
            if g.1 { return Err("the session was ended".into()); }
            if g.0 != w { return Err(format!("the reasoner knows {:?} instead of {:?}", g.0, w)); }
            ctx.transitions += 2;
            ctx.state(&g.0.join(" "));
            Ok(())
        });
    } } }
    // the network is missing or can't be used
    for kind in 0..4 { for t in texts {
        if !ctx.mine() { continue; }
        ctx.case("no network", || format!("kind {}: !.nlp {:?}", kind, t), |_| {
            let _ = std::fs::remove_file("nn_nlp0.db");
            match kind {
                0 => (),
                1 => { std::fs::write("nn_nlp0.db", b"").unwrap(); },
                2 => { std::fs::write("nn_nlp0.db", b"this is no database, but it is long enough to look like one. ".repeat(40)).unwrap(); },
                _ => { let c = rusqlite::Connection::open("nn_nlp0.db").unwrap(); c.execute("create table weights (id integer primary key AUTOINCREMENT, nnid integer not null, layer integer not null, neuronidx integer not null, valueid integer not null, value real not null)", []).unwrap(); },
            }
            let l = format!("!.nlp {}", t);
            let g = mc::explore::seq_world(1, move || { let mut nar = nar20_1::Nar::createNar(); let mut q = facade(&mut nar, &l); q |= facade(&mut nar, &l); q |= facade(&mut nar, "<a --> b>."); (tasks(&nar), q) })?;
            if g.1 { return Err("the session was ended".into()); }
            if g.0.len() != 1 { return Err(format!("the reasoner knows {:?}", g.0)); }
            Ok(())
        });
    } }
}

// ------------------------------------------------------------------------------------------ C29
struct Told { n: std::sync::Arc<std::sync::atomic::AtomicI64> }
impl nar20_1::NarWorkingCycle::QHandler for Told { fn answer(&mut self, _q: &nar20_1::Term::Term, _a: &nar20_1::NarSentence::Sentence) { self.n.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
/// the threads of the reasoner do their work as soon as they can
fn eager<T: Send + 'static>(salt: u64, f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    mc::explore::in_world(vpmc::WorldCfg{chooser: ChooserCfg{rng_salt: salt, ..ChooserCfg::default()}, max_steps: 20_000_000, workers_first: true, ..vpmc::WorldCfg::default()}, f).map(|v| v.0)
}
/// number of cycles before the cycle in which the first answer is given
fn cycles_of(nar: &nar20_1::Nar::Nar) -> i64 { nar.mem.read().shared.read().cycleCounter.load(std::sync::atomic::Ordering::SeqCst) as i64 }
fn eval_ref(lines: &[String]) -> (Option<i64>, i64) {
    let mut nar = nar20_1::Nar::createNar();
    for l in lines { if facade(&mut nar, l) { break; } }
    let n = std::sync::Arc::new(std::sync::atomic::AtomicI64::new(0));
    nar.mem.read().globalQaHandlers.write().push(std::sync::Arc::new(parking_lot::RwLock::new(Told{n: n.clone()})));
    for k in 0..180 { nar20_1::Nar::cycle(&mut nar); if n.load(std::sync::atomic::Ordering::SeqCst) > 0 { return (Some(k), cycles_of(&nar)); } }
    (None, cycles_of(&nar))
}
fn eval_imp(lines: &[String]) -> (Option<i64>, i64) {
    let mut nar = nar20_1::Nar::createNar();
    for l in lines { if facade(&mut nar, l) { break; } }
    let r = nar20_1::Eval::run(&mut nar);
    (r, cycles_of(&nar))
}
fn program_out(args: &[String]) -> Result<(Option<i32>, String), String> {
    let exe = std::env::current_exe().unwrap().parent().unwrap().join("nar20");
    let mut ch = std::process::Command::new(exe).args(args).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(|e| format!("engine: {}", e))?;
    let mut o = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || { let mut v = vec![]; let _ = std::io::Read::read_to_end(&mut o, &mut v); v });
    let t0 = std::time::Instant::now();
    let st = loop {
        if let Ok(Some(s)) = ch.try_wait() { break s; }
        mc::engine::alive();
        if t0.elapsed() > std::time::Duration::from_secs(100) { let _ = ch.kill(); let _ = ch.wait(); return Err("the program didn't end within 100 s".into()); }
        std::thread::sleep(std::time::Duration::from_micros(300));
    };
    Ok((st.code(), String::from_utf8_lossy(&rd.join().map_err(|_| "engine: reader")?).to_string()))
}
fn c29(ctx: &mut Ctx) {
    // programs: chains of knowledge with a question about the ends, the question in front of or behind the knowledge, useless knowledge
    let mut progs: Vec<(String, Vec<String>, bool)> = vec![]; // name, lines, can it be answered at all
    for n in 1..=4usize { for useless in [0usize, 1, 3] { for place in 0..3 { for kind in 0..3 {
        let mut l: Vec<String> = (0..n).map(|i| if kind == 1 { format!("<c{} <-> c{}>.", i, i + 1) } else { format!("<c{} --> c{}>.", i, i + 1) }).collect();
        for u in 0..useless { l.push(format!("<u{} --> v{}>.", u, u)); }
        let q = match kind { 0 => format!("<c0 --> c{}>?", n), 1 => format!("<c0 <-> c{}>?", n), _ => format!("<?1 --> c{}>?", n) };
        match place { 0 => l.insert(0, q), 1 => l.push(q), _ => l.insert(l.len() / 2, q) }
        progs.push((format!("chain {} useless {} question at {} kind {}", n, useless, place, kind), l, true));
    } } } }
    for n in [3usize, 5] { for useless in [12usize, 25] {
        let mut l: Vec<String> = (0..useless).map(|u| format!("<u{} --> v{}>.", u, u)).collect();
        l.extend((0..n).map(|i| format!("<c{} --> c{}>.", i, i + 1)));
        l.push(format!("<c0 --> c{}>?", n));
        progs.push((format!("long chain {} useless {}", n, useless), l, true));
    } }
    // complex knowledge is worked on late
    for useless in [40usize, 70, 110, 115, 120, 125, 130, 140, 200] { for w in [4usize, 6] {
        if useless > 110 && w != 4 { continue; }
        let t = |c: &str| format!("({})", (0..w).map(|i| format!("{}{}", c, i)).collect::<Vec<_>>().join("*"));
        let mut l: Vec<String> = (0..useless).map(|u| format!("<u{} --> v{}>.", u, u)).collect();
        l.push(format!("<{} --> {}>.", t("a"), t("b"))); l.push(format!("<{} --> {}>.", t("b"), t("c")));
        l.push(format!("<{} --> {}>?", t("a"), t("c")));
        progs.push((format!("late {} useless {}", w, useless), l, true));
    } }
    for (name, l) in [("empty", vec![]), ("no question", vec!["<a --> b>.", "<b --> c>."]), ("unrelated", vec!["<a --> b>.", "<x --> y>?"]), ("only a question", vec!["<x --> y>?"]), ("cycles in the program", vec!["<a --> b>.", "<a --> b>?", "!s5"]), ("quit in the program", vec!["<x --> y>?", "!QQ", "<x --> y>."])] {
        progs.push((name.to_string(), l.iter().map(|s| s.to_string()).collect(), name.starts_with("cycles")));
    }
    let salts = if ctx.thorough { 16 } else { 4 };
    for (name, l, can) in progs {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        ctx.case("evaluation", || format!("program {}: {:?}", name, l), |ctx| {
            let mut ok = 0;
            for salt in 0..(if name.starts_with("late") && !ctx.thorough { 1 } else { salts }) {
                let l2 = l.clone();
                let want = eager(salt, move || eval_ref(&l2))?;
                let l2 = l.clone();
                let got = eager(salt, move || eval_imp(&l2))?;
                if got != want { return Err(format!("salt {}: evaluated to {:?} after {} cycles, the answer came in {:?} after {} cycles", salt, got.0, got.1, want.0, want.1)); }
                let (got, want) = (got.0, want.0);
                if got.is_some() && !can { return Err(format!("salt {}: answered, but there is nothing to answer", salt)); }
                if let Some(k) = got { ok += 1; ctx.note(&format!("answers after {}0 cycles", k / 10), 1); }
                ctx.transitions += want.unwrap_or(180) as u64;
                ctx.state(&format!("{} {:?}", name, got));
            }
            ctx.note("programs with answers", (ok > 0) as u64);
            // a chain of inheritances is found in every case
            if ok == 0 && name.starts_with("chain") && !name.ends_with("kind 1") { return Err(format!("was never answered with {} salts", salts)); }
            Ok(())
        });
    }
    // the benchmark: a fresh reasoner for each file, results in the order of the files
    let dir = format!("{}/evidence/eval.{}.{}", std::env::var("VP_VERIF").unwrap_or("/verif".into()), ctx.shard, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let files: Vec<(&str, &str, bool)> = vec![("k", "<a --> b>.\n<b --> c>.\n", false), ("q", "<a --> b>?\n<a --> c>?\n", false), ("qq", "<a --> b>?\n!QQ\n<a --> b>.\n", false), ("kq", "<a --> b>.\n<x --> y>.\n<c --> d>.\n<b --> e>.\n<e --> c>.\n<a --> d>?\n", true), ("e", "", false), ("u", "<x --> y>.\n<a --> ?1>?\n", false)];
    for (n, t, _) in &files { std::fs::write(format!("{}/{}", dir, n), t).unwrap(); }
    let max = if ctx.thorough { 4 } else { 3 };
    for len in 0..=max { for code in 0..files.len().pow(len) {
        if ctx.stop() { break; }
        if !ctx.mine() { continue; }
        let ix: Vec<usize> = (0..len).map(|i| code / files.len().pow(i) % files.len()).collect();
        let runs = 1 + code % 3;
        ctx.case("benchmark", || format!("files {:?}, {} runs", ix.iter().map(|i| files[*i].1).collect::<Vec<_>>(), runs), |ctx| {
            let paths: Vec<String> = ix.iter().map(|i| format!("{}/{}", dir, files[*i].0)).collect();
            let mut a = vec!["bQA".to_string()]; a.extend(paths.clone());
            let (c, o) = program_out(&a)?;
            if c != Some(0) { return Err(format!("bQA ended with {:?}", c)); }
            let res: Vec<&str> = o.lines().filter(|l| *l == "None" || l.parse::<i64>().is_ok()).collect();
            let chk = |k: usize, r: &str| -> Result<Option<i64>, String> {
                let i = ix[k];
                if r == "None" { return Ok(None); }
                let v: i64 = r.parse().map_err(|_| format!("result {:?}", r))?;
                if v < 0 || v >= 180 { return Err(format!("result {}", v)); }
                if !files[i].2 { return Err(format!("file {} can't be answered, but the result is {}", k, v)); }
                Ok(Some(v))
            };
            if res.len() != ix.len() { return Err(format!("bQA gave {:?}", res)); }
            for (k, r) in res.iter().enumerate() { chk(k, r)?; }
            let mut a = vec!["bQA2".to_string(), runs.to_string()]; a.extend(paths);
            let (c, o) = program_out(&a)?;
            if c != Some(0) { return Err(format!("bQA2 ended with {:?}", c)); }
            let res: Vec<&str> = o.lines().filter_map(|l| l.strip_prefix("CYCLES ")).collect();
            if res.len() != ix.len() * runs { return Err(format!("bQA2 gave {:?}", res)); }
            let (mut sum, mut none) = (0.0, 0);
            for (k, r) in res.iter().enumerate() { match chk(k % ix.len().max(1), r)? { None => none += 1, Some(v) => sum += (-0.002 * v as f64).exp() } }
            let get = |p: &str| o.lines().find_map(|l| l.strip_prefix(p).and_then(|v| v.trim().parse::<f64>().ok()));
            let s = get("SCORE ").ok_or("no score")?;
            if !near(s, sum / runs as f64) { return Err(format!("score {} instead of {}", s, sum / runs as f64)); }
            if !ix.is_empty() {
                let u = get("H unanswered ratio ").ok_or("no ratio")?;
                if !near(u, none as f64 / res.len() as f64) { return Err(format!("ratio of unanswered questions {} instead of {}/{}", u, none, res.len())); }
            }
            ctx.transitions += 2;
            Ok(())
        });
    } }
    let _ = std::fs::remove_dir_all(&dir);
    // the examples which come with the reasoner
    let mut ex: Vec<std::path::PathBuf> = std::fs::read_dir("/repo/nalExp").map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    ex.sort();
    for f in ex {
        if ctx.stop() { return; }
        if !ctx.mine() { continue; }
        let l: Vec<String> = std::fs::read_to_string(&f).unwrap_or_default().lines().filter(|l| !l.starts_with("!.nlp")).map(|s| s.to_string()).collect();
        ctx.case("examples", || format!("example {:?}", f), |ctx| {
            let mut ok = 0;
            for salt in 0..(if ctx.thorough { 64 } else { 8 }) {
                let l2 = l.clone();
                let got = eager(salt, move || eval_imp(&l2))?;
                let l2 = l.clone();
                let want = eager(salt, move || eval_ref(&l2))?;
                if got != want { return Err(format!("salt {}: evaluated to {:?} after {} cycles, the answer came in {:?} after {} cycles", salt, got.0, got.1, want.0, want.1)); }
                if let Some(k) = got.0 { ok += 1; ctx.note(&format!("answers after {}0 cycles", k / 10), 1); }
                ctx.transitions += 1;
            }
            ctx.note(&format!("answered {}", f.file_name().unwrap().to_string_lossy()), ok);
            let known = ["EvalAsthma1.nal", "EvalShapeWorld2_1.nal", "EvalShapeWorldComplexSingle.nal", "ExCatBlueSky.nal", "ExDeductiveReasoning0.nal", "ExTimAnimalProd0.nal", "ExTomIsComputer1.nal"];
            if ok == 0 && known.contains(&&*f.file_name().unwrap().to_string_lossy()) { return Err("was never answered".into()); }
            Ok(())
        });
    }
}

fn main() {
    main_of(&[
        Check{id: "C24", rule: "every expression of depth 2 (thorough 3) over 11 leaves, activation functions at 428 places, neurons of every width with every marked value, networks of every shape with every marked parameter; value and derivative compared with the calculus", assumptions: &["expressions next to a singularity are not judged"], run: c24},
        Check{id: "C25", rule: "every state of the ball and the bat of four sizes of pong through one step, every draw of a new ball", assumptions: &[], run: c25},
        Check{id: "C26", rule: "every access, cut, box, circle and line of small images, every kernel size", assumptions: &["pixels exactly at the border of a line are not judged"], run: c26},
        Check{id: "C27", rule: "every history of images up to a length through both classifiers, step by step against a reference; all similarities of a grid", assumptions: &["ties may be resolved in any way"], run: c27},
        Check{id: "C28", rule: "every sequence of up to two actions (thorough three) of the network for sentences of every length up to 13 words, every known word at every place, every feedback of a action, sessions of two sentences through the command interface", assumptions: &["the networks are written by the check; training isn't covered"], run: c28},
        Check{id: "C29", rule: "programs with chains of knowledge of every length, place of the question, schedule salt; every list of up to 3 (thorough 4) files through the benchmark programs; the examples of the repository", assumptions: &["one schedule per salt"], run: c29},
    ]);
}
