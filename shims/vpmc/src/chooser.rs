//! Recording / replaying of nondeterministic choices.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Sched, Rng, User }

/// one recorded choice point
#[derive(Clone, Copy, Debug)]
pub struct Rec {
    pub kind: Kind,
    pub n: u32,
    pub default: u32,
    pub chosen: u32,
    /// cost (deviation units of its kind) of choosing a non-default alternative
    pub cost: u32,
    /// may the explorer branch here at all?
    pub branch: bool,
    /// budgets of (sched, rng) used before this point
    pub used: (u32, u32),
}

/// one step of a replay prefix
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Step { pub n: u32, pub chosen: u32 }

#[derive(Clone, Debug)]
pub struct ChooserCfg {
    /// explore thread schedules?
    pub sched_branch: bool,
    /// preemption bound
    pub sched_bound: u32,
    /// number of random draws at the beginning which are enumerated
    pub rng_first: u32,
    /// maximal number of draws which deviate from the default answer
    pub rng_bound: u32,
    /// integer draws up to this range are enumerated completely, larger ones by {first,middle,last}
    pub rng_max_n: u64,
    /// salt of the default answers of the random generator
    pub rng_salt: u64,
    /// enumerate floats by the midpoints of so many equal intervals (0: def, 0.0, 0.5, 0.999999)
    pub float_grid: u32,
    /// enumerate only the draws of integers below exactly this number (0: all draws)
    pub rng_only: u64,
}
impl Default for ChooserCfg {
    fn default() -> Self {
        ChooserCfg{sched_branch:false, sched_bound:0, rng_first:0, rng_bound:0, rng_max_n:8, rng_salt:1, float_grid:0, rng_only:0}
    }
}

pub struct Chooser {
    pub cfg: ChooserCfg,
    pub prefix: Vec<Step>,
    pub recs: Vec<Rec>,
    pub used_sched: u32,
    pub used_rng: u32,
    pub draws: u64,
    pub draws_only: u64,
    pub diverged: Option<String>,
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Chooser {
    pub fn new(cfg: ChooserCfg, prefix: Vec<Step>) -> Chooser {
        Chooser{cfg, prefix, recs: vec![], used_sched:0, used_rng:0, draws:0, draws_only:0, diverged:None}
    }

    fn record(&mut self, kind: Kind, n: u32, default: u32, cost: u32, branch: bool) -> u32 {
        let i = self.recs.len();
        let chosen = if i < self.prefix.len() {
            let p = self.prefix[i];
            if p.n != n || p.chosen >= n {
                if self.diverged.is_none() {
                    self.diverged = Some(format!("choice {}: replay expected n={} chosen={}, execution has n={} kind={:?}", i, p.n, p.chosen, n, kind));
                }
                default
            } else { p.chosen }
        } else { default };
        self.recs.push(Rec{kind, n, default, chosen, cost, branch, used:(self.used_sched, self.used_rng)});
        if chosen != default {
            match kind { Kind::Sched => self.used_sched += cost, Kind::Rng => self.used_rng += cost, Kind::User => {} }
        }
        chosen
    }

    /// thread choice, option 0 is the default
    pub fn sched(&mut self, n: u32, cost: u32) -> u32 {
        if n <= 1 { return 0; }
        let b = self.cfg.sched_branch;
        self.record(Kind::Sched, n, 0, cost, b)
    }

    /// choice made by the harness
    pub fn user(&mut self, n: u32) -> u32 {
        if n <= 1 { return 0; }
        self.record(Kind::User, n, 0, 0, true)
    }

    pub fn rng_int(&mut self, n: u64) -> u64 {
        let d = self.draws;
        self.draws += 1;
        if n <= 1 { return 0; }
        let def = mix(d ^ self.cfg.rng_salt.wrapping_mul(0x5851F42D4C957F2D)) % n;
        let mut d = d;
        if self.cfg.rng_only > 0 {
            if n != self.cfg.rng_only { return def; }
            d = self.draws_only;
            self.draws_only += 1;
        }
        if d >= self.cfg.rng_first as u64 { return def; }
        if n <= self.cfg.rng_max_n {
            self.record(Kind::Rng, n as u32, def as u32, 1, true) as u64
        } else {
            let opts = [def, 0, n/2, n-1];
            opts[self.record(Kind::Rng, 4, 0, 1, true) as usize]
        }
    }

    /// value in [0;1)
    pub fn rng_float(&mut self) -> f64 {
        let d = self.draws;
        self.draws += 1;
        let def = (mix(d ^ self.cfg.rng_salt.wrapping_mul(0x5851F42D4C957F2D)) >> 11) as f64 / (1u64 << 53) as f64;
        if d >= self.cfg.rng_first as u64 || self.cfg.rng_only > 0 { return def; }
        let g = self.cfg.float_grid;
        if g > 0 {
            let v = self.record(Kind::Rng, g, (def * g as f64) as u32, 1, true);
            return (v as f64 + 0.5) / g as f64;
        }
        let opts = [def, 0.0, 0.5, 0.999999];
        opts[self.record(Kind::Rng, 4, 0, 1, true) as usize]
    }

    /// prefixes of the unexplored executions which branch off this one
    pub fn children(&self) -> Vec<Vec<Step>> {
        let mut res = vec![];
        for i in self.prefix.len()..self.recs.len() {
            let r = self.recs[i];
            if !r.branch { continue; }
            match r.kind {
                Kind::Sched => if r.used.0 + r.cost > self.cfg.sched_bound { continue; },
                Kind::Rng => if r.used.1 + r.cost > self.cfg.rng_bound { continue; },
                Kind::User => {}
            }
            for alt in 0..r.n {
                if alt == r.default { continue; }
                let mut p: Vec<Step> = self.recs[..i].iter().map(|v| Step{n:v.n, chosen:v.chosen}).collect();
                p.push(Step{n:r.n, chosen:alt});
                res.push(p);
            }
        }
        res
    }
}
