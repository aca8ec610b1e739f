use vpmc::{run_world, ChooserCfg, Outcome, RunResult, Step, WorldCfg};
use crate::engine::{crumb, Ctx};

#[derive(Clone, Debug)]
pub struct ExploreCfg {
    pub world: WorldCfg,
    /// stop after this many executions (per process)
    pub cap: u64,
    /// explore everything in this process (the caller distributes the programs) instead of sharing the subtrees
    pub local: bool,
}
impl Default for ExploreCfg {
    fn default() -> Self { ExploreCfg{world: WorldCfg::default(), cap: 200_000, local: false} }
}

/// what happened to an execution apart from its result
pub fn trouble<T>(r: &RunResult<T>, allow_panic: bool) -> Option<String> {
    if let Some(d) = &r.chooser.diverged { return Some(format!("engine: replay diverged: {}", d)); }
    if r.stuck { return Some("engine: threads could not be torn down".into()); }
    match &r.outcome {
        Outcome::Deadlock(d) => return Some(format!("deadlock: {}", d)),
        Outcome::StepLimit => return Some("livelock: step limit exceeded".into()),
        Outcome::Completed => {}
    }
    if !allow_panic { if let Some((t, m)) = r.panics.first() { return Some(format!("thread {} panicked: {}", t, m)); } }
    None
}

pub fn steps_to_str(s: &[Step]) -> String {
    // equal choices in a row are counted
    let mut r: Vec<(String, usize)> = vec![];
    for v in s {
        let t = format!("{}/{}", v.chosen, v.n);
        match r.last_mut() { Some(l) if l.0 == t => l.1 += 1, _ => r.push((t, 1)) }
    }
    r.into_iter().map(|(t, k)| if k == 1 { t } else { format!("{}x{}", t, k) }).collect::<Vec<_>>().join(" ")
}

/// runs f in a controlled world with deterministic schedule and answers of the random generator
pub fn in_world<T: Send + 'static>(cfg: WorldCfg, f: impl FnOnce() -> T + Send + 'static) -> Result<(T, RunResult<()>), String> {
    let mut r = run_world(cfg, vec![], f);
    if let Some(t) = trouble(&r, false) { return Err(t); }
    match r.value.take() {
        Some(Ok(v)) => Ok((v, RunResult{value: None, outcome: r.outcome, panics: r.panics, chooser: r.chooser, steps: r.steps, switches: r.switches, threads: r.threads, stuck: r.stuck})),
        Some(Err(e)) => Err(format!("panic: {}", vpmc::world::panic_msg(&*e))),
        None => Err("execution did not finish".into())
    }
}

/// sequential execution (no schedule or random branching) with a own limit of steps
pub fn seq_world_n<T: Send + 'static>(salt: u64, max_steps: u64, f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    in_world(WorldCfg{chooser: ChooserCfg{rng_salt: salt, ..ChooserCfg::default()}, max_steps, ..WorldCfg::default()}, f).map(|v| v.0)
}

pub fn seq_world<T: Send + 'static>(salt: u64, f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    in_world(WorldCfg{chooser: ChooserCfg{rng_salt: salt, ..ChooserCfg::default()}, ..WorldCfg::default()}, f).map(|v| v.0)
}

/// Explores all executions of the body within the bounds of the configuration. The body returns
/// Ok(digest of the final state) or Err(violation).  Sharded: the subtrees of the root execution are
/// distributed over the processes.
pub fn explore(ctx: &mut Ctx, key: &str, name: &str, cfg: &ExploreCfg, mk: impl Fn() -> Box<dyn FnOnce() -> Result<String, String> + Send>) {
    if ctx.stop() { return; }
    if let Some(o) = &ctx.only { if !name.contains(o.as_str()) { return; } }
    let mut stack: Vec<Vec<Step>> = vec![vec![]];
    let mut root = true;
    let mut execs = 0u64;
    while let Some(prefix) = stack.pop() {
        if ctx.stop() { return; }
        if execs >= cfg.cap { ctx.capped = true; break; }
        crumb(&format!("{} schedule {}", name, steps_to_str(&prefix)));
        let count = !root || ctx.shard == 0 || cfg.local;
        let r = run_world(cfg.world.clone(), prefix.clone(), mk());
        execs += 1;
        let taken: Vec<Step> = r.chooser.recs.iter().map(|v| Step{n: v.n, chosen: v.chosen}).collect();
        let mut bad = trouble(&r, false);
        if bad.is_none() {
            match &r.value {
                Some(Ok(Ok(digest))) => {
                    if count { ctx.state(&format!("{}|{}", name, digest)); }
                },
                Some(Ok(Err(e))) => bad = Some(e.clone()),
                Some(Err(e)) => bad = Some(format!("panic: {}", vpmc::world::panic_msg(&**e))),
                None => bad = Some("execution did not finish".into()),
            }
        }
        if count {
            ctx.evaluations += 1;
            ctx.transitions += r.steps;
            if bad.is_none() { ctx.traces += 1; ctx.sample(|| format!("{}: schedule/draws [{}]", name, steps_to_str(&taken))); }
        }
        if let Some(b) = bad {
            if count { ctx.violate(key, format!("{}\n  choices (chosen/alternatives): {}\n  {}", name, steps_to_str(&taken), b)); }
            if b.starts_with("engine") { return; }
        }
        let kids = r.chooser.children();
        if root && !cfg.local {
            root = false;
            for (i, k) in kids.into_iter().enumerate() { if (i as u64) % ctx.nshards == ctx.shard { stack.push(k); } }
        } else { root = false; stack.extend(kids); }
    }
}

/// runs f with every sequence of answers of the random generator within the bounds of the configuration.
/// returns the results with their probability (the product of 1/alternatives)
pub fn all_draws<T>(cfg: &ChooserCfg, mut f: impl FnMut() -> T) -> Vec<(T, f64)> {
    let mut stack: Vec<Vec<Step>> = vec![vec![]];
    let mut res = vec![];
    while let Some(p) = stack.pop() {
        vpmc::rng::install(Some(vpmc::Chooser::new(cfg.clone(), p)));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        let ch = vpmc::rng::install(None).expect("chooser");
        match r {
            Ok(v) => res.push((v, ch.recs.iter().map(|r| 1.0 / r.n as f64).product())),
            Err(e) => std::panic::resume_unwind(e),
        }
        stack.extend(ch.children());
    }
    res
}

/// runs the body under every sequence of choices within the bounds, in this process
pub fn every<T: Send + 'static>(cfg: &WorldCfg, mk: impl Fn() -> Box<dyn FnOnce() -> Result<T, String> + Send>) -> Result<Vec<T>, String> {
    let mut stack: Vec<Vec<Step>> = vec![vec![]];
    let mut res = vec![];
    while let Some(p) = stack.pop() {
        let mut r = run_world(cfg.clone(), p, mk());
        let taken: Vec<Step> = r.chooser.recs.iter().map(|v| Step{n: v.n, chosen: v.chosen}).collect();
        let why = |t: String| format!("{} (choices {})", t, steps_to_str(&taken));
        if let Some(t) = trouble(&r, false) { return Err(why(t)); }
        match r.value.take() {
            Some(Ok(Ok(v))) => res.push(v),
            Some(Ok(Err(e))) => return Err(why(e)),
            Some(Err(e)) => return Err(why(format!("panic: {}", vpmc::world::panic_msg(&*e)))),
            None => return Err(why("execution did not finish".into())),
        }
        stack.extend(r.chooser.children());
    }
    Ok(res)
}
