//! Makes a failing scenario small, with every decision written out.

use crate::check::{Judge, Stats, Violation};
use crate::exec;
use crate::scenario::*;
use crate::shm::Shm;
use std::time::{Duration, Instant};

pub struct Shrinker {
    shm: &'static Shm,
    kind: String,
    end: Instant,
    pub tried: u64,
}

/// fixes all decisions of the run just made
pub fn explicit(sc: &Scenario, out: &exec::RunOut) -> Scenario {
    let mut e = sc.clone();
    e.sched = Sched::Explicit;
    e.switches = out.switches.clone();
    e.faults = out.faults.clone();
    e.fault_cfg = FaultCfg::default();
    e
}

pub fn eval(sc: &Scenario, shm: &'static Shm) -> (exec::RunOut, Option<Violation>) {
    let out = exec::run(sc, shm);
    let mut j = Judge::new(shm);
    j.solo = true;
    let v = j.judge(sc, &out, &mut Stats::default());
    (out, v)
}

impl Shrinker {
    pub fn new(shm: &'static Shm, kind: &str, limit: Duration) -> Shrinker {
        Shrinker { shm, kind: kind.into(), end: Instant::now() + limit, tried: 0 }
    }

    fn late(&self) -> bool {
        Instant::now() > self.end
    }

    fn bad(&mut self, sc: &Scenario) -> bool {
        self.tried += 1;
        match eval(sc, self.shm).1 {
            Some(v) => v.kind == self.kind,
            None => false,
        }
    }

    /// Still failing?  If not as it is: under other schedules (then with its decisions written out).
    fn again(&mut self, sc: &Scenario, orig: &Scenario, tries: u64) -> Option<Scenario> {
        if self.bad(sc) {
            return Some(sc.clone());
        }
        let mut s = sc.clone();
        if !s.switches.is_empty() {
            s.switches.clear();
            if self.bad(&s) {
                return Some(s);
            }
        }
        if orig.sched == Sched::Serial && orig.fault_cfg.p == 0.0 {
            return None;
        }
        let n = if sc.tasks.iter().filter(|t| !t.is_empty()).count() > 1 || orig.fault_cfg.p > 0.0 { tries } else { 0 };
        for i in 0..n {
            if self.late() {
                return None;
            }
            let mut s = sc.clone();
            s.sched = orig.sched.clone();
            s.fault_cfg = orig.fault_cfg.clone();
            if orig.fault_cfg.p > 0.0 {
                s.faults = orig.faults.clone();
            }
            s.run_seed = orig.run_seed.wrapping_add(i);
            self.tried += 1;
            let (out, v) = eval(&s, self.shm);
            if v.map_or(false, |v| v.kind == self.kind) {
                let e = explicit(&s, &out);
                if self.bad(&e) {
                    return Some(e);
                }
            }
        }
        None
    }

    /// removes as many elements as possible
    fn ddmin<T: Clone>(
        &mut self,
        cur: Scenario,
        orig: &Scenario,
        get: impl Fn(&Scenario) -> Vec<T>,
        set: impl Fn(&mut Scenario, Vec<T>),
        tries: u64,
    ) -> Scenario {
        let mut best = cur;
        let mut chunk = get(&best).len();
        while chunk > 0 {
            let mut i = 0;
            while i < get(&best).len() {
                if self.late() {
                    return best;
                }
                let mut v = get(&best);
                let e = (i + chunk).min(v.len());
                v.drain(i..e);
                let mut c = best.clone();
                set(&mut c, v);
                let r = if tries == 0 { if self.bad(&c) { Some(c) } else { None } } else { self.again(&c, orig, tries) };
                match r {
                    Some(c) => best = c,
                    None => i += chunk,
                }
            }
            chunk = if chunk == 1 { 0 } else { (chunk + 1) / 2 };
        }
        best
    }

    pub fn shrink(&mut self, orig: &Scenario) -> Option<Scenario> {
        let (out, v) = eval(orig, self.shm);
        if v.map_or(true, |v| v.kind != self.kind) {
            return None;
        }
        let mut best = explicit(orig, &out);
        best.alt_hash_seeds = orig.alt_hash_seeds.clone();
        best.alt_envs = orig.alt_envs.clone();
        if !self.bad(&best) {
            return None;
        }
        for round in 0..3 {
            let before = serde_json::to_string(&best).unwrap();
            let tries = if round == 0 { 6 } else { 25 };
            // the same operation, wherever it is done
            let name = |o: &Op| match o {
                Op::Mutate { steps } => match steps.first() {
                    Some(crate::vfs::Step::Write { path, .. }) => format!("{} {path}", steps.len()),
                    _ => String::new(),
                },
                Op::Barrier => String::new(),
                o => format!("{o:?}"),
            };
            let mut names: Vec<String> = best.tasks.iter().flatten().map(name).filter(|n| !n.is_empty()).collect();
            names.sort();
            names.dedup();
            if names.len() < 40 {
                for n in names {
                    if self.late() {
                        break;
                    }
                    let mut c = best.clone();
                    for t in &mut c.tasks {
                        t.retain(|o| name(o) != n);
                    }
                    if c != best && self.bad(&c) {
                        best = c;
                    }
                }
            }
            for t in 0..best.tasks.len() {
                if best.tasks[t].is_empty() {
                    continue;
                }
                best = self.ddmin(best, orig, |s| s.tasks[t].clone(), |s, v| s.tasks[t] = v, tries);
            }
            best = self.ddmin(best, orig, |s| s.faults.clone(), |s, v| s.faults = v, 0);
            best = self.ddmin(best, orig, |s| s.switches.clone(), |s, v| s.switches = v, 0);
            for t in 0..best.tasks.len() {
                for i in 0..best.tasks[t].len() {
                    if let Op::Mutate { steps } = &best.tasks[t][i] {
                        if steps.len() > 1 {
                            let get = |s: &Scenario| match &s.tasks[t][i] {
                                Op::Mutate { steps } => steps.clone(),
                                _ => vec![],
                            };
                            best = self.ddmin(best.clone(), orig, get, |s, v| s.tasks[t][i] = Op::Mutate { steps: v }, 2);
                        }
                    }
                }
            }
            best = self.ddmin(best, orig, |s| s.nodes.clone(), |s, v| s.nodes = v, 0);
            if best.alt_hash_seeds.len() > 1 {
                best = self.ddmin(best, orig, |s| s.alt_hash_seeds.clone(), |s, v| s.alt_hash_seeds = v, 0);
            }
            if best.alt_envs.len() > 1 {
                best = self.ddmin(best, orig, |s| s.alt_envs.clone(), |s, v| s.alt_envs = v, 0);
            }
            for i in 0..best.alt_envs.len() {
                best = self.ddmin(best, orig, |s| s.alt_envs[i].vars.clone(), |s, v| s.alt_envs[i].vars = v, 0);
                for k in 0..10 {
                    let mut c = best.clone();
                    let e = &mut c.alt_envs[i];
                    match k {
                        0 => e.cwd.clear(),
                        1 => e.cpus = 0,
                        2 => e.pid = 0,
                        3 => e.clock = 0,
                        4 => e.times = 0,
                        5 => e.any_var.clear(),
                        6 => e.mount.clear(),
                        7 => e.thread.clear(),
                        8 => e.exe.clear(),
                        _ => (e.ino_mul, e.ino_add, e.dev) = (0, 0, 0),
                    }
                    if c != best && self.bad(&c) {
                        best = c;
                    }
                }
            }
            if best.traced {
                let mut c = best.clone();
                c.traced = false;
                if let Some(c) = self.again(&c, orig, 0) {
                    best = c;
                }
            }
            if self.late() || before == serde_json::to_string(&best).unwrap() {
                break;
            }
        }
        // the decisions of the final run, exactly
        let (out, v) = eval(&best, self.shm);
        if v.map_or(false, |v| v.kind == self.kind) {
            let e = explicit(&best, &out);
            if self.bad(&e) {
                best = e;
            }
        }
        Some(best)
    }
}
