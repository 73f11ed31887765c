//! Scenarios: one generator per property.

use crate::rng::Rng;
use crate::scenario::*;
use crate::vfs::Step;
use crate::world::*;

pub const PROPS: [&str; 25] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25",
];

pub fn mix(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut x = h ^ idx.wrapping_mul(0xD1342543DE82EF95);
    crate::rng::splitmix(&mut x)
}

/// every fourth run uses the release build
pub fn profile_of(idx: u64) -> &'static str {
    if idx % 4 == 3 {
        "release"
    } else {
        "dev"
    }
}

/// how many runs, and after how many seconds to stop anyway
pub fn size(prop: &str, tier: &str) -> (u64, f64) {
    let quick = match prop {
        _ => 30_000,
    };
    if tier == "thorough" {
        (quick * 12, 800.0)
    } else {
        (quick, 240.0)
    }
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec![
        "threads switch at basic-block edges of nodejs_resolver and dashmap and at system calls; memory is sequentially consistent".to_string(),
        "each file operation is atomic on the tree; stat, open, read, realpath behave as on Linux".to_string(),
        "generated trees, options, requests and changes represent those of real use".to_string(),
    ];
    match prop {
        "C04" | "C05" => v.push("versions of a description file are a second or more apart in modification time (smaller forward steps are deliberately not noticed)".to_string()),
        "C06" | "C09" | "C12" | "C13" => v.push("a description file that replaces another has a modification time a second or more away from it".to_string()),
        _ => {}
    }
    v
}

struct G {
    w: World,
    r: Rng,
    resolvers: Vec<ROpts>,
    caches: usize,
    focus: Vec<usize>,
}

#[derive(Clone, Copy, PartialEq)]
enum Share {
    Own,
    Shared,
    Mixed,
}

impl G {
    fn new(prop: &str, seed: u64, idx: u64) -> G {
        let r = Rng::new(mix(seed, prop, idx));
        let mut g = G { w: World::new(r.sub(11)), r: r.sub(12), resolvers: vec![], caches: 0, focus: vec![] };
        let n = g.w.sites.len();
        let k = g.r.range(1, 2.min(n));
        g.focus = (0..k).map(|_| g.r.below(n)).collect();
        g
    }
    fn want_ts(&mut self) {
        while !self.w.tsconfig {
            let x = self.r.next();
            self.w = World::new(Rng::new(x));
            let n = self.w.sites.len();
            self.focus = vec![self.r.below(n)];
        }
    }
    fn resolvers(&mut self, n: usize, share: Share, plain: bool) {
        self.caches = match share {
            Share::Own => 0,
            Share::Shared => 1,
            Share::Mixed => self.r.range(1, 2),
        };
        let same = self.r.chance(0.25);
        for i in 0..n {
            let mut o = if i > 0 && (same || self.r.chance(0.3)) {
                self.resolvers[0].clone()
            } else {
                self.w.opts(plain)
            };
            // description files of two names: make it matter
            if self.w.alt_desc && i == 1 && self.r.chance(0.4) {
                let other = if self.resolvers[0].description_file.as_deref() == Some("pkg.json") { "package.json" } else { "pkg.json" };
                o.description_file = Some(other.to_string());
            }
            o.cache = match share {
                Share::Own => None,
                Share::Shared => Some(0),
                Share::Mixed => {
                    if self.r.chance(0.75) {
                        Some(self.r.below(self.caches))
                    } else {
                        None
                    }
                }
            };
            self.resolvers.push(o);
        }
    }
    fn res(&mut self) -> usize {
        self.r.below(self.resolvers.len())
    }
    /// a call, mostly about the description files in focus
    fn call(&mut self) -> Op {
        let r = self.res();
        if self.r.chance(0.7) {
            let k = *self.r.pick(&self.focus);
            let s = self.w.sites[k].clone();
            self.w.probe(r, &s)
        } else {
            self.w.call(r)
        }
    }
    fn ts_call(&mut self) -> Op {
        let r = self.res();
        let req = *self.r.pick(&["ts/a", "ts/a", "ts/d/x", "ts/d/x", "ts/x", "./a", "lib", "ts/missing", "x"]);
        let path = self.w.rng.pick(&self.w.starts.clone()).clone();
        Op::Resolve { r, path, req: req.to_string() }
    }
    /// a small set of calls that are asked again and again
    fn menu(&mut self, n: usize) -> Vec<Op> {
        (0..n).map(|_| self.call()).collect()
    }
    fn sched(&mut self) -> Sched {
        let p_fs = *self.r.pick(&[0.0, 0.05, 0.2, 0.5]);
        match self.r.below(8) {
            0 => Sched::Random { mean: 10.0, p_fs },
            1 => Sched::Random { mean: 60.0, p_fs },
            2 | 3 => Sched::Random { mean: 400.0, p_fs },
            4 => Sched::Random { mean: 3000.0, p_fs: 0.3 },
            5 => Sched::Random { mean: 1e9, p_fs: 0.3 },
            _ => {
                let k = self.r.range(1, 4);
                let horizon = *self.r.pick(&[1000, 4000, 12000]);
                Sched::Points { k, horizon, p_fs: 0.02 }
            }
        }
    }
    fn done(mut self, prop: &str, seed: u64, idx: u64, tasks: Vec<Vec<Op>>, sched: Sched) -> Scenario {
        Scenario {
            property: prop.into(),
            profile: profile_of(idx).into(),
            seed,
            index: idx,
            run_seed: self.r.next(),
            hash_seed: self.r.next(),
            cpus: 1,
            clock: self.w.first_clock,
            nodes: self.w.nodes,
            caches: self.caches,
            resolvers: self.resolvers,
            tasks,
            sched,
            fault_cfg: FaultCfg::default(),
            faults: vec![],
            switches: vec![],
            alt_hash_seeds: vec![],
            traced: false,
            env: Env::default(),
            alt_envs: vec![],
        }
    }

    fn desc_change(&mut self, torn: f64) -> Vec<Step> {
        let s = self.w.pick_site(&self.focus.clone());
        self.w.edit_desc(&s, torn)
    }
    fn desc_presence(&mut self) -> Vec<Step> {
        let s = self.w.pick_site(&self.focus.clone());
        if self.r.chance(0.08) {
            return self.w.shadow();
        }
        if self.r.chance(0.7) {
            self.w.move_desc(&s)
        } else {
            let k = self.r.below(self.w.pkgs.len());
            let d = self.w.pkgs[k].0.clone();
            if self.w.links.iter().any(|l| l.0 == d) {
                self.w.churn(&[])
            } else if self.r.chance(0.2) {
                self.w.move_dir("/w/app/src/d")
            } else {
                self.w.move_dir(&d)
            }
        }
    }
    fn any_change(&mut self, torn: f64) -> Vec<Step> {
        match self.r.below(10) {
            0..=2 => self.desc_change(torn),
            3..=5 => self.desc_presence(),
            6 if self.w.tsconfig => self.w.edit_ts(torn),
            _ => {
                let f = self.focus.clone();
                self.w.churn(&f)
            }
        }
    }
}

fn mutate(ops: &mut Vec<Op>, steps: Vec<Step>) {
    if !steps.is_empty() {
        ops.push(Op::Mutate { steps });
    }
}

type Change = fn(&mut G) -> Vec<Step>;
type Ask = fn(&mut G) -> Op;

/// one caller: calls and changes alternate
fn serial(g: &mut G, rounds: usize, change: Change, ask: Ask) -> Vec<Vec<Op>> {
    let n = g.r.range(2, 5);
    let menu: Vec<Op> = (0..n).map(|_| ask(g)).collect();
    let mut ops = vec![];
    for _ in 0..rounds {
        for _ in 0..g.r.range(1, 4) {
            let op = if g.r.chance(0.8) { menu[g.r.below(menu.len())].clone() } else { ask(g) };
            ops.push(op);
        }
        for _ in 0..g.r.range(1, 2) {
            let st = change(g);
            mutate(&mut ops, st);
        }
    }
    ops.extend(menu);
    for _ in 0..2 {
        ops.push(ask(g));
    }
    vec![ops]
}

/// several callers and one editor, in rounds; every round ends with everybody idle
fn rounds(g: &mut G, callers: usize, n: usize, change: Change, ask: Ask, one_step: bool) -> Vec<Vec<Op>> {
    let k = g.r.range(2, 4);
    let menu: Vec<Op> = (0..k).map(|_| ask(g)).collect();
    if g.r.chance(0.7) {
        g.w.aim(&menu);
    }
    let mut tasks: Vec<Vec<Op>> = vec![vec![]; callers + 1];
    let warm = g.r.chance(0.7);
    for round in 0..n {
        // now and then, everybody asks the same
        let same = if g.r.chance(0.25) { Some(menu[g.r.below(menu.len())].clone()) } else { None };
        for c in 0..callers {
            for _ in 0..g.r.range(1, 3) {
                let op = if let Some(x) = &same {
                    x.clone()
                } else if g.r.chance(0.8) { menu[g.r.below(menu.len())].clone() } else { ask(g) };
                tasks[c].push(op);
            }
        }
        if !(round == 0 && warm) {
            let times = if one_step { 1 } else { g.r.range(1, 2) };
            for _ in 0..times {
                let st = change(g);
                mutate(&mut tasks[callers], st);
            }
        }
        if g.r.chance(0.6) || one_step || round + 1 == n {
            for t in &mut tasks {
                t.push(Op::Barrier);
            }
        }
    }
    // afterwards, nothing changes any more
    for c in 0..callers {
        for op in menu.iter() {
            if g.r.chance(0.6) {
                tasks[c].push(op.clone());
            }
        }
    }
    tasks
}

fn callers_only(g: &mut G, callers: usize, per: (usize, usize)) -> Vec<Vec<Op>> {
    let k = g.r.range(1, 4);
    let menu = g.menu(k);
    (0..callers)
        .map(|_| {
            let n = g.r.range(per.0, per.1);
            (0..n)
                .map(|_| if g.r.chance(0.75) { menu[g.r.below(menu.len())].clone() } else { g.call() })
                .collect()
        })
        .collect()
}

impl G {
    fn upkeep(&mut self) -> Upkeep {
        let k = self.r.range(2, 4) as u64;
        *self.r.pick(&[
            Upkeep::Packages,
            Upkeep::Packages,
            Upkeep::Exports,
            Upkeep::Imports,
            Upkeep::All,
            Upkeep::All,
            Upkeep::Some(k),
            Upkeep::Gone,
            Upkeep::Walk,
            Upkeep::Show,
            Upkeep::Copy,
            Upkeep::Copy,
            Upkeep::Like,
            Upkeep::Empty,
        ])
    }
}

const HARD: &[i32] = &[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ELOOP, libc::ESTALE];

pub fn generate(prop: &str, seed: u64, idx: u64) -> Scenario {
    let mut sc = draw(prop, seed, idx);
    let mut r = Rng::new(mix(seed, prop, idx)).sub(13);
    if !matches!(prop, "C10" | "C11" | "C14" | "C15" | "C17" | "C19" | "C21" | "C22") && r.chance(if prop == "C01" { 0.05 } else { 0.025 }) {
        stutter(&mut sc, &mut r);
    }
    if !matches!(prop, "C10" | "C15" | "C21" | "C22") && r.chance(0.08) {
        // resolvers come and go, their cache may stay
        for _ in 0..r.range(1, 3) {
            let k = r.below(sc.resolvers.len());
            if prop == "C16" && sc.resolvers[k].cache.is_none() {
                continue;
            }
            let t = r.below(sc.tasks.len());
            let at = r.range(0, sc.tasks[t].len());
            sc.tasks[t].insert(at, Op::Renew { r: k });
        }
    }
    sc
}

/// some calls are made over and over: whatever counts calls, failures or sizes, counts
fn stutter(sc: &mut Scenario, r: &mut Rng) {
    let n = *r.pick(&[20, 70, 150, 300, 300, 600]);
    let t = r.below(sc.tasks.len());
    let calls: Vec<usize> = (0..sc.tasks[t].len()).filter(|&i| matches!(sc.tasks[t][i], Op::Resolve { .. } | Op::Side { .. })).collect();
    if calls.is_empty() {
        return;
    }
    let mut chosen: Vec<usize> = (0..r.range(1, 4)).map(|_| *r.pick(&calls)).collect();
    chosen.sort();
    chosen.dedup();
    let around = r.chance(0.4);
    if r.chance(0.4) {
        // all that was asked, again and again, then once more
        let all: Vec<Op> = calls.iter().map(|&j| sc.tasks[t][j].clone()).collect();
        let at = if r.chance(0.5) { sc.tasks[t].len() } else { calls[r.below(calls.len())] + 1 };
        let tail = sc.tasks[t].split_off(at);
        sc.tasks[t].extend(all.iter().cycle().take(1200).cloned());
        sc.tasks[t].extend(tail);
        return;
    }
    let mut total = 0;
    for &i in chosen.iter().rev() {
        let group: Vec<Op> = if around {
            // a few different ones in turn
            calls.iter().filter(|&&j| j <= i).rev().take(3).map(|&j| sc.tasks[t][j].clone()).collect()
        } else {
            vec![sc.tasks[t][i].clone()]
        };
        let many: Vec<Op> = group.iter().cycle().take(n).cloned().collect();
        total += n;
        let at = i + 1;
        let tail = sc.tasks[t].split_off(at);
        sc.tasks[t].extend(many);
        sc.tasks[t].extend(tail);
        if total >= 1200 {
            break;
        }
    }
}

/// other surroundings
fn elsewhere(r: &mut Rng, here: bool) -> Env {
    let mut e = Env::default();
    let all = [
        ("NODE_PATH", "/w/app/node_modules:/w:/w/other"),
        ("NODE_ENV", "production"),
        ("NODE_ENV", "development"),
        ("NODE_OPTIONS", "--preserve-symlinks --conditions=development"),
        ("NODE_PRESERVE_SYMLINKS", "1"),
        ("HOME", "/w/app"),
        ("HOME", "/w"),
        ("PWD", "/w/app/src"),
        ("INIT_CWD", "/w/other"),
        ("TMPDIR", "/w"),
        ("LANG", "tr_TR.UTF-8"),
        ("LC_ALL", "C"),
        ("RUST_LOG", "trace"),
        ("DEBUG", "*"),
        ("TS_NODE_PROJECT", "/w/app/tsconfig.json"),
        ("CI", "1"),
        ("npm_config_prefix", "/w/app"),
        ("npm_package_json", "/w/app/package.json"),
    ];
    let on = |r: &mut Rng| r.chance(0.45);
    if on(r) {
        for _ in 0..r.range(1, 4) {
            let (k, v) = *r.pick(&all);
            e.vars.push((k.into(), v.into()));
        }
    }
    if r.chance(0.3) {
        e.any_var = (*r.pick(&["1", "0", "true", "false", "/w/app", "/w/app/node_modules", "production", "node", ".ts", "tsconfig.json"])).into();
    }
    if !here && on(r) {
        e.cwd = (*r.pick(&["/w/app/src", "/", "/w", "/nowhere", "/w/app/node_modules/p1"])).into();
    }
    if r.chance(0.3) {
        e.thread = (*r.pick(&["main", "worker-", "tokio-runtime-worker", "1", "resolver"])).into();
    }
    if r.chance(0.3) {
        e.exe = (*r.pick(&["/w/app/node_modules/.bin/pack", "/usr/bin/node", "/w/node_modules/p1/bin/p1", "/w/app/pack"])).into();
    }
    if on(r) {
        e.cpus = *r.pick(&[2, 3, 8]);
    }
    if on(r) {
        e.pid = r.range(1, 100_000) as i32;
    }
    if on(r) {
        e.clock = *r.pick(&[1, -1, 86_400, -86_400, 2_000_000_000, -1_690_000_000, -1_700_000_100]) * 1_000_000_000 + r.below(1_000_000_000) as i64;
    }
    if on(r) {
        e.times = r.next() | 1;
    }
    if on(r) {
        (e.ino_mul, e.ino_add, e.dev) = (*r.pick(&[1, 3, u64::MAX, 1 << 32]), r.next() % 100_000, r.below(3) as u64);
    }
    if r.chance(0.3) {
        e.mount = (*r.pick(&["/w/app", "/w/app/node_modules", "/w/app/src", "/w/app/src/d", "/w/node_modules", "/w/app/node_modules/p1", "/w/store", "/w/packages", "/w/app/src/deep"])).into();
    }
    e
}

fn draw(prop: &str, seed: u64, idx: u64) -> Scenario {
    let mut g = G::new(prop, seed, idx);
    match prop {
        "C01" => {
            let n = g.r.range(1, 2);
            g.resolvers(n, Share::Own, false);
            let k = g.r.range(3, 6);
            let menu = g.menu(k);
            let n = g.r.range(6, 24);
            let mut ops: Vec<Op> =
                (0..n).map(|_| if g.r.chance(0.6) { menu[g.r.below(menu.len())].clone() } else { g.call() }).collect();
            if !g.w.crowd.is_empty() {
                let r = g.res();
                let mut c = g.w.crowd_calls(r);
                let again: Vec<Op> = (0..6).map(|_| g.r.pick(&c).clone()).collect();
                ops.append(&mut c);
                ops.extend(again);
                ops.extend(menu.iter().cloned());
            }
            if g.r.chance(0.3) {
                // a failing call in between
                let r = g.res();
                let i = g.r.below(ops.len());
                ops.insert(i, Op::Resolve { r, path: "/w/app/src".into(), req: "no-such/thing".into() });
            }
            // broken from the beginning, and never repaired
            if g.r.chance(0.2) {
                let s = g.w.pick_site(&g.focus.clone());
                let _ = g.w.garbage(&s.path());
                if g.w.cur.is_file(&s.path()) {
                    let data = g.w.cur.read(&s.path()).unwrap();
                    for n in &mut g.w.nodes {
                        if let Node::File { path, data: d, .. } = n {
                            if *path == s.path() {
                                *d = crate::vfs::Bytes(data.clone());
                            }
                        }
                    }
                }
            }
            g.done(prop, seed, idx, vec![ops], Sched::Serial)
        }
        "C02" => {
            g.resolvers(1, Share::Own, false);
            let c = g.r.range(2, 4);
            let mut t = callers_only(&mut g, c, (1, 5));
            if !g.w.crowd.is_empty() {
                for x in &mut t {
                    let mut k = g.w.crowd_calls(0);
                    k.truncate(30);
                    x.extend(k);
                }
            }
            let sched = g.sched();
            g.done(prop, seed, idx, t, sched)
        }
        "C03" => {
            let n = g.r.range(2, 3);
            let share = if g.r.chance(0.8) { Share::Shared } else { Share::Mixed };
            g.resolvers(n, share, false);
            let c = if g.r.chance(0.5) { 1 } else { g.r.range(2, 3) };
            let mut t = if c == 1 { callers_only(&mut g, 1, (8, 20)) } else { callers_only(&mut g, c, (2, 6)) };
            if g.r.chance(0.3) {
                // with an edit between two quiet periods
                let st = g.desc_change(0.0);
                for x in &mut t {
                    let i = g.r.range(0, x.len());
                    x.insert(i, Op::Barrier);
                    if c > 1 {
                        x.insert(i + 1, Op::Barrier);
                    }
                }
                if let Some(i) = t[0].iter().position(|o| *o == Op::Barrier) {
                    if !st.is_empty() {
                        t[0].insert(i + 1, Op::Mutate { steps: st });
                    }
                }
            }
            let sched = if c == 1 { Sched::Serial } else { g.sched() };
            g.done(prop, seed, idx, t, sched)
        }
        "C04" => {
            let n = g.r.range(1, 3);
            let share = *g.r.pick(&[Share::Own, Share::Shared, Share::Mixed]);
            g.resolvers(n, share, false);
            if g.r.chance(0.4) {
                let k = g.r.range(2, 5);
                let t = serial(&mut g, k, |g| g.desc_change(0.2), |g| g.call());
                g.done(prop, seed, idx, t, Sched::Serial)
            } else {
                let c = g.r.range(1, 3);
                let k = g.r.range(2, 3);
                let t = rounds(&mut g, c, k, |g| g.desc_change(0.45), |g| g.call(), false);
                let sched = g.sched();
                g.done(prop, seed, idx, t, sched)
            }
        }
        "C05" => {
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            g.w.times = Times::Odd;
            let change: Change = |g| {
                if g.r.chance(0.12) {
                    g.w.odd_clock()
                } else if g.r.chance(0.1) {
                    // only the time changes
                    let s = g.w.pick_site(&g.focus.clone());
                    let p = s.path();
                    if g.w.cur.is_file(&p) {
                        let m = g.w.next_mtime(&p);
                        let st = Step::Touch { path: p, mtime: m };
                        let mut c = 0;
                        let _ = g.w.cur.apply(&st, &mut c);
                        vec![st]
                    } else {
                        vec![]
                    }
                } else {
                    g.desc_change(0.05)
                }
            };
            if g.r.chance(0.65) {
                let k = g.r.range(3, 6);
                let t = serial(&mut g, k, change, |g| g.call());
                g.done(prop, seed, idx, t, Sched::Serial)
            } else {
                let c = 1 + g.r.weighted(&[8, 8, 3, 1]);
                let k = g.r.range(2, 3);
                let t = rounds(&mut g, c, k, change, |g| g.call(), false);
                let sched = g.sched();
                g.done(prop, seed, idx, t, sched)
            }
        }
        "C06" => {
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            let change: Change = |g| if g.r.chance(0.8) { g.desc_presence() } else { g.desc_change(0.1) };
            if g.r.chance(0.6) {
                let k = g.r.range(3, 6);
                let t = serial(&mut g, k, change, |g| g.call());
                g.done(prop, seed, idx, t, Sched::Serial)
            } else {
                let c = 1 + g.r.weighted(&[8, 8, 3, 1]);
                let k = g.r.range(2, 3);
                let t = rounds(&mut g, c, k, change, |g| g.call(), false);
                let sched = g.sched();
                g.done(prop, seed, idx, t, sched)
            }
        }
        "C07" => {
            g.want_ts();
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            for o in &mut g.resolvers {
                o.tsconfig = Some("/w/app/tsconfig.json".into());
            }
            let ask: Ask = |g| if g.r.chance(0.85) { g.ts_call() } else { g.call() };
            let change: Change = |g| if g.r.chance(0.9) { g.w.edit_ts(0.3) } else { g.any_change(0.1) };
            if g.r.chance(0.6) {
                let k = g.r.range(3, 6);
                let t = serial(&mut g, k, change, ask);
                g.done(prop, seed, idx, t, Sched::Serial)
            } else {
                let c = 1 + g.r.weighted(&[8, 8, 3, 1]);
                let k = g.r.range(2, 3);
                let t = rounds(&mut g, c, k, change, ask, false);
                let sched = g.sched();
                g.done(prop, seed, idx, t, sched)
            }
        }
        "C08" => {
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            let change: Change = |g| {
                let f = g.focus.clone();
                if g.r.chance(0.85) {
                    g.w.churn(&f)
                } else {
                    g.desc_presence()
                }
            };
            if g.r.chance(0.65) {
                let k = g.r.range(3, 7);
                let t = serial(&mut g, k, change, |g| g.call());
                g.done(prop, seed, idx, t, Sched::Serial)
            } else {
                let c = 1 + g.r.weighted(&[8, 8, 3, 1]);
                let k = g.r.range(2, 3);
                let t = rounds(&mut g, c, k, change, |g| g.call(), false);
                let sched = g.sched();
                g.done(prop, seed, idx, t, sched)
            }
        }
        "C09" => {
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            let c = g.r.range(1, 3);
            let k = g.r.range(2, 4);
            let menu = g.menu(k);
            let mut tasks = vec![];
            for t in 0..c {
                let mut ops: Vec<Op> = vec![];
                for _ in 0..g.r.range(2, 6) {
                    ops.push(menu[g.r.below(menu.len())].clone());
                }
                if t == 0 && g.r.chance(0.4) {
                    let st = g.any_change(0.0);
                    mutate(&mut ops, st);
                    for _ in 0..g.r.range(1, 3) {
                        ops.push(menu[g.r.below(menu.len())].clone());
                    }
                }
                ops.push(Op::Barrier);
                ops.push(Op::FaultsOff);
                for m in &menu {
                    ops.push(m.clone());
                }
                if g.r.chance(0.5) {
                    let st = if t == 0 { g.desc_change(0.0) } else { vec![] };
                    mutate(&mut ops, st);
                    for m in &menu {
                        ops.push(m.clone());
                    }
                }
                tasks.push(ops);
            }
            let sched = if c == 1 { Sched::Serial } else { g.sched() };
            let cfg = FaultCfg {
                p: *g.r.pick(&[0.01, 0.03, 0.1]),
                classes: match g.r.below(4) {
                    0 => vec![Class::Open, Class::Read],
                    1 => vec![Class::Stat],
                    2 => vec![Class::Realpath, Class::Open, Class::Fstat],
                    _ => vec![Class::Stat, Class::Open, Class::Read, Class::Fstat, Class::Realpath],
                },
                errnos: HARD.to_vec(),
                short: false,
                suffixes: if g.r.chance(0.4) { vec!["package.json".into(), "pkg.json".into()] } else { vec![] },
                max: *g.r.pick(&[1, 2, 5, 30]),
                burst: 0,
            };
            let mut sc = g.done(prop, seed, idx, tasks, sched);
            sc.fault_cfg = cfg;
            sc
        }
        "C10" => {
            if g.r.chance(0.4) {
                g.want_ts();
            }
            // one broken file is to have one name only
            if !g.w.hard.is_empty() {
                g.w.hard.clear();
                g.w.nodes.retain(|n| !matches!(n, Node::Hard { .. }));
                g.w.snapshot();
            }
            g.resolvers(1, Share::Own, true);
            let inject = g.r.chance(0.5);
            let o = &mut g.resolvers[0];
            if o.description_file.is_none() {
                o.description_file = Some("package.json".into());
            }
            if g.w.tsconfig {
                o.tsconfig = Some("/w/app/tsconfig.json".into());
                // no other mappings: they would be alternative candidates
                for n in &mut g.w.nodes {
                    if let Node::File { path, data, .. } = n {
                        if path.contains("tsconfig") {
                            let level = if path.contains("@cfg") { 2 } else if path.ends_with("tsconfig.json") { 0 } else if path.contains("base") { 1 } else { 3 };
                            let r = &mut g.r;
                            *data = match (level, r.below(5)) {
                                (0, 0) | (1, 3) => "{\"extends\":\"@cfg/ts/tsconfig.json\"}".into(),
                                (0, _) => "{\"extends\":\"./tsconfig.base.json\"}".into(),
                                (1, 4) => "{\"extends\":\"./tsconfig.root.json\"}".into(),
                                (2, 3) => "{\"extends\":\"../../../tsconfig.root.json\"}".into(),
                                (2, 4) => "{\"extends\":\"../../../tsconfig.root\",\"compilerOptions\":{}}".into(),
                                (_, 1) => "{\"compilerOptions\":{\"baseUrl\":\".\"}}".into(),
                                _ if inject => "{\"compilerOptions\":{\"baseUrl\":\"./src\"}}".into(),
                                // a mapping to where the request would need the same description files
                                _ => "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"other/*\":[\"/w/other/*\"]}}}".into(),
                            };
                        }
                    }
                }
                g.w.snapshot();
            }
            let ask: Ask = |g| if g.w.tsconfig && g.r.chance(0.3) { if g.r.chance(0.5) { Op::Resolve { r: 0, path: "/w/other".into(), req: g.r.pick(&["./o", "other/o", "other/o"]).to_string() } } else { Op::Resolve { r: 0, path: "/w/app/src".into(), req: "./a".into() } } } else { g.call() };
            if inject {
                // failing operations on an intact tree
                let n = g.r.range(3, 8);
                let mut ops: Vec<Op> = (0..n).map(|_| ask(&mut g)).collect();
                if g.r.chance(0.5) {
                    // whose description files are edited now and then
                    let menu = ops.clone();
                    ops = vec![];
                    for _ in 0..g.r.range(2, 4) {
                        for _ in 0..g.r.range(1, 3) {
                            ops.push(g.r.pick(&menu).clone());
                        }
                        let s = g.w.pick_site(&g.focus.clone());
                        let st = if g.w.cur.is_file(&s.path()) { g.w.edit_desc(&s, 0.0) } else { vec![] };
                        mutate(&mut ops, st);
                    }
                    ops.extend(menu);
                }
                let cfg = FaultCfg {
                    p: *g.r.pick(&[0.1, 0.3, 0.6]),
                    classes: vec![Class::Open, Class::Read],
                    errnos: HARD.to_vec(),
                    short: false,
                    suffixes: vec!["package.json".into(), "pkg.json".into(), "tsconfig.json".into(), "tsconfig.base.json".into(), "tsconfig.root.json".into()],
                    max: *g.r.pick(&[1, 1, 3]),
                    burst: 0,
                };
                let mut cfg = cfg;
                if g.w.tsconfig && g.r.chance(0.2) {
                    // it is there, even if that is hard to tell
                    cfg.classes = vec![Class::Stat, Class::Open, Class::Read];
                    cfg.suffixes = vec!["/w/app/tsconfig.json".into()];
                }
                let mut sc = g.done(prop, seed, idx, vec![ops], Sched::Serial);
                sc.fault_cfg = cfg;
                sc
            } else {
                // files that cannot be opened, or hold no configuration
                let change: Change = |g| {
                    let p = if g.w.tsconfig && g.r.chance(0.4) {
                        let k = g.r.below(g.w.ts_files.len());
                        g.w.ts_files[k].clone()
                    } else if g.r.chance(0.3) {
                        // of a package that others lead to
                        let k = g.r.below(g.w.pkgs.len());
                        let (d, _) = g.w.pkgs[k].clone();
                        match g.w.sites.iter().filter(|x| x.dir == d || d.ends_with(&format!("/{}", x.name))).next() {
                            Some(x) => x.path(),
                            None => g.w.pick_site(&g.focus.clone()).path(),
                        }
                    } else {
                        g.w.pick_site(&g.focus.clone()).path()
                    };
                    if !g.w.cur.is_file(&p) {
                        return vec![];
                    }
                    let ino = g.w.cur.lookup(p.as_bytes(), true).unwrap();
                    if g.w.cur.node(ino).deny {
                        let st = Step::Chmod { path: p, deny: false };
                        let mut c = 0;
                        let _ = g.w.cur.apply(&st, &mut c);
                        return vec![st];
                    }
                    match g.r.below(4) {
                        0 if !p.contains("tsconfig") && g.r.chance(0.5) => {
                            // a later version of other content, unreadable
                            let s = g.w.sites.iter().find(|s| s.path() == p).cloned();
                            let mut v = match s {
                                Some(s) => g.w.edit_desc(&s, 0.0),
                                None => return vec![],
                            };
                            let st = Step::Chmod { path: p, deny: true };
                            let mut c = 0;
                            let _ = g.w.cur.apply(&st, &mut c);
                            v.push(st);
                            v
                        }
                        0 => {
                            // a later, unreadable version
                            let m = g.w.next_mtime(&p);
                            let v = vec![Step::Touch { path: p.clone(), mtime: m }, Step::Chmod { path: p, deny: true }];
                            let mut c = 0;
                            for st in &v {
                                let _ = g.w.cur.apply(st, &mut c);
                            }
                            v
                        }
                        _ => g.w.garbage(&p),
                    }
                };
                let k = g.r.range(2, 4);
                let t = serial(&mut g, k, change, ask);
                g.done(prop, seed, idx, t, Sched::Serial)
            }
        }
        "C11" => {
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            let c = g.r.range(1, 3);
            let k = g.r.range(2, 6);
            let t = callers_only(&mut g, c, (1, k));
            let sched = if c == 1 { Sched::Serial } else { g.sched() };
            let cfg = FaultCfg {
                p: *g.r.pick(&[0.1, 0.5, 0.9]),
                classes: vec![Class::Open, Class::Read],
                errnos: if g.r.chance(0.8) { vec![libc::EINTR] } else { vec![] },
                short: g.r.chance(0.8),
                suffixes: vec![],
                max: 100_000,
                burst: g.r.range(1, 8) as u32,
            };
            let mut sc = g.done(prop, seed, idx, t, sched);
            sc.fault_cfg = cfg;
            sc
        }
        "C12" => {
            if g.r.chance(0.4) {
                g.want_ts();
            }
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            if g.w.tsconfig {
                g.resolvers[0].tsconfig = Some("/w/app/tsconfig.json".into());
            }
            let change: Change = |g| {
                if g.w.tsconfig && g.r.chance(0.4) {
                    let k = g.r.weighted(&[3, 2, 1, 1]);
                    let p = g.w.ts_files[k].clone();
                    if g.r.chance(0.65) {
                        g.w.corrupt(&p, false)
                    } else {
                        let t = g.w.ts_content(k);
                        g.w.put(&p, t, 0.2)
                    }
                } else {
                    let s = g.w.pick_site(&g.focus.clone());
                    if g.w.cur.is_file(&s.path()) && g.r.chance(0.65) {
                        g.w.corrupt(&s.path(), true)
                    } else {
                        g.w.edit_desc(&s, 0.2)
                    }
                }
            };
            let ask: Ask = |g| if g.w.tsconfig && g.r.chance(0.35) { g.ts_call() } else { g.call() };
            if g.r.chance(0.7) {
                let k = g.r.range(3, 6);
                let t = serial(&mut g, k, change, ask);
                g.done(prop, seed, idx, t, Sched::Serial)
            } else {
                let c = 1 + g.r.weighted(&[8, 8, 3, 1]);
                let k = g.r.range(2, 3);
                let t = rounds(&mut g, c, k, change, ask, false);
                let sched = g.sched();
                g.done(prop, seed, idx, t, sched)
            }
        }
        "C13" => {
            let n = g.r.range(1, 3);
            let share = *g.r.pick(&[Share::Own, Share::Shared, Share::Mixed]);
            g.resolvers(n, share, false);
            if g.r.chance(0.3) {
                g.w.times = Times::Odd;
            }
            let circular = g.r.chance(0.25);
            if circular && g.w.tsconfig {
                g.resolvers[0].tsconfig = Some("/w/app/tsconfig.json".into());
            }
            let looping: Change = |g| {
                let p = if g.w.tsconfig && g.r.chance(0.5) {
                    let k = g.r.weighted(&[3, 2, 1, 1]);
                    g.w.ts_files[k].clone()
                } else {
                    g.w.pick_site(&g.focus.clone()).path()
                };
                if g.w.cur.is_file(&p) { g.w.looping(&p) } else { vec![] }
            };
            let change: Change = |g| match g.r.below(12) {
                0 => g.w.odd_clock(),
                1 => {
                    let d = g.r.pick(&["/w/app/src", "/w/app/src/d", "/w/app/src/deep", "/w/app/node_modules", "/w/app/src/deep/e/f"]).to_string();
                    g.w.move_dir(&d)
                }
                2 => {
                    // even the project itself may go
                    g.w.move_dir("/w/app")
                }
                _ => g.any_change(0.2),
            };
            let c = g.r.range(1, 3);
            let k = g.r.range(2, 3);
            let ask: Ask = |g| if g.w.tsconfig && g.r.chance(0.2) { g.ts_call() } else { g.call() };
            let mut t = rounds(&mut g, c, k, if circular { looping } else { change }, ask, false);
            if g.r.chance(0.3) {
                // churn that never stops while the callers work
                let mut more = vec![];
                for _ in 0..g.r.range(2, 8) {
                    let st = change(&mut g);
                    mutate(&mut more, st);
                }
                t.push(more);
            }
            let sched = g.sched();
            let cfg = if g.r.chance(0.5) {
                FaultCfg {
                    p: *g.r.pick(&[0.02, 0.1, 0.5]),
                    classes: vec![Class::Stat, Class::Open, Class::Read, Class::Fstat, Class::Realpath],
                    errnos: HARD.to_vec(),
                    short: false,
                    suffixes: vec![],
                    max: *g.r.pick(&[3, 1000]),
                    burst: 0,
                }
            } else {
                FaultCfg::default()
            };
            let mut sc = g.done(prop, seed, idx, t, sched);
            sc.fault_cfg = cfg;
            sc
        }
        "C14" => {
            let n = g.r.range(1, 2);
            let share = if n == 1 { Share::Own } else { Share::Shared };
            g.resolvers(n, share, false);
            let many = g.r.chance(0.3);
            let c = if many { g.r.range(3, 6) } else { g.r.range(2, 3) };
            let k = g.r.range(1, 3);
            let menu = g.menu(k);
            let mut tasks: Vec<Vec<Op>> = vec![];
            // the victim: a call or two before, so that it may be warm or cold
            for t in 0..c {
                let mut ops = vec![];
                for _ in 0..g.r.range(1, 3) {
                    ops.push(menu[g.r.below(menu.len())].clone());
                }
                if t == 0 && g.r.chance(0.3) {
                    let st = g.desc_change(0.0);
                    mutate(&mut ops, st);
                    ops.push(menu[g.r.below(menu.len())].clone());
                }
                tasks.push(ops);
            }
            let sched = g.sched();
            let mut faults = vec![];
            if many {
                // several hang at once, one operation each
                let mut who: Vec<usize> = (0..c).collect();
                g.r.shuffle(&mut who);
                who.truncate(g.r.range(2, c - 1));
                let near = g.r.range(1, 40) as u32;
                for task in who {
                    let n = if g.r.chance(0.5) { near } else { g.r.range(1, 60) as u32 };
                    faults.push(Fault { task, n, kind: FaultKind::Stall });
                }
            } else {
                for _ in 0..g.r.range(1, 2) {
                    let task = if g.r.chance(0.8) { 0 } else { g.r.below(c) };
                    faults.push(Fault { task, n: g.r.range(1, 80) as u32, kind: FaultKind::Stall });
                }
            }
            let mut sc = g.done(prop, seed, idx, tasks, sched);
            sc.faults = faults;
            sc
        }
        "C15" => {
            if g.r.chance(0.5) {
                g.want_ts();
            }
            g.resolvers(1, Share::Own, false);
            if g.r.chance(0.6) {
                g.resolvers[0].browser_field = true;
            }
            if g.w.tsconfig {
                g.resolvers[0].tsconfig = Some("/w/app/tsconfig.json".into());
            }
            let k = g.r.range(6, 12);
            let mut ops: Vec<Op> = (0..k).map(|_| if g.w.tsconfig && g.r.chance(0.5) { g.ts_call() } else { g.call() }).collect();
            if g.r.chance(0.3) {
                let st = g.any_change(0.0);
                mutate(&mut ops, st);
                for _ in 0..3 {
                    ops.push(g.call());
                }
            }
            let alt = (0..4).map(|_| g.r.next()).collect();
            let mut sc = g.done(prop, seed, idx, vec![ops], Sched::Serial);
            sc.alt_hash_seeds = alt;
            sc
        }
        "C16" => {
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            let d = g.resolvers[0].description_file.clone();
            for o in &mut g.resolvers {
                // sharing a cache: one description file name
                if share == Share::Shared {
                    o.description_file = d.clone();
                }
            }
            if g.r.chance(0.15) {
                // times that are odd, but constant
                for n in &mut g.w.nodes {
                    if let Node::File { mtime, .. } = n {
                        *mtime = *g.r.pick(&[-5 * SEC, 0, NOW + 400_000_000 * SEC, BASE]);
                    }
                }
            }
            let c = if g.r.chance(0.5) { 1 } else { g.r.range(2, 3) };
            let mut t = if c == 1 { callers_only(&mut g, 1, (5, 16)) } else { callers_only(&mut g, c, (2, 5)) };
            if !g.w.crowd.is_empty() {
                let r = g.res();
                let crowd = g.w.crowd_calls(r);
                let again: Vec<Op> = (0..6).map(|_| g.r.pick(&crowd).clone()).collect();
                let old = t[0].clone();
                t[0].extend(crowd);
                t[0].extend(again);
                t[0].extend(old);
            }
            if g.r.chance(0.4) {
                // other files change
                let mut more = vec![];
                for _ in 0..g.r.range(1, 3) {
                    let f = g.focus.clone();
                    let st: Vec<Step> = g.w.churn(&f);
                    if g.r.chance(0.2) {
                        let st = g.w.odd_clock();
                        mutate(&mut more, st);
                    }
                    mutate(&mut more, st);
                }
                if c == 1 {
                    for m in more {
                        let i = g.r.below(t[0].len());
                        t[0].insert(i, m);
                    }
                } else {
                    t.push(more);
                }
            }
            let sched = if t.len() == 1 { Sched::Serial } else { g.sched() };
            g.done(prop, seed, idx, t, sched)
        }
        "C17" => {
            g.resolvers(1, Share::Own, false);
            let change: Change = |g| {
                let f = g.focus.clone();
                match g.r.below(8) {
                    0 => g.desc_presence(),
                    1 => g.desc_change(0.2),
                    _ => g.w.churn(&f),
                }
            };
            let c = g.r.range(1, 2);
            let k = g.r.range(2, 4);
            let t = rounds(
                &mut g,
                c,
                k,
                change,
                |g| {
                    let r = g.res();
                    let o = if g.r.chance(0.4) { g.w.call(r) } else { g.call() };
                    if let Op::Side { .. } = o { g.call() } else { o }
                },
                false,
            );
            let sched = g.sched();
            g.done(prop, seed, idx, t, sched)
        }
        "C18" => {
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            let c = g.r.range(1, 2);
            let k = g.r.range(1, 3);
            let t = rounds(&mut g, c, k, |g| g.any_change(0.3), |g| g.call(), false);
            let sched = if g.r.chance(0.4) { Sched::Serial } else { g.sched() };
            let cfg = FaultCfg {
                p: *g.r.pick(&[0.0, 0.03, 0.2]),
                classes: vec![Class::Stat, Class::Open, Class::Read, Class::Fstat, Class::Realpath],
                errnos: HARD.to_vec(),
                short: g.r.chance(0.3),
                suffixes: vec![],
                max: *g.r.pick(&[2, 1000]),
                burst: 2,
            };
            let mut sc = g.done(prop, seed, idx, t, sched);
            sc.fault_cfg = cfg;
            sc
        }
        "C19" => {
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            // one atomic change per round
            let change: Change = |g| {
                for _ in 0..6 {
                    let keep = g.w.clone();
                    let st = g.any_change(0.0);
                    if st.len() == 1 {
                        return st;
                    }
                    let rng = g.w.rng.clone();
                    g.w = keep;
                    g.w.rng = rng;
                }
                vec![]
            };
            let c = g.r.range(1, 2);
            let k = g.r.range(2, 4);
            let t = rounds(&mut g, c, k, change, |g| g.call(), true);
            let sched = g.sched();
            g.done(prop, seed, idx, t, sched)
        }
        // somebody listens; the rest is as for other properties
        "C20" => {
            let base = *g.r.pick(&["C01", "C01", "C02", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C19"]);
            let x = g.r.next();
            let mut sc = draw(base, x, idx);
            (sc.property, sc.seed, sc.index) = (prop.into(), seed, idx);
            sc.traced = true;
            if base == "C01" {
                sc.alt_envs = vec![Env::default()];
            }
            sc
        }
        // the host goes from directory to directory
        "C25" => {
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            if g.r.chance(0.15) {
                for o in &mut g.resolvers {
                    o.tsconfig = Some("tsconfig.json".into());
                }
            }
            let change: Change = |g| if g.r.chance(0.7) { g.w.chdir() } else { g.desc_change(0.1) };
            let ask: Ask = |g| {
                let mut op = g.call();
                if let Op::Resolve { path, .. } | Op::Side { path, .. } = &mut op {
                    if g.r.chance(0.85) {
                        *path = g.r.pick(&["lib", "lib", "./lib", "src", ".", ".", "", "..", "feat", "node_modules/p1", "node_modules/p1/lib", "./", "lib/a.js", "package.json", "../p1/lib"]).to_string();
                    }
                }
                op
            };
            if g.r.chance(0.6) {
                let k = g.r.range(2, 6);
                let t = serial(&mut g, k, change, ask);
                g.done(prop, seed, idx, t, Sched::Serial)
            } else {
                let c = g.r.range(1, 3);
                let k = g.r.range(2, 4);
                let t = rounds(&mut g, c, k, change, ask, true);
                let sched = g.sched();
                g.done(prop, seed, idx, t, sched)
            }
        }
        // the host looks after its cache meanwhile
        "C24" => {
            let base = *g.r.pick(&["C01", "C02", "C02", "C03", "C03", "C04", "C06", "C09", "C12"]);
            let x = g.r.next();
            let mut sc = draw(base, x, idx);
            (sc.property, sc.seed, sc.index) = (prop.into(), seed, idx);
            sc.caches = sc.caches.max(1);
            for o in &mut sc.resolvers {
                o.cache = o.cache.or(Some(g.r.below(sc.caches)));
            }
            let mut chores: Vec<Op> = vec![];
            let only = g.upkeep();
            let busy = sc.sched != Sched::Serial && g.r.chance(0.5);
            // (over and over: whatever a call has put there is gone when it looks again)
            let tireless = busy && g.r.chance(0.35);
            let only = if tireless { *g.r.pick(&[Upkeep::All, Upkeep::All, Upkeep::Exports, Upkeep::Packages, Upkeep::Imports]) } else { only };
            let count = if tireless { g.r.range(80, 250) } else if busy { g.r.range(15, 50) } else { g.r.range(1, 8) };
            for _ in 0..count {
                let what = if tireless && only == Upkeep::All || g.r.chance(0.6) { only } else { g.upkeep() };
                chores.push(Op::Upkeep { r: g.r.below(sc.resolvers.len()), what });
                if busy {
                    let n = g.r.range(1, 200) as u64;
                    chores.push(Op::Upkeep { r: 0, what: Upkeep::Idle(n) });
                }
            }
            if busy {
                if g.r.chance(0.5) {
                    let mean = *g.r.pick(&[3.0, 8.0, 20.0]);
                    sc.sched = Sched::Random { mean, p_fs: 0.1 };
                }
                sc.tasks.push(chores);
            } else {
                for o in chores {
                    let t = g.r.below(sc.tasks.len());
                    let at = g.r.range(0, sc.tasks[t].len());
                    sc.tasks[t].insert(at, o);
                }
            }
            sc
        }
        // the same, round by round
        "C21" | "C22" => {
            let work = prop == "C22";
            let callers = if work || g.r.chance(0.7) { 1 } else { 2 };
            let n = if g.r.chance(0.3) { g.r.range(2, 3) } else { 1 };
            let share = *g.r.pick(&[Share::Own, Share::Shared, Share::Mixed]);
            if work && g.w.crowd.is_empty() && g.r.chance(0.08) {
                let n = g.r.range(30, 120);
                g.w.make_crowd(n);
                g.w.snapshot();
            }
            g.resolvers(n, share, false);
            let long = !work && callers == 1 && g.r.chance(0.15);
            let k = if long { g.r.range(1, 3) } else { g.r.range(2, 6) };
            let menu: Vec<Op> = (0..k).map(|_| if g.w.tsconfig && g.r.chance(0.3) { g.ts_call() } else { g.call() }).collect();
            let mut tasks: Vec<Vec<Op>> = vec![vec![]; callers];
            if work && !g.w.crowd.is_empty() {
                // many others are asked about in between
                let r = g.res();
                let crowd = g.w.crowd_calls(r);
                for part in 0..2 {
                    for _ in 0..6 {
                        tasks[0].extend(menu.iter().cloned());
                        tasks[0].push(Op::Barrier);
                    }
                    if part == 0 {
                        tasks[0].extend(crowd.iter().cloned());
                    }
                }
                return g.done(prop, seed, idx, tasks, Sched::Serial);
            }
            // description files that switch between two contents
            let mut flips: Vec<(String, [String; 2])> = vec![];
            if !work && g.r.chance(0.4) {
                for _ in 0..g.r.range(1, 2) {
                    let s = g.w.pick_site(&g.focus.clone());
                    if g.w.cur.is_file(&s.path()) && !flips.iter().any(|f| f.0 == s.path()) {
                        flips.push((s.path(), [g.w.desc(&s.name, &s.dir), g.w.desc(&s.name, &s.dir)]));
                    }
                }
            }
            // one of them may be damaged
            for f in &mut flips {
                if g.r.chance(0.3) {
                    let mut n = f.1[1].len() / 2;
                    while !f.1[1].is_char_boundary(n) {
                        n -= 1;
                    }
                    f.1[1].truncate(n);
                }
            }
            // configuration that does so
            if !work && g.w.tsconfig && g.r.chance(0.3) {
                let k = g.r.below(2);
                let path = g.w.ts_files[k].clone();
                flips.push((path, [g.w.ts_content(k), g.w.ts_content(k)]));
            }
            // things that come and go
            let mut toggles: Vec<[Vec<Step>; 2]> = vec![];
            if !work && g.r.chance(0.3) {
                for _ in 0..g.r.range(1, 3) {
                    let (path, dir) = if g.r.chance(0.6) { (g.r.pick(&g.w.modules).clone(), false) } else { (g.w.pick_site(&g.focus.clone()).dir, true) };
                    if path == APP || path == "/w" || path == "/" || g.w.cur.lookup(path.as_bytes(), false).is_err() {
                        continue;
                    }
                    let there = |p: &str| format!("{p}.away");
                    let away = vec![Step::Rename { from: path.clone(), to: there(&path) }];
                    let back = vec![Step::Rename { from: there(&path), to: path.clone() }];
                    toggles.push(match g.r.below(3) {
                        0 => [vec![away[0].clone(), Step::Link { path: path.clone(), target: there(&path) }], vec![Step::Unlink { path: path.clone() }, back[0].clone()]],
                        1 if !dir => [vec![Step::Unlink { path: path.clone() }], vec![Step::Write { path, data: "//".into(), mtime: BASE }]],
                        _ => [away, back],
                    });
                }
            }
            // (in the past, or at times that are yet to come)
            let from = if g.r.chance(0.5) { g.w.first_clock } else { BASE + 1_000_000 * SEC };
            let renew = !work && g.r.chance(0.3);
            let faulty = g.r.chance(0.3);
            let rounds = if long { 240 } else { 40 };
            for i in 0..rounds {
                if callers > 1 {
                    for t in &mut tasks {
                        let mut m = menu.clone();
                        g.r.shuffle(&mut m);
                        t.extend(m);
                        t.push(Op::Barrier);
                    }
                } else {
                    tasks[0].extend(menu.iter().cloned());
                    tasks[0].push(Op::Barrier);
                }
                if faulty && i == if long { 10 } else { rounds / 2 - 6 } {
                    tasks[0].push(Op::FaultsOff);
                }
                if renew {
                    for r in 0..n {
                        tasks[0].push(Op::Renew { r });
                    }
                }
                for (path, data) in &flips {
                    let st = Step::Write { path: path.clone(), data: data[i % 2].as_str().into(), mtime: from + (i as i64 + 1) * 2 * SEC };
                    tasks[0].push(Op::Mutate { steps: vec![st] });
                }
                for t in &toggles {
                    tasks[0].push(Op::Mutate { steps: t[i % 2].clone() });
                }
                // how things stand, with nobody else at work
                tasks[0].push(menu[0].clone());
                for t in &mut tasks {
                    t.push(Op::Barrier);
                }
            }
            let sched = if callers > 1 { g.sched() } else { Sched::Serial };
            let cfg = FaultCfg {
                p: *g.r.pick(&[0.02, 0.1]),
                classes: vec![Class::Stat, Class::Open, Class::Read, Class::Realpath],
                errnos: HARD.to_vec(),
                short: false,
                suffixes: vec![],
                max: 1000,
                burst: 0,
            };
            let mut sc = g.done(prop, seed, idx, tasks, sched);
            if faulty {
                sc.fault_cfg = cfg;
            }
            sc
        }
        // the same, elsewhere
        "C23" => {
            let n = g.r.range(1, 2);
            let share = *g.r.pick(&[Share::Own, Share::Shared]);
            g.resolvers(n, share, false);
            let k = g.r.range(2, 5);
            let menu = g.menu(k);
            let n = g.r.range(5, 14);
            let mut ops: Vec<Op> =
                (0..n).map(|_| if g.r.chance(0.5) { menu[g.r.below(menu.len())].clone() } else if g.w.tsconfig && g.r.chance(0.3) { g.ts_call() } else { g.call() }).collect();
            if g.r.chance(0.2) {
                let r = g.r.below(g.resolvers.len());
                let at = g.r.below(ops.len());
                ops.insert(at, Op::Renew { r });
            }
            let here = ops.iter().any(|o| match o {
                Op::Resolve { path, .. } | Op::Side { path, .. } => !path.starts_with('/'),
                _ => false,
            });
            let envs = (0..3).map(|_| elsewhere(&mut g.r, here)).collect();
            let mut sc = g.done(prop, seed, idx, vec![ops], Sched::Serial);
            sc.alt_envs = envs;
            sc
        }
        _ => panic!("no generator for {prop}"),
    }
}
