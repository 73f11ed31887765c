//! Judges a recorded run.

use crate::exec::{self, RunOut, Truth};
use crate::scenario::*;
use crate::shm::Shm;
use crate::vfs::{Kind, Step, Vfs};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub text: String,
}

#[derive(Default, Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Stats {
    pub calls: u64,
    pub truths: u64,
    pub cache_hits: u64,
    pub changed_answers: u64,
    pub overlapped: u64,
    pub at_instant: u64,
    pub skipped: u64,
    #[serde(default)]
    pub out_of_scope: u64,
    pub faulted_calls: u64,
    pub preempted_calls: u64,
    pub errors: u64,
    pub ignored: u64,
    pub elsewhere: u64,
    pub config_failures: u64,
    pub solo: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.calls += o.calls;
        self.truths += o.truths;
        self.cache_hits += o.cache_hits;
        self.changed_answers += o.changed_answers;
        self.overlapped += o.overlapped;
        self.at_instant += o.at_instant;
        self.skipped += o.skipped;
        self.out_of_scope += o.out_of_scope;
        self.faulted_calls += o.faulted_calls;
        self.preempted_calls += o.preempted_calls;
        self.errors += o.errors;
        self.ignored += o.ignored;
        self.elsewhere += o.elsewhere;
        self.config_failures += o.config_failures;
        self.solo += o.solo;
    }
}

pub struct CallRec<'a> {
    pub t: usize,
    pub op_i: usize,
    pub op: &'a Op,
    pub r: usize,
    pub vs: u32,
    pub ve: u32,
    pub s_seq: u64,
    pub e_seq: u64,
    pub res: String,
    pub points: u64,
    pub live: i64,
    pub faults: Vec<(String, Class, i32)>,
    pub opens: Vec<String>,
    pub ops: u32,
    pub leaked: u32,
    pub switched: u32,
}

pub struct Judge {
    pub shm: &'static Shm,
    /// evaluate every reference answer in a process of its own
    pub solo: bool,
    pub audit: u64,
}

pub fn op_resolver(op: &Op) -> usize {
    match op {
        Op::Resolve { r, .. } | Op::Side { r, .. } => *r,
        _ => usize::MAX,
    }
}

pub fn show_op(op: &Op) -> String {
    match op {
        Op::Resolve { r, path, req } => format!("resolver {r}: resolve({path:?}, {req:?})"),
        Op::Side { r, path } => format!("resolver {r}: load_side_effects({path:?})"),
        o => format!("{o:?}"),
    }
}

type Key = (u32, usize, String);
fn key(v: u32, op: &Op) -> Key {
    let s = match op {
        Op::Resolve { path, req, .. } => format!("R{path}\0{req}"),
        Op::Side { path, .. } => format!("S{path}"),
        _ => unreachable!(),
    };
    (v, op_resolver(op), s)
}

struct Case<'a> {
    sc: &'a Scenario,
    versions: Vec<Vfs>,
    clocks: Vec<i64>,
    steps: Vec<Step>,
    calls: Vec<CallRec<'a>>,
    memo: HashMap<Key, Truth>,
}

fn is_config(sc: &Scenario, path: &str) -> bool {
    path.contains("tsconfig") && path.ends_with(".json")
        || sc.resolvers.iter().any(|r| r.description_file.as_ref().map_or(false, |d| path.ends_with(&format!("/{d}"))))
}

impl Judge {
    pub fn new(shm: &'static Shm) -> Judge {
        Judge { shm, solo: false, audit: 0 }
    }

    fn truths(&mut self, c: &mut Case, want: Vec<(u32, &Op)>, st: &mut Stats) {
        let mut todo: Vec<(Key, u32, &Op)> = vec![];
        let mut seen = HashSet::new();
        for (v, op) in want {
            let k = key(v, op);
            if !c.memo.contains_key(&k) && seen.insert(k.clone()) {
                todo.push((k, v, op));
            }
        }
        todo.sort_by(|a, b| a.1.cmp(&b.1));
        st.truths += todo.len() as u64;
        let mut i = 0;
        if !self.solo {
            while i < todo.len() {
                let qs: Vec<exec::Query> = todo[i..]
                    .iter()
                    .map(|(_, v, op)| exec::Query { vfs: &c.versions[*v as usize], clock: c.clocks[*v as usize], o: &c.sc.resolvers[op_resolver(op)], op, inject: vec![] })
                    .collect();
                let out = exec::fresh_batch(&qs, c.sc.hash_seed, self.shm);
                let n = out.len();
                // audit some of them in a process of their own
                self.audit += 1;
                let pick = if self.audit % 16 == 0 { Some((self.audit / 16) as usize % n) } else { None };
                for (j, t) in out.into_iter().enumerate() {
                    let (k, v, op) = &todo[i + j];
                    if pick == Some(j) {
                        let s = exec::fresh(
                            &c.versions[*v as usize],
                            c.clocks[*v as usize],
                            &c.sc.resolvers[op_resolver(op)],
                            op,
                            &[],
                            c.sc.hash_seed,
                            self.shm,
                        );
                        if s.res != t.res {
                            self.solo = true;
                        }
                    }
                    c.memo.insert(k.clone(), t);
                }
                i += n;
                if self.solo {
                    break;
                }
            }
        }
        if self.solo {
            // state survives from one resolver to the next in one process: one process each
            for (k, v, op) in &todo {
                st.solo += 1;
                let t = exec::fresh(
                    &c.versions[*v as usize],
                    c.clocks[*v as usize],
                    &c.sc.resolvers[op_resolver(op)],
                    op,
                    &[],
                    c.sc.hash_seed,
                    self.shm,
                );
                c.memo.insert(k.clone(), t);
            }
        }
    }

    fn case<'a>(sc: &'a Scenario, out: &RunOut) -> Case<'a> {
        let mut clock = sc.clock;
        let mut versions = vec![sc.vfs()];
        let mut clocks = vec![clock];
        let mut steps = vec![];
        let mut calls = vec![];
        let mut open: HashMap<usize, (u32, u64)> = HashMap::new();
        for e in &out.evs {
            match e {
                Ev::Start { t, ver, seq, .. } => {
                    open.insert(*t, (*ver, *seq));
                }
                Ev::End { t, op, ver, seq, res, faults, opens, ops, leaked, switched, points, live, .. } => {
                    let (vs, s_seq) = open.remove(t).unwrap();
                    let o = &sc.tasks[*t][*op];
                    calls.push(CallRec {
                        t: *t,
                        op_i: *op,
                        op: o,
                        r: op_resolver(o),
                        vs,
                        ve: *ver,
                        s_seq,
                        e_seq: *seq,
                        res: res.clone(),
                        points: *points,
                        live: *live,
                        faults: faults.clone(),
                        opens: opens.clone(),
                        ops: *ops,
                        leaked: *leaked,
                        switched: *switched,
                    });
                }
                Ev::Mut { t, op, step, .. } => {
                    if let Op::Mutate { steps: s } = &sc.tasks[*t][*op] {
                        let mut v = versions.last().unwrap().clone();
                        let _ = v.apply(&s[*step], &mut clock);
                        versions.push(v);
                        clocks.push(clock);
                        steps.push(s[*step].clone());
                    }
                }
                _ => {}
            }
        }
        Case { sc, versions, clocks, steps, calls, memo: HashMap::new() }
    }

    /// Is there an instant for each of the overlapping changes that explains the answer?
    fn explain(&mut self, c: &mut Case, i: usize, st: &mut Stats) -> Option<bool> {
        let (vs, ve, r, op, res) = {
            let x = &c.calls[i];
            (x.vs, x.ve, x.r, x.op, x.res.clone())
        };
        let k = (ve - vs) as usize;
        if k == 0 {
            return Some(false);
        }
        let steps: Vec<Step> = c.steps[vs as usize..ve as usize].to_vec();
        if k > 3 {
            return None;
        }
        let o = &c.sc.resolvers[r];
        let v = &c.versions[vs as usize];
        let clock = c.clocks[vs as usize];
        let n = (exec::fresh(v, clock, o, op, &[], c.sc.hash_seed, self.shm).ops
            + exec::fresh(&c.versions[ve as usize], clock, o, op, &[], c.sc.hash_seed, self.shm).ops)
            .max(10);
        // all non-decreasing tuples over 1..=n+1 (n+1: after the call)
        let mut all: Vec<Vec<u32>> = vec![vec![]];
        for _ in 0..k {
            all = all
                .into_iter()
                .flat_map(|t| {
                    let lo = t.last().copied().unwrap_or(1);
                    (lo..=n + 1).map(move |p| {
                        let mut t = t.clone();
                        t.push(p);
                        t
                    })
                })
                .collect();
            if all.len() > 6000 {
                return None;
            }
        }
        for part in all.chunks(if self.solo { 1 } else { 64 }) {
            let qs: Vec<exec::Query> = part
                .iter()
                .map(|pos| exec::Query {
                    vfs: v,
                    clock,
                    o,
                    op,
                    inject: pos.iter().copied().zip(steps.iter().cloned()).collect(),
                })
                .collect();
            let mut i = 0;
            while i < qs.len() {
                let out = exec::fresh_batch(&qs[i..], c.sc.hash_seed, self.shm);
                i += out.len();
                st.at_instant += out.len() as u64;
                if out.iter().any(|t| t.res == res) {
                    return Some(true);
                }
            }
        }
        Some(false)
    }

    fn describe(c: &Case, i: usize, want: &str) -> String {
        let x = &c.calls[i];
        format!(
            "task {} call {} {} answered {:?}, but {}{}",
            x.t,
            x.op_i,
            show_op(x.op),
            x.res,
            want,
            if x.faults.is_empty() { String::new() } else { format!(" (failures injected into it: {:?})", x.faults) }
        )
    }

    pub fn judge(&mut self, sc: &Scenario, out: &RunOut, st: &mut Stats) -> Option<Violation> {
        let prop = sc.property.as_str();
        let mut c = Self::case(sc, out);
        st.calls += c.calls.len() as u64;
        let v = |kind: &str, text: String| Some(Violation { kind: kind.into(), text });
        for x in &c.calls {
            st.preempted_calls += (x.switched > 0) as u64;
            st.faulted_calls += (!x.faults.is_empty()) as u64;
            st.overlapped += (x.ve > x.vs) as u64;
            st.errors += x.res.starts_with('E') as u64;
            st.ignored += (x.res == "G") as u64;
        }

        // ---- what the simulator itself noticed
        let mut kviol = vec![];
        for e in &out.evs {
            if let Ev::Viol { kind, text } = e {
                kviol.push((kind.clone(), text.clone()));
            }
        }
        if let Some((_, t)) = kviol.iter().find(|k| k.0 == "harness") {
            return v("harness", t.clone());
        }
        if kviol.iter().any(|k| k.0 == "long") {
            // no call of it takes too much, all of them together do
            st.skipped += 1;
            return None;
        }
        let unanswered = !matches!(prop, "C10" | "C14" | "C15" | "C16" | "C17" | "C18");
        if unanswered {
            if let Some(d) = &out.died {
                // which call?
                return v("died", format!("the process was {d}"));
            }
            if let Some((k, t)) = kviol.iter().find(|k| k.0 == "deadlock" || k.0 == "livelock") {
                return v(k, t.clone());
            }
        }
        match prop {
            "C14" => {
                if let Some((k, t)) = kviol.iter().find(|k| k.0 == "held-up" || k.0 == "deadlock") {
                    return v(k, t.clone());
                }
                // (anything else that goes wrong in it is not this property's)
                if out.died.is_some() || !kviol.is_empty() {
                    return None;
                }
            }
            "C18" => {
                if let Some((k, t)) = kviol.iter().find(|k| k.0 == "write" || k.0 == "after") {
                    return v(k, t.clone());
                }
                for (i, x) in c.calls.iter().enumerate() {
                    if x.leaked > 0 {
                        return v("leak", Self::describe(&c, i, &format!("left {} file descriptor(s) open", x.leaked)));
                    }
                    if let Some(f) = x.opens.iter().find(|f| !Self::configuration(&sc.resolvers[x.r], f)) {
                        return v("pry", Self::describe(&c, i, &format!("opened {f}, which is no configuration file")));
                    }
                }
                return None;
            }
            "C13" => {
                for (i, x) in c.calls.iter().enumerate() {
                    // (more for those who ask from very far down)
                    let far = match x.op {
                        Op::Resolve { path, req, .. } => path.matches('/').count() + req.matches('/').count(),
                        Op::Side { path, .. } => path.matches('/').count(),
                        _ => 0,
                    };
                    // (a chain of `extends` may get 64 long, and its paths longer with every link)
                    let chain = if sc.resolvers[op_resolver(x.op)].tsconfig.is_some() { 25_000 } else { 0 };
                    if x.ops as usize > 5000 + chain + 200 * far {
                        return v("livelock", Self::describe(&c, i, &format!("it took {} file operations", x.ops)));
                    }
                }
                return None;
            }
            "C16" => return self.reopened(&c),
            "C17" => return Self::really_there(&c).or_else(|| self.at_any_instant(&mut c, st)),
            "C10" => return self.reported(&mut c, st),
            _ => {}
        }

        match prop {
            "C21" => return Self::grows(&c),
            "C22" => return self.dearer(&mut c, st),
            "C23" => return self.elsewhere(&c, st),
            "C20" if !sc.alt_envs.is_empty() => {
                if let Some(x) = self.unheard(&c) {
                    return Some(x);
                }
            }
            _ => {}
        }
        if prop == "C15" {
            return self.same_everywhere(&c);
        }

        // ---- answers
        let invisible = prop == "C11";
        let mut want = vec![];
        for x in &c.calls {
            if !x.faults.is_empty() && !invisible {
                continue;
            }
            for ver in x.vs..=x.ve {
                want.push((ver, x.op));
            }
        }
        self.truths(&mut c, want, st);
        // how much of the history mattered
        let mut by_call: BTreeMap<(usize, String), HashSet<String>> = BTreeMap::new();
        for (k, t) in &c.memo {
            by_call.entry((k.1, k.2.clone())).or_default().insert(t.res.clone());
        }
        st.changed_answers += by_call.values().filter(|s| s.len() > 1).count() as u64;
        let mut mixed = vec![];
        for i in 0..c.calls.len() {
            let x = &c.calls[i];
            if x.res.starts_with("P|") && matches!(prop, "C12" | "C02" | "C05" | "C13" | "C20") {
                return v("panic", Self::describe(&c, i, "a call must not panic"));
            }
            if !x.faults.is_empty() && !invisible {
                if x.res.starts_with("P|") {
                    return v("panic", Self::describe(&c, i, "a call must not panic"));
                }
                continue;
            }
            let t = &c.memo[&key(x.vs, x.op)];
            if t.opens.len() > x.opens.len() {
                st.cache_hits += 1;
            }
            let ok = (x.vs..=x.ve).any(|ver| c.memo[&key(ver, x.op)].res == x.res);
            if ok {
                continue;
            }
            if x.ve == x.vs {
                if !Self::in_scope(&c) {
                    st.out_of_scope += 1;
                    return None;
                }
                let want = format!("a fresh resolver answers {:?}", t.res);
                return v("answer", Self::describe(&c, i, &want));
            }
            mixed.push(i);
        }
        for i in mixed {
            match self.explain(&mut c, i, st) {
                Some(true) => {}
                None => st.skipped += 1,
                Some(false) if !Self::in_scope(&c) => {
                    st.out_of_scope += 1;
                    return None;
                }
                Some(false) => {
                    let x = &c.calls[i];
                    let all: Vec<&str> = (x.vs..=x.ve).map(|ver| c.memo[&key(ver, x.op)].res.as_str()).collect();
                    let want = format!(
                        "a fresh resolver answers one of {all:?} before and after the overlapping changes, and nothing else fits any instant for them"
                    );
                    return v("mixture", Self::describe(&c, i, &want));
                }
            }
        }
        None
    }

    /// Two usable versions of a description file, seen under the same path, whose modification times
    /// are equal or less than a second forward of one another: the answers may lag (as documented),
    /// so staleness is not judged in such a history.  Generators avoid them; shrinking may not.
    fn in_scope(c: &Case) -> bool {
        let mut paths: HashSet<&str> = HashSet::new();
        let names: HashSet<&str> = c.sc.resolvers.iter().filter_map(|r| r.description_file.as_deref()).collect();
        for o in c.memo.values().flat_map(|t| t.opens.iter()).chain(c.calls.iter().flat_map(|x| x.opens.iter())) {
            if names.contains(o.rsplit('/').next().unwrap_or("")) {
                paths.insert(o);
            }
        }
        for p in paths {
            if !p.starts_with('/') && c.sc.property == "C25" {
                continue;
            }
            let mut seen: Vec<(Vec<u8>, i64)> = vec![];
            for v in &c.versions {
                let ino = match v.lookup(p.as_bytes(), true) {
                    Ok(i) => i,
                    Err(_) => continue,
                };
                let n = v.node(ino);
                let d = match &n.kind {
                    Kind::File(d) => d.to_vec(),
                    _ => continue,
                };
                if seen.last().map_or(false, |l| l.0 == d && l.1 == n.mtime) || serde_json::from_slice::<serde_json::Value>(&d).is_err() {
                    continue;
                }
                if seen.iter().any(|(d0, m0)| *d0 != d && n.mtime >= *m0 && n.mtime - m0 < 1_000_000_000) {
                    return false;
                }
                seen.push((d, n.mtime));
            }
        }
        true
    }

    /// C15
    fn same_everywhere(&mut self, c: &Case) -> Option<Violation> {
        for hs in &c.sc.alt_hash_seeds {
            let mut alt = c.sc.clone();
            alt.hash_seed = *hs;
            let o2 = exec::run(&alt, self.shm);
            let c2 = Self::case(&alt, &o2);
            for (i, (a, b)) in c.calls.iter().zip(c2.calls.iter()).enumerate() {
                if a.res != b.res {
                    let want = format!("under another hash seed ({hs}) the same history gives {:?}", b.res);
                    return Some(Violation { kind: "hash".into(), text: Self::describe(c, i, &want) });
                }
            }
        }
        None
    }

    /// C23
    fn elsewhere(&mut self, c: &Case, st: &mut Stats) -> Option<Violation> {
        for e in &c.sc.alt_envs {
            let mut alt = c.sc.clone();
            alt.env = e.clone();
            let o2 = exec::run(&alt, self.shm);
            st.elsewhere += 1;
            let c2 = Self::case(&alt, &o2);
            for (i, (a, b)) in c.calls.iter().zip(c2.calls.iter()).enumerate() {
                if a.res != b.res {
                    let want = format!("with {e:?} around it the same history gives {:?}", b.res);
                    return Some(Violation { kind: "surroundings".into(), text: Self::describe(c, i, &want) });
                }
            }
            let long = o2.evs.iter().any(|e| matches!(e, Ev::Viol { kind, .. } if kind == "long"));
            if c2.calls.len() != c.calls.len() && !long {
                let text = format!("with {e:?} around it only {} of {} calls return", c2.calls.len(), c.calls.len());
                return Some(Violation { kind: "surroundings".into(), text });
            }
        }
        None
    }

    /// C20: with nobody listening, the same is done
    fn unheard(&mut self, c: &Case) -> Option<Violation> {
        let mut alt = c.sc.clone();
        alt.traced = false;
        let o2 = exec::run(&alt, self.shm);
        let c2 = Self::case(&alt, &o2);
        for (i, (a, b)) in c.calls.iter().zip(c2.calls.iter()).enumerate() {
            if a.res != b.res || a.ops != b.ops || a.opens != b.opens {
                let want = format!("with nobody listening {:?}, {} instead of {} file operations", b.res, b.ops, a.ops);
                return Some(Violation { kind: "heard".into(), text: Self::describe(c, i, &want) });
            }
        }
        None
    }

    /// the calls that end a round, one of each: by position in the round
    fn rounds<'b>(c: &'b Case) -> Vec<Vec<&'b CallRec<'b>>> {
        let ops = &c.sc.tasks[0];
        let mut rounds: Vec<Vec<&CallRec>> = vec![];
        let mut mine = c.calls.iter().filter(|x| x.t == 0).peekable();
        let mut cur = vec![];
        for (i, op) in ops.iter().enumerate() {
            if let Op::Barrier = op {
                rounds.push(std::mem::take(&mut cur));
                continue;
            }
            while mine.peek().map_or(false, |x| x.op_i <= i) {
                let x = mine.next().unwrap();
                if x.op_i == i {
                    cur.push(x);
                }
            }
        }
        rounds
    }

    /// do all rounds consist of the same kinds of operations, for every caller?
    fn alike(c: &Case) -> bool {
        c.sc.tasks.iter().all(|ops| {
            let mut seen: Vec<Vec<String>> = vec![];
            for part in ops.split(|o| matches!(o, Op::Barrier)) {
                let mut v: Vec<String> = part
                    .iter()
                    .filter_map(|o| match o {
                        Op::Resolve { .. } | Op::Side { .. } | Op::Renew { .. } => Some(format!("{o:?}")),
                        Op::Mutate { steps } => Some(format!("{}", steps.len())),
                        _ => None,
                    })
                    .collect();
                v.sort();
                seen.push(v);
            }
            seen.pop();
            seen.iter().step_by(2).all(|v| *v == seen[0]) && seen.iter().skip(1).step_by(2).all(|v| *v == seen[1])
        })
    }

    /// C21
    fn grows(c: &Case) -> Option<Violation> {
        // every round is two barriers long, every second round is alike
        let rounds = Self::rounds(c);
        let ends: Vec<&CallRec> = rounds.iter().skip(1).step_by(4).filter_map(|r| r.last().copied()).collect();
        if ends.len() < 16 {
            return None;
        }
        // (they are as they were generated; of what was left out in one of them when a scenario was
        // made smaller, it should be left out in all)
        if !Self::alike(c) {
            return None;
        }
        // something may be kept in a list that doubles when it is full: in a long run of one caller,
        // where nothing changes after a while, two such moments are enough
        let long = ends.len() > 100;
        let last = if long { &ends[ends.len() / 5..] } else { &ends[ends.len() - 13..] };
        let up = last.windows(2).filter(|w| w[1].live > w[0].live).count();
        if up >= (if long { 2 } else { 4 }) && last.windows(2).all(|w| w[1].live >= w[0].live) {
            let l: Vec<i64> = last.iter().map(|x| x.live).collect();
            return Some(Violation {
                kind: "grows".into(),
                text: format!("memory held after each second round of the same calls ({}...) keeps growing: {l:?} bytes", show_op(last[0].op)),
            });
        }
        None
    }

    /// C22
    fn dearer(&mut self, c: &mut Case, st: &mut Stats) -> Option<Violation> {
        // caches only save work
        let want = c.calls.iter().filter(|x| x.faults.is_empty()).map(|x| (0, x.op)).collect();
        self.truths(c, want, st);
        for (i, x) in c.calls.iter().enumerate() {
            if x.faults.is_empty() {
                let t = &c.memo[&key(0, x.op)];
                if x.ops > t.ops && t.ops > 0 {
                    let want = format!("it took {} file operations, and {} on a brand-new resolver", x.ops, t.ops);
                    return Some(Violation { kind: "operations".into(), text: Self::describe(c, i, &want) });
                }
            }
        }
        let rounds = Self::rounds(c);
        let has_crowd = rounds.len() == 12;
        if has_crowd {
            let n = rounds[0].len();
            for k in 0..n {
                let at = |r: usize| {
                    let v = &rounds[r];
                    v.get(v.len().wrapping_sub(n - k)).map(|x| x.points)
                };
                let before = (1..6).filter_map(at).max();
                let after = (7..12).filter_map(at).min();
                if let (Some(b), Some(a)) = (before, after) {
                    if a > b + b * 3 / 10 + 400 {
                        return Some(Violation {
                            kind: "steps".into(),
                            text: format!("{}: at most {b} steps before other packages were asked about, at least {a} after", show_op(rounds[0][k].op)),
                        });
                    }
                }
            }
            return None;
        }
        let full: Vec<&Vec<&CallRec>> = rounds.iter().step_by(4).collect();
        if full.len() < 18 {
            return None;
        }
        for k in 0..full[0].len() {
            let s: Vec<u64> = full[full.len() - 13..].iter().filter_map(|r| r.get(k)).map(|x| x.points).collect();
            if s.len() == 13 && s.windows(2).all(|w| w[1] > w[0]) {
                return Some(Violation {
                    kind: "steps".into(),
                    text: format!("{} takes more steps every time: {s:?}", show_op(full[0][k].op)),
                });
            }
        }
        None
    }

    /// C16
    fn reopened(&mut self, c: &Case) -> Option<Violation> {
        for (i, b) in c.calls.iter().enumerate() {
            let name = match &c.sc.resolvers[b.r].description_file {
                Some(n) => format!("/{n}"),
                None => continue,
            };
            for f in b.opens.iter().filter(|f| f.ends_with(&name)) {
                for a in &c.calls {
                    if a.r != b.r || a.e_seq >= b.s_seq || !a.opens.contains(f) {
                        continue;
                    }
                    let look = |v: u32| {
                        let x = &c.versions[v as usize];
                        x.lookup(f.as_bytes(), true).ok().map(|i| (i, x.node(i).mtime, x.node(i).deny))
                    };
                    let first = look(a.vs);
                    // (a call that began before the last change may put what it saw then in the
                    // place of what this one read)
                    let from = c.calls.iter().filter(|x| x.e_seq > a.s_seq && x.s_seq < b.e_seq).map(|x| x.vs).min().unwrap_or(a.vs);
                    let same = first.is_some() && (from..=b.ve).all(|v| look(v) == first);
                    let valid = c.versions[a.vs as usize]
                        .read(f)
                        .map_or(false, |d| serde_json::from_slice::<serde_json::Value>(&d).is_ok());
                    // its own fields may still be refused
                    let accepted = !a.res.contains(f.as_str());
                    if same && valid && accepted {
                        return Some(Violation {
                            kind: "reopen".into(),
                            text: Self::describe(
                                c,
                                i,
                                &format!("it opened {f}, which task {} call {} had read before and which did not change", a.t, a.op_i),
                            ),
                        });
                    }
                }
            }
        }
        None
    }

    /// C17
    /// may a resolver look into this file?
    fn configuration(o: &ROpts, file: &str) -> bool {
        if o.description_file.as_ref().map_or(false, |d| file.ends_with(d.trim_start_matches("./"))) {
            return true;
        }
        // (whatever a tsconfig file extends)
        let code = [".js", ".ts", ".mjs", ".cjs", ".tsx", ".jsx", ".css", ".node", ".vue"];
        o.tsconfig.is_some() && !code.iter().any(|e| file.ends_with(e))
    }

    fn really_there(c: &Case) -> Option<Violation> {
        for (i, x) in c.calls.iter().enumerate() {
            let vs: Vec<&Vfs> = (x.vs..=x.ve).map(|v| &c.versions[v as usize]).collect();
            if let Some(what) = Self::ghost(&x.res, &vs, c.sc.resolvers[x.r].symlinks) {
                return Some(Violation { kind: "ghost".into(), text: Self::describe(c, i, &format!("that path {what}")) });
            }
        }
        None
    }

    /// C17 again: each change that matters to a call, placed at every instant of that call
    fn at_any_instant(&mut self, c: &mut Case, st: &mut Stats) -> Option<Violation> {
        if c.sc.index % 3 != 0 || c.steps.is_empty() {
            return None;
        }
        // (first version, how many changes on), and what is asked
        let mut pairs: Vec<(u32, u32, &Op)> = vec![];
        let mut seen = HashSet::new();
        for x in &c.calls {
            if !matches!(x.op, Op::Resolve { .. }) || !x.faults.is_empty() {
                continue;
            }
            for v in 0..c.steps.len() as u32 {
                if pairs.len() < 60 && seen.insert(key(v, x.op)) {
                    for m in 1..=3 {
                        if v + m <= c.steps.len() as u32 {
                            pairs.push((v, m, x.op));
                        }
                    }
                }
            }
        }
        let want = pairs.iter().flat_map(|(v, m, op)| [(*v, *op), (*v + *m, *op)]).collect();
        self.truths(c, want, st);
        let mut left = [3, 2, 1];
        for (v, m, op) in pairs {
            let (a, b) = (&c.memo[&key(v, op)], &c.memo[&key(v + m, op)]);
            if a.res == b.res || left[m as usize - 1] == 0 {
                continue;
            }
            left[m as usize - 1] -= 1;
            let n = a.ops.max(b.ops) + 1;
            let (v, w) = (v as usize, (v + m) as usize);
            let versions: Vec<&Vfs> = c.versions[v..=w].iter().collect();
            let o = &c.sc.resolvers[op_resolver(op)];
            let steps = &c.steps[v..w];
            let qs: Vec<exec::Query> = (1..=n)
                .map(|k| exec::Query {
                    vfs: versions[0],
                    clock: c.clocks[v],
                    o,
                    op,
                    inject: steps.iter().map(|s| (k, s.clone())).collect(),
                })
                .collect();
            let mut k = 0;
            while k < qs.len() {
                let out = exec::fresh_batch(&qs[k..], c.sc.hash_seed, self.shm);
                for t in &out {
                    k += 1;
                    st.at_instant += 1;
                    if let Some(what) = Self::ghost(&t.res, &versions, o.symlinks) {
                        return Some(Violation {
                            kind: "ghost".into(),
                            text: format!(
                                "{} answered {:?} on a new resolver, with the changes {steps:?} right before its file operation {k}, but that path {what}",
                                show_op(op),
                                t.res
                            ),
                        });
                    }
                }
            }
        }
        None
    }

    fn ghost(res: &str, versions: &[&Vfs], links: bool) -> Option<&'static str> {
        let path = res.strip_prefix("I|")?.split('|').next().unwrap();
        let mut file = false;
        let mut both = false;
        for t in versions {
            file |= t.is_file(path);
            both |= t.is_file(path) && t.realpath(path.as_bytes()).map_or(false, |p| p == path.as_bytes());
        }
        if !file {
            Some("was not a regular file at any time during the call")
        } else if links && !both {
            Some("leads through symbolic links")
        } else {
            None
        }
    }

    /// C10
    fn reported(&mut self, c: &mut Case, st: &mut Stats) -> Option<Violation> {
        // configuration files that are unusable in a version, and that version with them intact
        let sc = c.sc;
        let mut names: Vec<String> = vec![];
        for n in &sc.nodes {
            if let Node::File { path, .. } = n {
                if is_config(sc, path) {
                    names.push(path.clone());
                }
            }
        }
        let bad_content = |p: &str, d: &[u8]| {
            if p.contains("tsconfig") {
                std::str::from_utf8(d).is_err() || d.first() == Some(&0) || d == b"{\"name\": " || d == b"{ not json }"
            } else {
                serde_json::from_slice::<serde_json::Value>(d).is_err()
            }
        };
        let mut healed: Vec<(Vfs, Vec<String>)> = vec![];
        // the same, with contents of their own
        let mut others: Vec<Vfs> = vec![];
        let mut good: HashMap<String, Vec<u8>> = HashMap::new();
        for v in &c.versions {
            let mut h = v.clone();
            let mut other = v.clone();
            let mut bad = vec![];
            for p in &names {
                if let Ok(ino) = v.lookup(p.as_bytes(), true) {
                    let node = v.node(ino);
                    if let Kind::File(d) = &node.kind {
                        let unparsable = bad_content(p, d);
                        if unparsable {
                            let g = good.get(p).cloned().unwrap_or(b"{}".to_vec());
                            let mut cl = 0;
                            let _ = h.apply(&Step::Write { path: p.clone(), data: crate::vfs::Bytes(g), mtime: node.mtime }, &mut cl);
                            let x = br#"{"name":"somebody-else","sideEffects":["something-else"],"compilerOptions":{"baseUrl":"/nowhere"}}"#.to_vec();
                            let _ = other.apply(&Step::Write { path: p.clone(), data: crate::vfs::Bytes(x), mtime: node.mtime }, &mut cl);
                        } else {
                            good.insert(p.clone(), d.to_vec());
                        }
                        if node.deny {
                            let mut cl = 0;
                            let _ = h.apply(&Step::Chmod { path: p.clone(), deny: false }, &mut cl);
                            let _ = other.apply(&Step::Chmod { path: p.clone(), deny: false }, &mut cl);
                        }
                        if unparsable || node.deny {
                            bad.push(p.clone());
                        }
                    }
                }
            }
            healed.push((h, bad));
            others.push(other);
        }
        for i in 0..c.calls.len() {
            let x = &c.calls[i];
            if x.vs != x.ve {
                continue;
            }
            let ts = sc.resolvers[x.r].tsconfig.as_ref();
            let mut failed: Vec<String> =
                x.faults.iter().filter(|f| (matches!(f.1, Class::Open | Class::Read) || Some(&f.0) == ts) && is_config(sc, &f.0)).map(|f| f.0.clone()).collect();
            let (h, bad) = &healed[x.vs as usize];
            if failed.is_empty() && bad.is_empty() {
                continue;
            }
            let t = exec::fresh(h, c.clocks[x.vs as usize], &sc.resolvers[x.r], x.op, &[], sc.hash_seed, self.shm);
            st.truths += 1;
            for p in bad {
                // needed: the intact run opens it (under whatever name)
                for o in &t.opens {
                    if o == p || h.realpath(o.as_bytes()).ok() == h.realpath(p.as_bytes()).ok() {
                        failed.push(o.clone());
                    }
                }
            }
            if failed.is_empty() {
                continue;
            }
            st.config_failures += 1;
            let named = x.res.starts_with("E|") && failed.iter().any(|f| x.res.contains(f.as_str()) || x.res.contains(&f.replace(crate::vfs::RAW, "\u{fffd}")));
            if named {
                continue;
            }
            if x.res == t.res {
                if bad.is_empty() || !x.faults.is_empty() {
                    continue;
                }
                // as with the file intact, or as it was before?
                let (clock, o) = (c.clocks[x.vs as usize], &sc.resolvers[x.r]);
                let now = exec::fresh(&c.versions[x.vs as usize], clock, o, x.op, &[], sc.hash_seed, self.shm);
                let reported = now.res.starts_with("E|") && failed.iter().any(|f| now.res.contains(f.as_str()));
                st.truths += 1;
                if !reported || now.res == x.res {
                    continue;
                }
                let then = exec::fresh(&others[x.vs as usize], clock, o, x.op, &[], sc.hash_seed, self.shm);
                st.truths += 1;
                if then.res == x.res {
                    continue;
                }
                let want = format!("it needs {failed:?}, which cannot be parsed now; that is the answer to its content of before, a new resolver reports {:?}", now.res);
                return Some(Violation { kind: "older".into(), text: Self::describe(c, i, &want) });
            }
            let text = Self::describe(
                c,
                i,
                &format!("it needs {failed:?}, which cannot be opened, read or parsed: expected an error naming it, or {:?} as with the file intact", t.res),
            );
            return Some(Violation { kind: "swallowed".into(), text });
        }
        None
    }
}
