//! Command line: orchestration of worker processes, replay, evidence.

use crate::check::{Judge, Stats};
use crate::scenario::*;
use crate::shm::Shm;
use crate::{exec, gen, shrink};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub text: String,
    /// digest of the recorded history
    pub digest: String,
    pub scenario: Scenario,
}

fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h = (*h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
}

pub fn digest(out: &exec::RunOut) -> u64 {
    let mut h = 0xcbf29ce484222325;
    for e in &out.evs {
        fnv(&mut h, &serde_json::to_vec(e).unwrap());
    }
    fnv(&mut h, &serde_json::to_vec(&out.switches).unwrap());
    fnv(&mut h, &serde_json::to_vec(&out.faults).unwrap());
    fnv(&mut h, format!("{:?}", out.died).as_bytes());
    h
}

fn interleaving(out: &exec::RunOut) -> u64 {
    // which task follows which, and how long each ran
    let mut h = 0xcbf29ce484222325;
    for s in &out.switches {
        fnv(&mut h, &(s.task as u32).to_le_bytes());
        fnv(&mut h, &s.at.to_le_bytes());
        fnv(&mut h, &(s.to as u32).to_le_bytes());
    }
    h
}

/// the lowest failing index so far, shared between the workers
struct Ctl(*const AtomicU64);
impl Ctl {
    fn open(path: &str, create: bool) -> Ctl {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).unwrap();
        if create {
            f.set_len(4096).unwrap();
        }
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Ctl(p as *const AtomicU64)
    }
    fn min(&self) -> &AtomicU64 {
        unsafe { &*self.0 }
    }
}

fn pin(cpu: usize) {
    unsafe {
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "line")]
enum Line {
    V { index: u64, kind: String, text: String },
    Sum(Box<Sum>),
}

#[derive(Serialize, Deserialize, Default)]
struct Sum {
    runs: u64,
    late: bool,
    stats: Stats,
    sim_ns: i64,
    points: u64,
    fsops: u64,
    preemptions: u64,
    stalls: u64,
    changes: u64,
    faults: BTreeMap<String, u64>,
    traces: Vec<u64>,
    nontrivial: Vec<u64>,
    interleavings: Vec<u64>,
    edges: Vec<u32>,
    edges_total: u32,
    unconfirmed: u64,
    /// violations listed as known findings
    #[serde(default)]
    known: BTreeMap<String, u64>,
    sample: Option<Value>,
}

fn errno_name(e: i32) -> String {
    match e {
        0 => "short".into(),
        libc::EINTR => "EINTR".into(),
        libc::EIO => "EIO".into(),
        libc::EACCES => "EACCES".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::ESTALE => "ESTALE".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::ELOOP => "ELOOP".into(),
        libc::ETIMEDOUT => "ETIMEDOUT".into(),
        e => format!("errno {e}"),
    }
}

/// worker PROP SEED W RUNS DEADLINE_S CTL
pub fn worker(a: &[String], shm: &'static Shm) {
    let (prop, seed, w, runs) = (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    let deadline = Instant::now() + Duration::from_secs_f64(a[4].parse().unwrap());
    let ctl = Ctl::open(&a[5], false);
    pin(w as usize);
    exec::warm(shm);
    let mut j = Judge::new(shm);
    let mut s = Sum::default();
    let mut st = Stats::default();
    let (mut traces, mut nontrivial, mut inter) = (HashSet::new(), HashSet::new(), HashSet::new());
    let known = known(&verif(), prop);
    let only = std::env::var("SIM_MATCH").ok();
    let mut i = w;
    while i < runs && i < ctl.min().load(SeqCst) {
        if Instant::now() > deadline {
            s.late = true;
            break;
        }
        let sc = gen::generate(prop, seed, i);
        let out = exec::run(&sc, shm);
        let before = st.clone();
        let mut v = j.judge(&sc, &out, &mut st);
        s.runs += 1;
        if let (Some(_), false) = (&v, j.solo) {
            // confirm with every reference answer from a process of its own
            let mut k = Judge::new(shm);
            k.solo = true;
            let c = k.judge(&sc, &out, &mut Stats::default());
            if c.is_none() {
                s.unconfirmed += 1;
                j.solo = true;
            }
            v = c;
        }
        if let Some(x) = &v {
            if let Some(k) = known.iter().find(|k| x.text.contains(k.as_str())) {
                *s.known.entry(k.clone()).or_default() += 1;
                v = None;
            } else if only.as_ref().map_or(false, |m| !x.text.contains(m.as_str()) && x.kind != *m) {
                v = None;
            }
        }
        let d = digest(&out);
        traces.insert(d);
        if st.preempted_calls > before.preempted_calls
            || st.faulted_calls > before.faulted_calls
            || st.changed_answers > before.changed_answers
            || st.cache_hits > before.cache_hits
            || out.evs.iter().any(|e| matches!(e, Ev::Mut { .. }))
        {
            nontrivial.insert(d);
        }
        inter.insert(interleaving(&out));
        for f in &out.faults {
            let k = match &f.kind {
                FaultKind::Errno(_) => continue,
                FaultKind::Short(_) => continue,
                FaultKind::Stall => "hang".to_string(),
            };
            *s.faults.entry(k).or_default() += 1;
        }
        for e in &out.evs {
            match e {
                Ev::End { faults, .. } => {
                    for (_, c, e) in faults {
                        *s.faults.entry(format!("{} on {:?}", errno_name(*e), c).to_lowercase()).or_default() += 1;
                    }
                }
                Ev::Mut { .. } => s.changes += 1,
                Ev::Done { clock, points, fsops, switches, stalls } => {
                    s.sim_ns = s.sim_ns.saturating_add((clock - sc.clock).clamp(0, 3_600_000_000_000));
                    s.points += points;
                    s.fsops += fsops;
                    s.preemptions += switches;
                    s.stalls += *stalls as u64;
                }
                _ => {}
            }
        }
        if s.sample.is_none() && w == 0 && s.runs == 3 {
            s.sample = Some(sample(&sc, &out));
        }
        if let Some(v) = v {
            ctl.min().fetch_min(i, SeqCst);
            let l = Line::V { index: i, kind: v.kind, text: v.text };
            println!("{}", serde_json::to_string(&l).unwrap());
            break;
        }
        i += WORKERS;
    }
    s.stats = st;
    s.traces = traces.into_iter().collect();
    s.nontrivial = nontrivial.into_iter().collect();
    s.interleavings = inter.into_iter().collect();
    s.edges = shm.cov().iter().enumerate().filter(|x| *x.1 != 0).map(|x| x.0 as u32).collect();
    s.edges_total = crate::kernel::edges();
    println!("{}", serde_json::to_string(&Line::Sum(Box::new(s))).unwrap());
}

fn sample(sc: &Scenario, out: &exec::RunOut) -> Value {
    let tasks: Vec<Vec<String>> = sc.tasks.iter().map(|t| t.iter().map(crate::check::show_op).collect()).collect();
    let ends: Vec<String> = out
        .evs
        .iter()
        .filter_map(|e| match e {
            Ev::End { t, op, res, faults, ver, .. } => Some(format!("task {t} op {op} (tree version {ver}): {res} {}", if faults.is_empty() { String::new() } else { format!("{faults:?}") })),
            _ => None,
        })
        .collect();
    json!({
        "index": sc.index, "nodes": sc.nodes.len(), "tasks": tasks, "schedule": sc.sched, "answers": ends,
        "context_switches": out.switches.len(), "faults": out.faults.len(),
    })
}

fn bin(profile: &str) -> PathBuf {
    let me = std::env::current_exe().unwrap();
    let root = me.parent().unwrap().parent().unwrap();
    root.join(if profile == "release" { "release" } else { "debug" }).join("simrun")
}

fn verif() -> PathBuf {
    // <verif>/.build/debug/simrun
    std::env::current_exe().unwrap().ancestors().nth(3).unwrap().to_path_buf()
}

/// shrink IN OUT KIND SECONDS
pub fn shrink_cmd(a: &[String], shm: &'static Shm) {
    pin(7);
    exec::warm(shm);
    let sc: Scenario = serde_json::from_slice(&std::fs::read(&a[0]).unwrap()).unwrap();
    let mut s = shrink::Shrinker::new(shm, &a[2], Duration::from_secs_f64(a[3].parse().unwrap()));
    let small = s.shrink(&sc).unwrap_or(sc);
    let (out, v) = shrink::eval(&small, shm);
    let r = match v {
        Some(v) => Replay { property: small.property.clone(), kind: v.kind, text: v.text, digest: format!("{:016x}", digest(&out)), scenario: small },
        None => std::process::exit(3),
    };
    std::fs::write(&a[1], serde_json::to_vec_pretty(&r).unwrap()).unwrap();
}

/// recheck FILE OUT: runs a recorded scenario again; exit 1 and a replay file if anything is wrong in it
pub fn recheck(file: &str, to: &str, shm: &'static Shm) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let want = if r.scenario.profile == "release" { "release" } else { "dev" };
    if cfg!(debug_assertions) != (want == "dev") {
        let st = Command::new(bin(want)).args(["recheck", file, to]).status().unwrap();
        return st.code().unwrap_or(3);
    }
    exec::warm(shm);
    let (out, v) = shrink::eval(&r.scenario, shm);
    let k = known(&verif(), &r.property);
    let v = match v {
        Some(v) if !k.iter().any(|k| v.text.contains(k.as_str())) && v.kind != "harness" => v,
        _ => return 0,
    };
    let mut e = shrink::explicit(&r.scenario, &out);
    e.alt_hash_seeds = r.scenario.alt_hash_seeds.clone();
    e.alt_envs = r.scenario.alt_envs.clone();
    let (out, w) = shrink::eval(&e, shm);
    let (sc, out, v) = match w {
        Some(w) => (e, out, w),
        None => (r.scenario, out, v),
    };
    println!("recorded scenario {} ({}): {}", Path::new(file).file_name().unwrap().to_string_lossy(), v.kind, v.text);
    let n = Replay { property: r.property, kind: v.kind, text: v.text, digest: format!("{:016x}", digest(&out)), scenario: sc };
    std::fs::write(to, serde_json::to_vec_pretty(&n).unwrap()).unwrap();
    1
}

/// replay FILE: exit 1 if it happens again exactly, 0 if nothing is wrong any more, 3 if something else happens
pub fn replay(file: &str, shm: &'static Shm) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let want = if r.scenario.profile == "release" { "release" } else { "dev" };
    if cfg!(debug_assertions) != (want == "dev") {
        let st = Command::new(bin(want)).args(["replay", file]).status().unwrap();
        return st.code().unwrap_or(3);
    }
    pin(7);
    exec::warm(shm);
    let (out, v) = shrink::eval(&r.scenario, shm);
    let d = format!("{:016x}", digest(&out));
    match v {
        Some(v) => {
            println!("property {} kind {}: {}", r.property, v.kind, v.text);
            if v.kind == r.kind && v.text == r.text && d == r.digest {
                println!("reproduced exactly (history digest {d})");
                println!("VIOLATION property={} replay={file}", r.property);
                1
            } else {
                println!("a violation, but not the recorded one (history digest {d}, recorded {}: {})", r.digest, r.text);
                println!("VIOLATION property={} replay={file}", r.property);
                3
            }
        }
        None => {
            println!("no violation (history digest {d}, recorded {})", r.digest);
            0
        }
    }
}

fn known(root: &Path, prop: &str) -> Vec<String> {
    // known: property=<id> <substring of the violation text>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={prop} ")) {
                v.push(r.trim().to_string());
            }
        }
    }
    v
}

/// check PROP: exit status
pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let root = verif();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut runs, mut limit) = gen::size(prop, tier);
    if let Ok(r) = std::env::var("SIM_RUNS") {
        runs = r.parse().unwrap();
        limit = 1e6;
    }
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let _ = std::fs::create_dir_all(root.join("replays"));
    let dir = root.join(".build/run");
    let _ = std::fs::create_dir_all(&dir);
    let ctlp = dir.join(format!("{prop}-{}.ctl", std::process::id())).to_string_lossy().into_owned();
    let ctl = Ctl::open(&ctlp, true);
    ctl.min().store(u64::MAX, SeqCst);
    let mut exit = 0;
    let mut reported = 0;
    // scenarios recorded when they failed once
    let mut recorded: Vec<PathBuf> = std::fs::read_dir(root.join("findings"))
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    recorded.retain(|p| p.file_name().map_or(false, |n| n.to_string_lossy().starts_with(&format!("{prop}-"))));
    recorded.sort();
    if std::env::var_os("SIM_MATCH").is_some() {
        recorded.clear();
    }
    let n_recorded = recorded.len();
    let mut rechecks = vec![];
    for f in recorded {
        let rp = root.join("replays").join(format!("again-{}", f.file_name().unwrap().to_string_lossy()));
        let _ = std::fs::remove_file(&rp);
        let c = Command::new(bin("dev")).arg("recheck").arg(&f).arg(&rp).stdin(Stdio::null()).stdout(Stdio::piped()).spawn().expect("recheck");
        rechecks.push((c, rp));
    }
    for (c, rp) in rechecks {
        let o = c.wait_with_output().expect("recheck");
        print!("{}", String::from_utf8_lossy(&o.stdout));
        if o.status.code() == Some(1) && rp.exists() {
            println!("VIOLATION property={prop} replay={}", rp.display());
            exit = 1;
            reported += 1;
            runs = runs.min(200);
        }
    }
    let t1 = Instant::now();
    let mut readers = vec![];
    for w in 0..WORKERS {
        let mut c = Command::new(bin(gen::profile_of(w)))
            .arg("worker")
            .args([prop, &seed.to_string(), &w.to_string(), &runs.to_string(), &limit.to_string(), &ctlp])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker");
        readers.push(std::thread::spawn(move || {
            let out = BufReader::new(c.stdout.take().unwrap());
            let lines: Vec<String> = out.lines().map_while(|l| l.ok()).collect();
            (c.wait().map(|s| s.to_string()).unwrap_or_default(), lines)
        }));
    }
    let mut sums = vec![];
    let mut viols = vec![];
    let mut broken = vec![];
    for (w, r) in readers.into_iter().enumerate() {
        let (status, lines) = r.join().unwrap();
        let mut done = false;
        for l in &lines {
            match serde_json::from_str::<Line>(l) {
                Ok(Line::V { index, kind, text }) => viols.push((index, kind, text)),
                Ok(Line::Sum(s)) => {
                    done = true;
                    sums.push((w as u64, *s));
                }
                Err(_) => broken.push(format!("worker {w}: {l}")),
            }
        }
        if !done {
            broken.push(format!("worker {w} ended early: {status}"));
        }
    }
    let _ = std::fs::remove_file(&ctlp);
    let search_s = t1.elapsed().as_secs_f64();
    viols.sort();
    let mut listed: BTreeMap<String, u64> = BTreeMap::new();
    for (_, s) in &sums {
        for (k, n) in &s.known {
            *listed.entry(k.clone()).or_default() += n;
        }
    }
    for (k, n) in &listed {
        println!("KNOWN-FINDING: property={prop} {k} ({n} runs)");
    }
    if let Some((index, kind, text)) = viols.first() {
        if kind == "harness" {
            println!("simulator failure in run {index}: {text}");
            exit = 2;
        } else {
            reported += 1;
            exit = 1;
            let sc = gen::generate(prop, seed, *index);
            let raw = dir.join(format!("{prop}-{}.json", std::process::id()));
            std::fs::write(&raw, serde_json::to_vec(&sc).unwrap()).unwrap();
            let rp = root.join("replays").join(format!("{prop}-seed{seed}-run{index}.json"));
            let _ = std::fs::remove_file(&rp);
            let b = bin(&sc.profile);
            for secs in ["25", "0"] {
                let ok = Command::new(&b).arg("shrink").arg(&raw).arg(&rp).args([kind.as_str(), secs]).stdin(Stdio::null()).status();
                if !ok.map_or(false, |s| s.success()) {
                    continue;
                }
                let again = Command::new(&b).arg("replay").arg(&rp).stdin(Stdio::null()).stdout(Stdio::null()).status();
                if again.map_or(false, |s| s.code() == Some(1)) {
                    break;
                }
                println!("note: the minimised run did not reproduce exactly");
            }
            if !rp.exists() {
                // keep at least the scenario
                let r = Replay { property: prop.into(), kind: kind.clone(), text: text.clone(), digest: "unknown".into(), scenario: sc };
                std::fs::write(&rp, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
            }
            let _ = std::fs::remove_file(&raw);
            println!("run {index} ({kind}): {text}");
            if let Ok(r) = serde_json::from_slice::<Replay>(&std::fs::read(&rp).unwrap()) {
                println!("minimised: {}", r.text);
                println!("  tree: {} entries; preemptions: {}; injected failures: {:?}", r.scenario.nodes.len(), r.scenario.switches.len(), r.scenario.faults);
                for (t, ops) in r.scenario.tasks.iter().enumerate() {
                    for o in ops {
                        println!("  task {t}: {}", crate::check::show_op(o));
                    }
                }
            }
            println!("VIOLATION property={prop} replay={}", rp.display());
        }
    }
    if exit == 0 && !broken.is_empty() {
        for b in broken.iter().take(5) {
            println!("{b}");
        }
        exit = 2;
    }
    evidence(&root, prop, tier, seed, runs, &sums, search_s, t0.elapsed().as_secs_f64(), reported, n_recorded);
    let _ = std::io::stdout().flush();
    exit
}

#[allow(clippy::too_many_arguments)]
fn evidence(root: &Path, prop: &str, tier: &str, seed: u64, planned: u64, sums: &[(u64, Sum)], search_s: f64, wall: f64, violations: u64, recorded: usize) {
    let mut tot = Stats::default();
    let (mut runs, mut points, mut fsops, mut pre, mut changes, mut unconf) = (0, 0, 0, 0, 0, 0);
    let mut sim_ns = 0f64;
    let mut late = false;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let (mut tr, mut nt, mut il) = (HashSet::new(), HashSet::new(), HashSet::new());
    let (mut edges, mut etot) = (HashSet::new(), 0);
    let mut samples = vec![];
    let mut release = 0;
    for (w, s) in sums {
        runs += s.runs;
        if gen::profile_of(*w) == "release" {
            release += s.runs;
        } else {
            edges.extend(s.edges.iter().copied());
            etot = s.edges_total;
        }
        points += s.points;
        fsops += s.fsops;
        pre += s.preemptions;
        changes += s.changes;
        unconf += s.unconfirmed;
        sim_ns += s.sim_ns as f64;
        late |= s.late;
        for (k, n) in &s.faults {
            *faults.entry(k.clone()).or_default() += n;
        }
        tr.extend(s.traces.iter().copied());
        nt.extend(s.nontrivial.iter().copied());
        il.extend(s.interleavings.iter().copied());
        tot.add(&s.stats);
        samples.extend(s.sample.clone());
    }
    let per_hour = if search_s > 0.0 { (runs as f64 / search_s * 3600.0) as u64 } else { 0 };
    let e = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nt.len(),
            "rule": "one evaluation is one simulated run (tree, options, calls, changes, schedule and failures drawn from VERIF_SEED, the property and the run's index; recorded history judged against the property); it is non-trivial if in it a call was preempted, suffered an injected failure, overlapped or followed a change of the tree, or was answered from a cache; distinct by digest of the whole recorded history (answers, versions, switches, failures)",
            "samples": samples,
            "runs_planned": planned,
            "recorded_scenarios_run_again": recorded,
            "stopped_by_time_limit": late,
            "distinct_histories": tr.len(),
            "distinct_interleavings": il.len(),
            "interleaving_measure": "digest of the sequence of (task, position in its own execution, next task) of all context switches of a run",
            "seeds_per_hour": per_hour,
            "runs_per_hour": per_hour,
            "simulated_seconds": sim_ns / 1e9,
            "scheduling_points": points,
            "file_operations": fsops,
            "preemptions": pre,
            "tree_changes": changes,
            "failures_injected": faults,
            "calls": tot.calls,
            "calls_preempted": tot.preempted_calls,
            "calls_with_injected_failure": tot.faulted_calls,
            "calls_overlapping_a_change": tot.overlapped,
            "calls_answered_with_less_reading_than_fresh": tot.cache_hits,
            "calls_answered_with_error": tot.errors,
            "calls_answered_ignored": tot.ignored,
            "runs_repeated_in_other_surroundings": tot.elsewhere,
            "questions_whose_answer_changed_within_a_run": tot.changed_answers,
            "calls_needing_broken_configuration": tot.config_failures,
            "reference_answers": tot.truths,
            "reference_answers_in_own_process": tot.solo,
            "reference_runs_with_a_change_at_a_chosen_instant": tot.at_instant,
            "mixture_candidates_not_decided": tot.skipped,
            "histories_set_aside_as_outside_the_property": tot.out_of_scope,
            "violations_not_confirmed_in_own_process": unconf,
            "runs_with_debug_assertions": runs - release,
            "runs_with_release_build": release,
            "basic_block_edges_reached": edges.len(),
            "basic_block_edges_instrumented": etot,
            "real_components": "nodejs_resolver (all of it, unmodified, dev and release builds), dashmap, parking_lot, serde_json, jsonc-parser, std (threads, locks, fs wrappers): real code",
            "stub_components": "kernel interface below libc: file system (in-memory tree), clocks, futexes and scheduling, random numbers, processor count"
        },
        "assumptions": gen::assumptions(prop),
        "wall_s": wall,
        "violations": violations
    });
    std::fs::write(root.join("evidence").join(format!("{prop}.json")), serde_json::to_vec_pretty(&e).unwrap()).unwrap();
}

/// selftest N: every property's first runs, twice: the same histories
pub fn selftest(n: u64, shm: &'static Shm) -> i32 {
    pin(0);
    exec::warm(shm);
    let mut bad = 0;
    for p in gen::PROPS {
        for i in 0..n {
            let sc = gen::generate(p, 7, i);
            let text = serde_json::to_string(&sc).unwrap();
            let back: Scenario = serde_json::from_str(&text).unwrap();
            let a = exec::run(&sc, shm);
            let b = exec::run(&back, shm);
            if digest(&a) != digest(&b) {
                println!("{p} run {i}: two executions differ");
                bad += 1;
            }
            let e = shrink::explicit(&sc, &a);
            let c = exec::run(&e, shm);
            if a.evs != c.evs {
                println!("{p} run {i}: the explicit form differs");
                bad += 1;
            }
        }
    }
    println!("{} differences", bad);
    (bad > 0) as i32
}

/// try PROP SEED FROM N: what is found, without stopping
pub fn try_cmd(a: &[String], shm: &'static Shm) {
    pin(a.get(4).map_or(0, |x| x.parse().unwrap()));
    exec::warm(shm);
    let (seed, from, n): (u64, u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut j = Judge::new(shm);
    let mut st = Stats::default();
    let t0 = Instant::now();
    let mut kinds = BTreeMap::<String, u64>::new();
    let slow: Option<u128> = std::env::var("SIM_SLOW").ok().and_then(|x| x.parse().ok());
    for i in from..from + n {
        let g0 = Instant::now();
        let sc = gen::generate(&a[0], seed, i);
        let g1 = g0.elapsed();
        let out = exec::run(&sc, shm);
        let g2 = g0.elapsed();
        if let Ok(f) = std::env::var("SIM_DUMP") {
            std::fs::write(&f, serde_json::to_string(&serde_json::json!({"scenario": sc, "events": out.evs})).unwrap()).unwrap();
        }
        let found = j.judge(&sc, &out, &mut st);
        if slow.map_or(false, |ms| g0.elapsed().as_millis() >= ms) {
            println!("slow {i}: generated {g1:?} ran {:?} judged {:?}, {} events, {} calls, {} nodes", g2 - g1, g0.elapsed() - g2, out.evs.len(), sc.tasks.iter().map(|t| t.len()).sum::<usize>(), sc.nodes.len());
        }
        if let Some(v) = found {
            let c = kinds.entry(v.kind.clone()).or_default();
            *c += 1;
            if *c <= 4 {
                println!("{i} {}: {}", v.kind, v.text);
            }
        }
    }
    println!("{:?} {kinds:?} {st:?}", t0.elapsed() / n as u32);
}
