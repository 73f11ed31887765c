//! One run = one forked child of a pristine parent.

use crate::kernel::{exit_now, sim, Sim, ACTIVE, SIM, TID};
use crate::scenario::*;
use crate::shm::Shm;
use crate::vfs::{Step, Vfs};
use nodejs_resolver::{AliasMap, ResolveResult, Resolver, ResolverCache, ResolverOptions};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub struct RunOut {
    pub evs: Vec<Ev>,
    pub switches: Vec<Switch>,
    pub faults: Vec<Fault>,
    /// the process did not get to its end: how it died
    pub died: Option<String>,
}

fn aliases(o: &ROpts) -> Vec<(String, AliasMap)> {
    o.alias.iter().map(|(k, v)| (k.clone(), v.as_ref().map_or(AliasMap::Ignored, |t| AliasMap::Target(t.clone())))).collect()
}

fn build(o: &ROpts, cache: Option<Arc<ResolverCache>>) -> Resolver {
    if o.main_fields == ["main"] && o.main_files == ["index"] && o.extensions == [".js", ".json", ".node"] && o.condition_names == ["node"] {
        // what is not said is left to the defaults
        return Resolver::new(ResolverOptions {
            enforce_extension: o.enforce_extension,
            alias: aliases(o),
            prefer_relative: o.prefer_relative,
            external_cache: cache,
            symlinks: o.symlinks,
            description_file: o.description_file.clone(),
            browser_field: o.browser_field,
            tsconfig: o.tsconfig.as_ref().map(|p| p.into()),
            ..ResolverOptions::default()
        });
    }
    Resolver::new(ResolverOptions {
        extensions: o.extensions.clone(),
        enforce_extension: o.enforce_extension,
        alias: aliases(o),
        prefer_relative: o.prefer_relative,
        external_cache: cache,
        symlinks: o.symlinks,
        description_file: o.description_file.clone(),
        main_files: o.main_files.clone(),
        main_fields: o.main_fields.clone(),
        browser_field: o.browser_field,
        condition_names: o.condition_names.iter().cloned().collect(),
        tsconfig: o.tsconfig.as_ref().map(|p| p.into()),
    })
}

fn os(p: &str) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(crate::vfs::to_os(p.as_bytes()).into_owned()).into()
}
fn shown(p: &Path) -> String {
    use std::os::unix::ffi::OsStrExt;
    String::from_utf8_lossy(&crate::vfs::from_os(p.as_os_str().as_bytes())).into_owned()
}

fn perform(r: &Resolver, op: &Op) -> String {
    match op {
        Op::Resolve { path, req, .. } => match r.resolve(&os(path), req) {
            Ok(ResolveResult::Info(i)) => format!(
                "I|{}|{}|{}",
                shown(&i.get_path()),
                i.request.query.as_str(),
                i.request.fragment.as_str()
            ),
            Ok(ResolveResult::Ignored) => "G".into(),
            Err(e) => format!("E|{e}"),
        },
        Op::Side { path, .. } => match r.load_side_effects(&os(path)) {
            Ok(None) => "N".into(),
            Ok(Some((p, s))) => format!("S|{}|{:?}", shown(&p), s),
            Err(e) => format!("E|{e}"),
        },
        _ => unreachable!(),
    }
}

fn call(t: usize, r: &Resolver, op: &Op) -> String {
    ACTIVE.set(t as u32 + 1);
    let x = catch_unwind(AssertUnwindSafe(|| perform(r, op)));
    ACTIVE.set(0);
    match x {
        // (not a block of the call's own)
        Ok(s) => String::from(s.as_str()),
        Err(_) => format!("P|{}", std::mem::take(&mut sim().tasks[t].panic)),
    }
}

fn child_prelude(limit_s: i64) {
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        if std::env::var_os("SIM_STDERR").is_some() {
            libc::dup2(2, 1);
            crate::interpose::SHOW.store(1, SeqCst);
        } else {
            libc::dup2(null, 2);
        }
        libc::dup2(null, 1);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        let m = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &m);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: limit_s, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_REAL, &it, std::ptr::null_mut());
    }
    unsafe { libc::clearenv() };
    crate::heap::reset();
    std::panic::set_hook(Box::new(|info| {
        let _k = crate::kernel::kern();
        if let Some(t) = crate::kernel::me() {
            let m = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            sim().tasks[t].panic = m;
        }
    }));
}

fn install(s: Sim) {
    unsafe { SIM = Box::into_raw(Box::new(s)) };
}

fn wait(pid: i32, shm: &Shm) -> Option<String> {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            return Some("wait failed".into());
        }
    }
    if shm.hdr().finished.load(SeqCst) == 1 {
        return None;
    }
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        return Some(match sig {
            libc::SIGALRM => "hung (no progress in 60 s of wall time)".into(),
            libc::SIGSEGV => "killed by SIGSEGV (stack overflow)".into(),
            libc::SIGABRT => "aborted (SIGABRT)".into(),
            _ => format!("killed by signal {sig}"),
        });
    }
    Some(format!("exited with status {}", libc::WEXITSTATUS(st)))
}

/// Writes down all it is told (and throws it away).
#[derive(Default)]
struct Recorder {
    spans: std::sync::atomic::AtomicU64,
}
struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl tracing::field::Visit for Nowhere {
    fn record_debug(&mut self, _: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        let _ = std::fmt::write(self, format_args!("{value:?}"));
    }
}
impl tracing::Subscriber for Recorder {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut Nowhere);
        tracing::span::Id::from_u64(self.spans.fetch_add(1, SeqCst) + 1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut Nowhere);
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut Nowhere);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

/// The resolvers of a run.  Only the task whose turn it is touches them.
struct Slots {
    now: std::cell::UnsafeCell<(Vec<Arc<Resolver>>, Vec<Arc<ResolverCache>>)>,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    fn get(&self, r: usize) -> Arc<Resolver> {
        unsafe { (&*self.now.get()).0[r].clone() }
    }
    fn renew(&self, r: usize, o: &ROpts) {
        let now = unsafe { &mut *self.now.get() };
        let task = TID.get();
        ACTIVE.set(task);
        let new = Arc::new(build(o, o.cache.map(|i| now.1[i].clone())));
        ACTIVE.set(0);
        let old = std::mem::replace(&mut now.0[r], new);
        ACTIVE.set(task);
        drop(old);
        ACTIVE.set(0);
    }
    fn replace(&self, r: usize, new: Resolver) {
        let now = unsafe { &mut *self.now.get() };
        drop(std::mem::replace(&mut now.0[r], Arc::new(new)));
    }
    /// what no caller is still using
    fn drop_all(&self) {
        drop(unsafe { std::mem::take(&mut *self.now.get()) });
    }
}

/// what a host may do with the public parts of resolver and cache
fn upkeep(rs: &Slots, r: usize, what: Upkeep) {
    use chores::Chore as C;
    let what = match what {
        Upkeep::Packages => C::Packages,
        Upkeep::Exports => C::Exports,
        Upkeep::Imports => C::Imports,
        Upkeep::All => C::All,
        Upkeep::Some(k) => C::Some(k),
        Upkeep::Gone => C::Gone,
        Upkeep::Walk => C::Walk,
        Upkeep::Show => C::Show,
        Upkeep::Copy => C::Copy,
        Upkeep::Like => C::Like,
        Upkeep::Empty => C::Empty,
        Upkeep::Idle(n) => {
            chores::idle(n);
            return;
        }
    };
    let x = rs.get(r);
    if let Some(new) = chores::perform(&x, what) {
        rs.replace(r, new);
    }
}

fn task_main(t: usize, ops: &[Op], rs: &Slots, opts: &[ROpts]) {
    sim().task_begin(t);
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Resolve { r, .. } | Op::Side { r, .. } => {
                sim().call_begin(t, i);
                let held = rs.get(*r);
                let res = call(t, &held, op);
                drop(held);
                sim().call_end(t, i, res);
            }
            Op::Mutate { steps } => {
                for (k, st) in steps.iter().enumerate() {
                    sim().mutate(t, i, k, st);
                }
            }
            Op::Barrier => sim().barrier(t),
            Op::FaultsOff => sim().faults_on = false,
            Op::Renew { r } => rs.renew(*r, &opts[*r]),
            Op::Upkeep { r, what } => {
                ACTIVE.set(t as u32 + 1);
                let x = catch_unwind(AssertUnwindSafe(|| upkeep(rs, *r, *what)));
                ACTIVE.set(0);
                if x.is_err() {
                    let why = std::mem::take(&mut sim().tasks[t].panic);
                    sim().violation("upkeep", format!("{what:?} panicked: {why}"));
                }
            }
        }
    }
    sim().task_end(t);
}

/// Runs a scenario in a child.
pub fn run(sc: &Scenario, shm: &'static Shm) -> RunOut {
    shm.reset();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        child_prelude(60);
        install(Sim::new(shm, sc, sc.tasks.len()));
        for (k, v) in &sc.env.vars {
            std::env::set_var(k, v);
        }
        if sc.traced {
            let _ = tracing::subscriber::set_global_default(Recorder::default());
        }
        // resolvers are built on a thread of their own (fresh thread-locals, simulated environment)
        let rs: Slots = std::thread::scope(|s| {
            s.spawn(|| {
                TID.set(1);
                crate::heap::SETUP.set(true);
                let caches: Vec<Arc<ResolverCache>> =
                    (0..sc.caches).map(|_| Arc::new(ResolverCache::default())).collect();
                let v = sc.resolvers.iter().map(|o| Arc::new(build(o, o.cache.map(|i| caches[i].clone())))).collect();
                crate::heap::SETUP.set(false);
                let v = Slots { now: std::cell::UnsafeCell::new((v, caches)) };
                TID.set(0);
                v
            })
            .join()
            .unwrap()
        });
        sim().started();
        std::thread::scope(|s| {
            for (t, ops) in sc.tasks.iter().enumerate() {
                let rs = &rs;
                let mut b = std::thread::Builder::new();
                if !sc.env.thread.is_empty() {
                    b = b.name(format!("{}{t}", sc.env.thread));
                }
                b.stack_size(2 << 20)
                    .spawn_scoped(s, move || task_main(t, ops, rs, &sc.resolvers))
                    .unwrap();
            }
            sim().run();
            sim().finish_event();
            // it must be possible to get rid of them as well
            let rs = &rs;
            let _ = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || rs.drop_all()).unwrap().join();
            shm.hdr().finished.store(1, SeqCst);
            exit_now(0);
        });
        unreachable!()
    }
    let died = wait(pid, shm);
    RunOut { evs: shm.events(), switches: shm.switches(), faults: shm.faults(), died }
}

#[derive(Clone, Debug)]
pub struct Truth {
    pub res: String,
    pub ops: u32,
    pub opens: Vec<String>,
}

fn answer_one(o: &ROpts, op: &Op) {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || {
                TID.set(1);
                let r = build(o, None);
                sim().started();
                sim().call_begin(0, 0);
                let res = call(0, &r, op);
                sim().call_end(0, 0, res);
                TID.set(0);
            })
            .unwrap();
    });
}

fn died_truth(shm: &Shm, died: Option<String>) -> Truth {
    let mut why = died.unwrap_or_default();
    for e in shm.events() {
        if let Ev::Viol { kind, text } = e {
            why = format!("{kind}: {text}");
        }
    }
    Truth { res: format!("X|{why}"), ops: 0, opens: vec![] }
}

fn collect(shm: &Shm) -> Vec<Truth> {
    let mut v = vec![];
    for e in shm.events() {
        if let Ev::End { res, ops, opens, .. } = e {
            v.push(Truth { res, ops, opens });
        }
    }
    v
}

/// What a brand-new resolver (own cache, one thread, no failures, its own process) answers on `vfs`,
/// with the given changes applied just before its n-th file operation.
pub fn fresh(vfs: &Vfs, clock: i64, o: &ROpts, op: &Op, inject: &[(u32, Step)], hash_seed: u64, shm: &'static Shm) -> Truth {
    shm.reset();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        child_prelude(60);
        let mut s = Sim::empty(shm, vfs.clone(), clock, hash_seed, 1);
        s.inject = inject.to_vec();
        install(s);
        answer_one(o, op);
        shm.hdr().finished.store(1, SeqCst);
        exit_now(0);
    }
    let died = wait(pid, shm);
    match collect(shm).pop() {
        Some(t) => t,
        None => died_truth(shm, died),
    }
}

pub struct Query<'a> {
    pub vfs: &'a Vfs,
    pub clock: i64,
    pub o: &'a ROpts,
    pub op: &'a Op,
    pub inject: Vec<(u32, Step)>,
}

/// The same for several questions, each with a new resolver on a new thread, in one process.
/// May answer fewer (but at least one) if that process dies.
pub fn fresh_batch(qs: &[Query], hash_seed: u64, shm: &'static Shm) -> Vec<Truth> {
    shm.reset();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        child_prelude(60);
        for q in qs {
            let mut s = Sim::empty(shm, q.vfs.clone(), q.clock, hash_seed, 1);
            s.inject = q.inject.clone();
            install(s);
            answer_one(q.o, q.op);
        }
        shm.hdr().finished.store(1, SeqCst);
        exit_now(0);
    }
    let died = wait(pid, shm);
    let mut v = collect(shm);
    if v.len() < qs.len() {
        v.push(died_truth(shm, died));
    }
    v
}

fn warm_body() {
    std::thread::scope(|s| {
        let _ = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || {
            TID.set(1);
            let o = ROpts {
                extensions: vec![],
                enforce_extension: None,
                alias: vec![],
                prefer_relative: false,
                symlinks: true,
                description_file: None,
                main_files: vec![],
                main_fields: vec![],
                browser_field: false,
                condition_names: vec![],
                tsconfig: None,
                cache: None,
            };
            let r = build(&o, None);
            let op = Op::Resolve { r: 0, path: "/".into(), req: "./warm".into() };
            let _ = call(0, &r, &op);
            TID.set(0);
        })
        .unwrap()
        .join();
    });
}

/// Runs the one-time initialisers of the code under test (a lookup of nothing in an empty tree), so
/// that runs need not repeat them.  Tried in a child first.
pub fn warm(shm: &'static Shm) {
    shm.reset();
    let prep = || install(Sim::empty(shm, Vfs::new(0), 1_700_000_000_000_000_000, 42, 1));
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        child_prelude(60);
        prep();
        warm_body();
        shm.hdr().finished.store(1, SeqCst);
        exit_now(0);
    }
    if wait(pid, shm).is_none() && shm.events().is_empty() {
        prep();
        warm_body();
        unsafe { SIM = std::ptr::null_mut() };
    }
}
