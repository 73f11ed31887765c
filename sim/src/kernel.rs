//! The simulator proper: one-at-a-time threads, virtual clock, futex queues, fault decisions.
//!
//! Invariant: of all simulated threads exactly one (the holder of the baton, `cur`) executes; every
//! field below is only touched by it, or by the controller thread while no simulated thread runs.

use crate::raw;
use crate::rng::Rng;
use crate::scenario::*;
use crate::shm::Shm;
use crate::vfs::{Ino, Kind, Step, Vfs};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

thread_local! {
    /// 0: not simulated; otherwise index of the task + 1
    pub static TID: Cell<u32> = const { Cell::new(0) };
    /// the same, but only while code under test executes (not the simulator or the harness)
    pub static ACTIVE: Cell<u32> = const { Cell::new(0) };
}

/// While this lives, the thread executes simulator code: no scheduling points.
pub struct Kern(u32);
#[inline(always)]
pub fn kern() -> Kern {
    let a = ACTIVE.get();
    ACTIVE.set(0);
    Kern(a)
}
impl Drop for Kern {
    #[inline(always)]
    fn drop(&mut self) {
        ACTIVE.set(self.0);
    }
}

pub static mut SIM: *mut Sim = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

/// index of the simulated task running on this thread
#[inline(always)]
pub fn me() -> Option<usize> {
    let t = TID.get();
    if t == 0 {
        None
    } else {
        Some(t as usize - 1)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Ready,
    /// waiting on a futex word
    Futex(usize),
    Sleep,
    Join(usize),
    Barrier,
    Stalled,
    Done,
}

pub struct Task {
    pub st: St,
    pub deadline: Option<i64>,
    pub timed_out: bool,
    baton: Box<AtomicU32>,
    pub points: u64,
    next_at: u64,
    pub fsops: u32,
    pub switched: u32,
    burst: u32,
    pub pthread: u64,
    pub hash_ctr: u64,
    pub panic: String,
    pub call: Call,
    /// which call had started this thread (caller, sequence number), if one had
    pub of: Option<(usize, u64)>,
}

#[derive(Default)]
pub struct Call {
    pub active: bool,
    pub id: u64,
    pub faults: Vec<(String, Class, i32)>,
    pub opens: Vec<String>,
    pub denied: Vec<String>,
    pub fs0: u32,
    pub yields: u32,
    pub p0: u64,
    pub sw0: u32,
    pub fds: i32,
}

pub struct Fd {
    pub ino: Ino,
    pub pos: usize,
    pub task: usize,
    pub path: String,
}

pub struct Sim {
    pub shm: &'static Shm,
    pub tasks: Vec<Task>,
    pub cur: usize,
    /// scheduling enabled (off for single-threaded reference runs and set-up)
    pub sched_on: bool,
    sched: Sched,
    rng_s: Rng,
    rng_f: Rng,
    p_fs: f64,
    explicit: HashMap<(usize, u64), usize>,
    explicit_next: Vec<Vec<u64>>,
    pub preempts: u64,
    max_preempts: u64,
    pub vfs: Vfs,
    pub version: u32,
    pub clock: i64,
    pub mono: i64,
    pub seq: u64,
    pub fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    futexq: Vec<(usize, usize, u32)>, // (addr, task, bitset) in arrival order
    fault_cfg: FaultCfg,
    faults: HashMap<(usize, u32), FaultKind>,
    pub faults_on: bool,
    nfaults: u32,
    pub stalls: u32,
    pub hash_seed: u64,
    pub cpus: u32,
    pub env: Env,
    /// inodes of another file system than the rest
    pub mounted: HashSet<Ino>,
    /// changes applied just before the n-th file operation (reference runs)
    pub inject: Vec<(u32, Step)>,
    pub total_fsops: u64,
    pub max_points: u64,
    pub max_fsops: u64,
    /// what one call may take
    pub call_points: u64,
    pub call_fsops: u32,
    done_word: AtomicU32,
    pub viol: bool,
}

fn futex_wait(w: &AtomicU32, val: u32) {
    unsafe {
        raw::syscall6(libc::SYS_futex, w as *const _ as usize, 128, val as usize, 0, 0, 0);
    }
}
fn futex_wake(w: &AtomicU32) {
    unsafe {
        raw::syscall6(libc::SYS_futex, w as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw::syscall6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

impl Sim {
    pub fn new(shm: &'static Shm, sc: &Scenario, ntasks: usize) -> Sim {
        let base = Rng::new(sc.run_seed);
        let mut explicit = HashMap::new();
        let mut explicit_next = vec![vec![]; ntasks + 32];
        if sc.sched == Sched::Explicit {
            for s in &sc.switches {
                explicit.insert((s.task, s.at), s.to);
                if s.task < explicit_next.len() {
                    explicit_next[s.task].push(s.at);
                }
            }
            for v in &mut explicit_next {
                v.sort_unstable_by(|a, b| b.cmp(a)); // popped from the end
            }
        }
        let mut rng_s = base.sub(1);
        let p_fs = match &sc.sched {
            Sched::Random { p_fs, .. } | Sched::Points { p_fs, .. } => *p_fs,
            _ => 0.0,
        };
        if let Sched::Points { k, horizon, .. } = &sc.sched {
            // preemption points drawn up front, per task
            for v in explicit_next.iter_mut().take(ntasks) {
                *v = (0..*k).map(|_| 1 + rng_s.next() % (*horizon).max(1)).collect();
                v.sort_unstable_by(|a, b| b.cmp(a));
                v.dedup();
            }
        }
        let mut s = Sim {
            shm,
            tasks: vec![],
            cur: 0,
            sched_on: false,
            sched: sc.sched.clone(),
            rng_s,
            rng_f: base.sub(2),
            p_fs,
            explicit,
            explicit_next,
            preempts: 0,
            max_preempts: 3000,
            vfs: sc.vfs(),
            version: 0,
            clock: sc.clock.saturating_add(sc.env.clock),
            mono: 1_000_000_000,
            seq: 0,
            fds: BTreeMap::new(),
            next_fd: 1_000_000,
            futexq: vec![],
            fault_cfg: sc.fault_cfg.clone(),
            faults: sc.faults.iter().map(|f| ((f.task, f.n), f.kind.clone())).collect(),
            faults_on: true,
            nfaults: 0,
            stalls: 0,
            hash_seed: sc.hash_seed,
            cpus: if sc.env.cpus > 0 { sc.env.cpus } else { sc.cpus },
            env: sc.env.clone(),
            mounted: HashSet::new(),
            inject: vec![],
            total_fsops: 0,
            max_points: 400_000_000,
            call_points: 60_000_000,
            max_fsops: 1_000_000,
            call_fsops: 60_000,
            done_word: AtomicU32::new(0),
            viol: false,
        };
        if !sc.env.mount.is_empty() {
            s.mounted = s.vfs.beneath(&sc.env.mount);
        }
        for _ in 0..ntasks {
            s.add_task();
        }
        s
    }

    /// one task, no scheduling, no faults
    pub fn empty(shm: &'static Shm, vfs: Vfs, clock: i64, hash_seed: u64, cpus: u32) -> Sim {
        let sc = Scenario {
            property: String::new(),
            profile: String::new(),
            seed: 0,
            index: 0,
            run_seed: 0,
            hash_seed,
            cpus,
            clock,
            nodes: vec![],
            caches: 0,
            resolvers: vec![],
            tasks: vec![],
            sched: Sched::Serial,
            fault_cfg: FaultCfg::default(),
            faults: vec![],
            switches: vec![],
            alt_hash_seeds: vec![],
            traced: false,
            env: Env::default(),
            alt_envs: vec![],
        };
        let mut s = Sim::new(shm, &sc, 1);
        s.vfs = vfs;
        s
    }

    /// forget what building the resolvers did
    pub fn started(&mut self) {
        self.total_fsops = 0;
        for i in 0..self.tasks.len() {
            self.tasks[i].points = 0;
            self.tasks[i].fsops = 0;
        }
        self.next_fd = 1_000_000;
    }

    pub fn add_task(&mut self) -> usize {
        let i = self.tasks.len();
        self.tasks.push(Task {
            st: St::Ready,
            deadline: None,
            timed_out: false,
            baton: Box::new(AtomicU32::new(0)),
            points: 0,
            next_at: 0,
            fsops: 0,
            switched: 0,
            burst: 0,
            pthread: 0,
            hash_ctr: 0,
            panic: String::new(),
            call: Call::default(),
            of: None,
        });
        self.set_next(i);
        i
    }

    /// decide when task t is preempted next
    fn set_next(&mut self, t: usize) {
        let cap = self.tasks[t].points + 1_000_000; // look at the budget at least this often
        let p = self.tasks[t].points;
        let at = match &self.sched {
            Sched::Serial => cap,
            Sched::Random { mean, .. } => {
                if self.preempts > self.max_preempts {
                    cap
                } else {
                    p + self.rng_s.geometric(*mean)
                }
            }
            Sched::Points { .. } | Sched::Explicit => {
                if t >= self.explicit_next.len() {
                    cap
                } else {
                    let v = &mut self.explicit_next[t];
                    while v.last().map_or(false, |x| *x <= p) {
                        v.pop();
                    }
                    v.last().copied().unwrap_or(cap)
                }
            }
        };
        self.tasks[t].next_at = at.min(cap);
    }

    pub fn violation(&mut self, kind: &str, text: String) {
        self.viol = true;
        self.shm.push(&Ev::Viol { kind: kind.into(), text });
    }

    fn die(&mut self) -> ! {
        self.finish_event();
        self.shm.hdr().finished.store(1, SeqCst);
        exit_now(0)
    }

    pub fn finish_event(&mut self) {
        let points = self.tasks.iter().map(|t| t.points).sum();
        self.shm.push(&Ev::Done {
            clock: self.clock,
            points,
            fsops: self.total_fsops,
            switches: self.preempts,
            stalls: self.stalls,
        });
    }

    fn budget(&mut self) {
        let over = self.tasks.iter().any(|t| {
            t.call.active && (t.points - t.call.p0 > self.call_points || t.fsops - t.call.fs0 + t.call.yields > self.call_fsops)
        });
        let points: u64 = self.tasks.iter().map(|t| t.points).sum();
        if over || points > self.max_points || self.total_fsops > self.max_fsops {
            let who: Vec<String> = self
                .tasks
                .iter()
                .enumerate()
                .filter(|(_, t)| t.call.active)
                .map(|(i, t)| format!("task {i}: {} file operations, {} steps, {} yields in its call", t.fsops - t.call.fs0, t.points - t.call.p0, t.call.yields))
                .collect();
            let hung: Vec<usize> = (0..self.tasks.len()).filter(|&i| self.tasks[i].st == St::Stalled).collect();
            if over && !hung.is_empty() {
                // working on, or spinning, for as long as others hang
                self.violation("held-up", format!("step budget exhausted while file operations of task(s) {hung:?} hang; {}", who.join("; ")));
                self.die();
            }
            self.violation(if over { "livelock" } else { "long" }, format!("step budget exhausted; {}", who.join("; ")));
            self.die();
        }
    }

    // ---------------------------------------------------------------- scheduling

    fn others(&self, t: usize) -> Vec<usize> {
        (0..self.tasks.len()).filter(|&i| i != t && self.tasks[i].st == St::Ready).collect()
    }

    /// A preemption opportunity of the running task; called when points >= next_at.
    #[cold]
    pub fn preempt(&mut self, t: usize) {
        self.budget();
        if !self.sched_on {
            self.tasks[t].next_at = self.tasks[t].points + 1_000_000;
            return;
        }
        let p = self.tasks[t].points;
        match self.sched {
            Sched::Serial => {}
            Sched::Random { .. } => {
                if self.preempts <= self.max_preempts {
                    self.preempt_random(t);
                }
            }
            Sched::Points { .. } => {
                if self.explicit_next.get(t).map_or(false, |v| v.last() == Some(&p)) {
                    self.preempt_random(t);
                }
            }
            Sched::Explicit => {
                if let Some(&to) = self.explicit.get(&(t, p)) {
                    if to != t && to < self.tasks.len() && self.tasks[to].st == St::Ready {
                        self.preempts += 1;
                        self.shm.push_switch(t, p, to);
                        self.switch(t, to);
                    }
                }
            }
        }
        self.set_next(t);
    }

    fn preempt_random(&mut self, t: usize) {
        let o = self.others(t);
        if !o.is_empty() {
            let to = *self.rng_s.pick(&o);
            self.preempts += 1;
            self.shm.push_switch(t, self.tasks[t].points, to);
            self.switch(t, to);
        }
    }

    /// A scheduling point that is not a basic block (file operation, lock operation, change of the tree).
    pub fn point(&mut self, t: usize, p: f64) {
        self.tasks[t].points += 1;
        if self.sched_on {
            match self.sched {
                Sched::Random { .. } | Sched::Points { .. } => {
                    if self.preempts <= self.max_preempts && self.rng_s.chance(p) {
                        self.preempt_random(t);
                        return;
                    }
                }
                _ => {}
            }
        }
        if self.tasks[t].points >= self.tasks[t].next_at {
            self.preempt(t);
        }
    }

    fn switch(&mut self, from: usize, to: usize) {
        self.tasks[from].switched += 1;
        self.hand_over(to);
        self.wait_baton(from);
    }

    fn hand_over(&mut self, to: usize) {
        self.cur = to;
        let w: *const AtomicU32 = &*self.tasks[to].baton;
        unsafe {
            (*w).store(1, SeqCst);
            futex_wake(&*w);
        }
    }

    fn wait_baton(&self, t: usize) {
        let w: *const AtomicU32 = &*self.tasks[t].baton;
        unsafe {
            while (*w).swap(0, SeqCst) == 0 {
                futex_wait(&*w, 0);
            }
        }
    }

    /// The running task cannot go on: give the baton to somebody else, return when it comes back.
    fn block(&mut self, t: usize) {
        self.tasks[t].points += 1;
        let to = self.choose(t);
        if to != t {
            self.switch(t, to);
        }
        self.set_next(t);
    }

    /// pick a runnable task, making one runnable if need be
    fn choose(&mut self, t: usize) -> usize {
        loop {
            let ready: Vec<usize> = (0..self.tasks.len()).filter(|&i| self.tasks[i].st == St::Ready).collect();
            if !ready.is_empty() {
                let at = self.tasks[t].points;
                let to = match self.sched {
                    Sched::Random { .. } | Sched::Points { .. } => *self.rng_s.pick(&ready),
                    Sched::Explicit => match self.explicit.get(&(t, at)) {
                        Some(to) if ready.contains(to) => *to,
                        _ => ready[0],
                    },
                    Sched::Serial => ready[0],
                };
                self.shm.push_switch(t, at, to);
                return to;
            }
            self.idle();
        }
    }

    /// nobody is runnable
    fn idle(&mut self) {
        // virtual time: jump to the next deadline
        let mut best: Option<(i64, usize)> = None;
        for (i, t) in self.tasks.iter().enumerate() {
            if let (Some(d), true) = (t.deadline, matches!(t.st, St::Futex(_) | St::Sleep)) {
                if best.map_or(true, |b| d < b.0) {
                    best = Some((d, i));
                }
            }
        }
        if let Some((d, i)) = best {
            if d > self.mono {
                self.clock += d - self.mono;
                self.mono = d;
            }
            if let St::Futex(_) = self.tasks[i].st {
                self.tasks[i].timed_out = true;
                self.futexq.retain(|q| q.1 != i);
            }
            self.tasks[i].deadline = None;
            self.tasks[i].st = St::Ready;
            return;
        }
        let stalled: Vec<usize> = (0..self.tasks.len()).filter(|&i| self.tasks[i].st == St::Stalled).collect();
        let blocked: Vec<usize> =
            (0..self.tasks.len()).filter(|&i| matches!(self.tasks[i].st, St::Futex(_) | St::Join(_))).collect();
        if !stalled.is_empty() {
            if !blocked.is_empty() {
                self.violation(
                    "held-up",
                    format!("task(s) {blocked:?} wait for task(s) {stalled:?} whose file operation hangs"),
                );
            }
            for i in stalled {
                self.tasks[i].st = St::Ready;
            }
            return;
        }
        if !blocked.is_empty() {
            self.violation("deadlock", format!("task(s) {blocked:?} wait for locks nobody will release"));
            self.die();
        }
        // only barriers left: release them
        let mut any = false;
        for t in &mut self.tasks {
            if t.st == St::Barrier {
                t.st = St::Ready;
                any = true;
            }
        }
        if !any {
            self.violation("harness", "nothing to run".into());
            self.die();
        }
    }

    pub fn barrier(&mut self, t: usize) {
        self.tasks[t].st = St::Barrier;
        self.block(t);
    }

    pub fn yield_now(&mut self, t: usize) {
        self.tasks[t].call.yields += 1; // spinning counts against the budget
        self.total_fsops += 1;
        self.budget();
        if !self.sched_on {
            return;
        }
        self.tasks[t].points += 1;
        let o = self.others(t);
        let at = self.tasks[t].points;
        if o.is_empty() {
            // spinning on somebody who cannot run: let time or stalls make progress
            if self.tasks.iter().enumerate().any(|(i, x)| i != t && matches!(x.st, St::Stalled)) {
                self.tasks[t].burst += 1;
                if self.tasks[t].burst > 200 {
                    self.tasks[t].burst = 0;
                    self.violation("held-up", format!("task {t} spins on a task whose file operation hangs"));
                    for x in &mut self.tasks {
                        if x.st == St::Stalled {
                            x.st = St::Ready;
                        }
                    }
                }
            }
            return;
        }
        let to = match self.sched {
            Sched::Explicit => match self.explicit.get(&(t, at)) {
                Some(to) if o.contains(to) => *to,
                _ => o[0],
            },
            Sched::Serial => o[0],
            _ => *self.rng_s.pick(&o),
        };
        self.shm.push_switch(t, at, to);
        self.switch(t, to);
        self.set_next(t);
    }

    pub fn sleep(&mut self, t: usize, ns: i64) {
        self.tasks[t].deadline = Some(self.mono + ns.max(0));
        if !self.sched_on {
            self.mono += ns.max(0);
            self.clock += ns.max(0);
            self.tasks[t].deadline = None;
            return;
        }
        self.tasks[t].st = St::Sleep;
        self.block(t);
        self.tasks[t].deadline = None;
    }

    // ---------------------------------------------------------------- futexes

    /// returns 0 or an errno
    pub fn futex_wait(&mut self, t: usize, addr: usize, val: u32, deadline: Option<i64>, bitset: u32) -> i32 {
        let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
        if cur != val {
            return libc::EAGAIN;
        }
        if !self.sched_on {
            if deadline.is_some() {
                return libc::ETIMEDOUT;
            }
            self.violation("deadlock", "a single caller waits for a lock nobody will release".into());
            self.die();
        }
        self.tasks[t].st = St::Futex(addr);
        self.tasks[t].deadline = deadline;
        self.tasks[t].timed_out = false;
        self.futexq.push((addr, t, bitset));
        self.block(t);
        self.tasks[t].deadline = None;
        if std::mem::take(&mut self.tasks[t].timed_out) {
            return libc::ETIMEDOUT;
        }
        0
    }

    pub fn futex_wake(&mut self, t: usize, addr: usize, n: u32, bitset: u32) -> u32 {
        let mut woken = 0;
        let mut i = 0;
        while i < self.futexq.len() && woken < n {
            let (a, w, b) = self.futexq[i];
            if a == addr && (b & bitset) != 0 {
                self.futexq.remove(i);
                self.tasks[w].st = St::Ready;
                woken += 1;
            } else {
                i += 1;
            }
        }
        if woken > 0 {
            self.point(t, self.p_fs);
        }
        woken
    }

    // ---------------------------------------------------------------- tasks

    pub fn task_begin(&mut self, t: usize) {
        TID.set(t as u32 + 1);
        self.wait_baton(t);
    }

    pub fn task_end(&mut self, t: usize) {
        self.tasks[t].st = St::Done;
        for x in &mut self.tasks {
            if x.st == St::Join(t) {
                x.st = St::Ready;
            }
        }
        TID.set(0);
        self.tasks[t].points += 1;
        if self.tasks.iter().all(|x| x.st == St::Done) {
            self.done_word.store(1, SeqCst);
            futex_wake(&self.done_word);
            return;
        }
        let to = self.choose(t);
        self.hand_over(to);
    }

    pub fn join(&mut self, t: usize, other: usize) {
        if self.tasks[other].st != St::Done {
            self.tasks[t].st = St::Join(other);
            self.block(t);
        }
    }

    /// controller: start task 0..n and wait for the end
    pub fn run(&mut self) {
        self.sched_on = true;
        let n = self.tasks.len();
        let first = match self.sched {
            Sched::Random { .. } | Sched::Points { .. } => self.rng_s.below(n),
            Sched::Explicit => *self.explicit.get(&(9999, 0)).unwrap_or(&0),
            Sched::Serial => 0,
        };
        self.shm.push_switch(9999, 0, first);
        self.hand_over(first.min(n - 1));
        while self.done_word.load(SeqCst) == 0 {
            futex_wait(&self.done_word, 0);
        }
        self.sched_on = false;
    }

    // ---------------------------------------------------------------- file operations

    /// Entry of every file operation: scheduling point, then possibly a fault.
    pub fn fsop(&mut self, t: usize, class: Class, path: &str) -> Option<FaultKind> {
        self.total_fsops += 1;
        self.tasks[t].fsops += 1;
        self.clock += 1000;
        self.mono += 1000;
        let n = self.tasks[t].fsops;
        if let Some((caller, id)) = self.tasks[t].of {
            if self.tasks[caller].call.id != id && !self.tasks.iter().any(|x| x.call.active) {
                self.tasks[t].of = None;
                self.violation("after", format!("a thread that a call of task {caller} had started looks at {path} after it"));
            }
        }
        if self.total_fsops > self.max_fsops || n - self.tasks[t].call.fs0 > self.call_fsops {
            self.budget();
        }
        if !self.inject.is_empty() {
            let mut i = 0;
            while i < self.inject.len() {
                if self.inject[i].0 == n {
                    let (_, st) = self.inject.remove(i);
                    let _ = self.vfs.apply(&st, &mut self.clock);
                } else {
                    i += 1;
                }
            }
        }
        self.point(t, self.p_fs);
        if !self.tasks[t].call.active {
            return None;
        }
        let mut f = self.faults.get(&(t, n)).cloned();
        if f.is_none() && self.faults_on && self.fault_cfg.p > 0.0 && self.sched != Sched::Explicit {
            f = self.draw_fault(t, class, path);
        }
        match f {
            None => {
                self.tasks[t].burst = 0;
                None
            }
            Some(FaultKind::Stall) => {
                if self.sched_on {
                    self.shm.push_fault(&Fault { task: t, n, kind: FaultKind::Stall });
                    self.stalls += 1;
                    self.tasks[t].st = St::Stalled;
                    self.block(t);
                }
                None
            }
            Some(k) => {
                let ok = match (&k, class) {
                    (FaultKind::Short(_), Class::Read) => true,
                    (FaultKind::Short(_), _) => false,
                    (FaultKind::Errno(e), c) if *e == libc::EINTR => matches!(c, Class::Open | Class::Read),
                    _ => true,
                };
                if !ok {
                    return None;
                }
                self.shm.push_fault(&Fault { task: t, n, kind: k.clone() });
                self.nfaults += 1;
                let e = if let FaultKind::Errno(e) = k { e } else { 0 };
                self.tasks[t].call.faults.push((path.to_string(), class, e));
                Some(k)
            }
        }
    }

    fn draw_fault(&mut self, t: usize, class: Class, path: &str) -> Option<FaultKind> {
        let c = &self.fault_cfg;
        if !c.classes.contains(&class) || self.nfaults >= c.max {
            return None;
        }
        if !c.suffixes.is_empty() && !c.suffixes.iter().any(|s| path.ends_with(s.as_str())) {
            return None;
        }
        if !self.rng_f.chance(c.p) {
            return None;
        }
        if class == Class::Read && c.short && (c.errnos.is_empty() || self.rng_f.chance(0.5)) {
            let n = if self.rng_f.chance(0.3) { 1 } else { 1 + self.rng_f.below(40) as u32 };
            return Some(FaultKind::Short(n));
        }
        if c.errnos.is_empty() {
            return None;
        }
        let e = *self.rng_f.pick(&c.errnos);
        if e == libc::EINTR {
            if !matches!(class, Class::Open | Class::Read) || self.tasks[t].burst >= c.burst {
                return None;
            }
            self.tasks[t].burst += 1;
        }
        Some(FaultKind::Errno(e))
    }

    pub fn open(&mut self, t: usize, path: &[u8], flags: i32) -> Result<i32, i32> {
        let ps = String::from_utf8_lossy(path).into_owned();
        if let Some(FaultKind::Errno(e)) = self.fsop(t, Class::Open, &ps) {
            return Err(e);
        }
        let acc = flags & libc::O_ACCMODE;
        if acc != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 {
            self.violation("write", format!("open for writing of {ps}"));
            return Err(libc::EROFS);
        }
        let r = self.vfs.lookup(path, flags & libc::O_NOFOLLOW == 0);
        match r {
            Ok(ino) => {
                if self.vfs.node(ino).deny {
                    self.tasks[t].call.denied.push(ps);
                    return Err(libc::EACCES);
                }
                if matches!(self.vfs.node(ino).kind, Kind::Special) {
                    return Err(libc::ENXIO);
                }
                let is_dir = matches!(self.vfs.node(ino).kind, Kind::Dir(_));
                if flags & libc::O_DIRECTORY != 0 && !is_dir {
                    return Err(libc::ENOTDIR);
                }
                self.next_fd += 1;
                let fd = self.next_fd;
                if !is_dir {
                    self.tasks[t].call.opens.push(ps.clone());
                }
                self.tasks[t].call.fds += 1;
                self.fds.insert(fd, Fd { ino, pos: 0, task: t, path: ps });
                Ok(fd)
            }
            Err(e) => {
                if e == libc::EACCES {
                    self.tasks[t].call.denied.push(ps);
                }
                Err(e)
            }
        }
    }

    pub fn read(&mut self, t: usize, fd: i32, buf: &mut [u8], at: Option<usize>) -> Result<usize, i32> {
        let path = match self.fds.get(&fd) {
            Some(f) => f.path.clone(),
            None => return Err(libc::EBADF),
        };
        let mut limit = buf.len();
        match self.fsop(t, Class::Read, &path) {
            Some(FaultKind::Errno(e)) => return Err(e),
            Some(FaultKind::Short(n)) => limit = limit.min(n as usize),
            _ => {}
        }
        let f = match self.fds.get(&fd) {
            Some(f) => f,
            None => return Err(libc::EBADF),
        };
        let (ino, pos) = (f.ino, at.unwrap_or(f.pos));
        let data = match &self.vfs.node(ino).kind {
            Kind::File(d) => d.clone(),
            Kind::Dir(_) => return Err(libc::EISDIR),
            Kind::Link(_) => return Err(libc::ELOOP),
            Kind::Special => return Err(libc::EINVAL),
        };
        let n = data.len().saturating_sub(pos).min(limit);
        buf[..n].copy_from_slice(&data[pos.min(data.len())..pos.min(data.len()) + n]);
        if at.is_none() {
            self.fds.get_mut(&fd).unwrap().pos = pos + n;
        }
        Ok(n)
    }

    pub fn dup(&mut self, fd: i32) -> Result<i32, i32> {
        let f = self.fds.get(&fd).ok_or(libc::EBADF)?;
        let f = Fd { ino: f.ino, pos: f.pos, task: f.task, path: f.path.clone() };
        self.tasks[f.task].call.fds += 1;
        self.next_fd += 1;
        self.fds.insert(self.next_fd, f);
        Ok(self.next_fd)
    }

    // ---------------------------------------------------------------- calls and changes

    pub fn call_begin(&mut self, t: usize, op: usize) {
        self.point(t, self.p_fs);
        self.seq += 1;
        let (fs0, p0, sw0) = (self.tasks[t].fsops, self.tasks[t].points, self.tasks[t].switched);
        self.tasks[t].call = Call { active: true, id: self.seq, fs0, p0, sw0, ..Default::default() };
        self.shm.push(&Ev::Start { t, op, ver: self.version, seq: self.seq });
    }

    pub fn call_end(&mut self, t: usize, op: usize, res: String) {
        self.seq += 1;
        let call = std::mem::take(&mut self.tasks[t].call);
        self.shm.push(&Ev::End {
            t,
            op,
            ver: self.version,
            seq: self.seq,
            res,
            faults: call.faults,
            ops: self.tasks[t].fsops - call.fs0,
            points: self.tasks[t].points - call.p0,
            live: crate::heap::live(),
            opens: call.opens,
            denied: call.denied,
            leaked: call.fds.max(0) as u32,
            switched: self.tasks[t].switched - call.sw0,
        });
        self.point(t, self.p_fs);
    }

    pub fn mutate(&mut self, t: usize, op: usize, step: usize, st: &Step) {
        self.point(t, self.p_fs);
        self.clock += 1000;
        self.mono += 1000;
        self.vfs.pinned = self.fds.values().map(|f| f.ino).collect();
        let ok = self.vfs.apply(st, &mut self.clock).is_ok();
        self.version += 1;
        self.shm.push(&Ev::Mut { t, op, step, ver: self.version, clock: self.clock, ok });
        self.point(t, self.p_fs);
    }

    pub fn close(&mut self, fd: i32) {
        if let Some(f) = self.fds.remove(&fd) {
            self.tasks[f.task].call.fds -= 1;
        }
    }
}

static mut EDGES: u32 = 0;
/// how many basic-block edges carry a callback
pub fn edges() -> u32 {
    unsafe { EDGES }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        if start == stop || *start != 0 {
            return;
        }
        while p < stop {
            EDGES += 1;
            *p = EDGES.min(crate::shm::COV_CAP as u32 - 1);
            p = p.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let tid = ACTIVE.get();
    if tid == 0 {
        return;
    }
    unsafe {
        *crate::shm::COV.add(*guard as usize) = 1;
        let s = &mut *SIM;
        let t = s.tasks.get_unchecked_mut(tid as usize - 1);
        t.points += 1;
        if t.points >= t.next_at {
            ACTIVE.set(0);
            s.preempt(tid as usize - 1);
            ACTIVE.set(tid);
        }
    }
}
