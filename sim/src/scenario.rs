//! A scenario is everything that determines one run: the tree, the resolvers, what every task does,
//! and how scheduling and fault decisions are made (drawn from a seed, or given explicitly).

use crate::vfs::{Bytes, Step};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    Dir { path: String },
    File { path: String, data: Bytes, mtime: i64 },
    Link { path: String, target: String },
    /// a further name of a file that stands earlier in the list
    Hard { path: String, target: String },
    /// a socket
    Special { path: String },
    /// a directory that may not be entered
    Closed { path: String },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ROpts {
    pub extensions: Vec<String>,
    pub enforce_extension: Option<bool>,
    /// (from, Some(to)) or (from, None) for "ignored"
    pub alias: Vec<(String, Option<String>)>,
    pub prefer_relative: bool,
    pub symlinks: bool,
    pub description_file: Option<String>,
    pub main_files: Vec<String>,
    pub main_fields: Vec<String>,
    pub browser_field: bool,
    pub condition_names: Vec<String>,
    pub tsconfig: Option<String>,
    /// index of the external cache it uses, if any
    pub cache: Option<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Resolve { r: usize, path: String, req: String },
    Side { r: usize, path: String },
    /// each step is one atomic change of the tree
    Mutate { steps: Vec<Step> },
    /// wait until every other task is here, too (or done)
    Barrier,
    /// no more faults from here on
    FaultsOff,
    /// from here on, a newly made resolver with the same options (and external cache) stands in for
    /// this one, which is dropped when its last call has returned
    Renew { r: usize },
    /// the host does something to the cache (a shared one), or with the resolver
    Upkeep { r: usize, what: Upkeep },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Upkeep {
    /// forgets all description files
    Packages,
    /// forgets what had been parsed from `exports`
    Exports,
    Imports,
    All,
    /// forgets some description files: one in so many
    Some(u64),
    /// forgets description files of directories which are gone (looked up with the map locked)
    Gone,
    /// goes through the cache, looking at each directory
    Walk,
    /// prints resolver and cache
    Show,
    /// a copy of the cache, with which the resolver is made anew
    Copy,
    /// the resolver is made anew from its own options
    Like,
    /// the resolver is made anew with an empty cache
    Empty,
    /// nothing, for so many steps
    Idle(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    Errno(i32),
    /// read returns at most this many bytes
    Short(u32),
    /// the operation hangs until nobody else can make progress
    Stall,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Class {
    Stat,
    Open,
    Read,
    Fstat,
    Realpath,
    Other,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub task: usize,
    /// n-th file operation of that task
    pub n: u32,
    pub kind: FaultKind,
}

/// Randomly placed faults: every operation of a listed class on a matching path fails with probability p.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct FaultCfg {
    pub p: f64,
    pub classes: Vec<Class>,
    pub errnos: Vec<i32>,
    pub short: bool,
    /// only paths ending in one of these (empty: all)
    pub suffixes: Vec<String>,
    pub max: u32,
    /// maximal number of consecutive EINTRs
    pub burst: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Switch {
    pub task: usize,
    /// scheduling point of that task, counted from 1
    pub at: u64,
    pub to: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sched {
    /// no preemption: tasks run in order, switching only when one blocks or ends
    Serial,
    /// preempt after a geometric number of basic blocks, and at file operations with probability p_fs
    Random { mean: f64, p_fs: f64 },
    /// a few preemption points, spread over an estimated run length
    Points { k: usize, horizon: u64, p_fs: f64 },
    /// replay: exactly these switches
    Explicit,
}

/// What surrounds a process and has nothing to do with its question.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Env {
    pub vars: Vec<(String, String)>,
    /// what every other variable is set to that a call asks for (empty: it is not set)
    #[serde(default)]
    pub any_var: String,
    /// working directory (empty: the usual one)
    pub cwd: String,
    pub cpus: u32,
    pub pid: i32,
    /// added to the clock
    pub clock: i64,
    /// seeds the time stamps of all files (0: as they are)
    pub times: u64,
    /// inode numbers are shown as number * ino_mul + ino_add
    pub ino_mul: u64,
    pub ino_add: u64,
    pub dev: u64,
    /// directory where another file system begins (empty: nowhere)
    #[serde(default)]
    pub mount: String,
    /// what the callers' threads are called
    #[serde(default)]
    pub thread: String,
    /// where the executable is (empty: nowhere to be found)
    #[serde(default)]
    pub exe: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub property: String,
    /// which build runs it: dev (debug assertions on) or release
    #[serde(default)]
    pub profile: String,
    pub seed: u64,
    pub index: u64,
    /// decides everything drawn during the run
    pub run_seed: u64,
    pub hash_seed: u64,
    pub cpus: u32,
    pub clock: i64,
    pub nodes: Vec<Node>,
    pub caches: usize,
    pub resolvers: Vec<ROpts>,
    pub tasks: Vec<Vec<Op>>,
    pub sched: Sched,
    pub fault_cfg: FaultCfg,
    /// explicit faults (always applied)
    pub faults: Vec<Fault>,
    /// explicit switches (with Sched::Explicit)
    pub switches: Vec<Switch>,
    /// further hash seeds the answers are compared under
    #[serde(default)]
    pub alt_hash_seeds: Vec<u64>,
    /// somebody records all that the library tells about its doings
    #[serde(default)]
    pub traced: bool,
    #[serde(default)]
    pub env: Env,
    /// further surroundings the answers are compared under
    #[serde(default)]
    pub alt_envs: Vec<Env>,
}

impl Scenario {
    pub fn vfs(&self) -> crate::vfs::Vfs {
        let mut v = crate::vfs::Vfs::new(self.clock);
        let mut clock = self.clock;
        let _ = v.mkdirs(crate::vfs::CWD, self.clock);
        let mut closed = vec![];
        for n in &self.nodes {
            let (path, step) = match n {
                Node::Dir { path } => {
                    let _ = v.mkdirs(path, self.clock);
                    continue;
                }
                Node::File { path, data, mtime } => {
                    (path, Step::Replace { path: path.clone(), data: data.clone(), mtime: *mtime })
                }
                Node::Link { path, target } => {
                    (path, Step::Link { path: path.clone(), target: target.clone() })
                }
                Node::Hard { path, target } => (path, Step::Hard { path: path.clone(), target: target.clone() }),
                Node::Special { path } => (path, Step::Special { path: path.clone() }),
                Node::Closed { path } => {
                    closed.push(path.clone());
                    continue;
                }
            };
            if let Some(i) = path.rfind('/') {
                let _ = v.mkdirs(&path[..i], self.clock);
            }
            let _ = v.apply(&step, &mut clock);
        }
        for path in closed {
            let _ = v.apply(&Step::Chmod { path, deny: true }, &mut clock);
        }
        v.filling = false;
        if self.env.times != 0 {
            v.restamp(self.env.times);
        }
        if !self.env.cwd.is_empty() {
            v.cwd = self.env.cwd.clone();
        }
        v
    }
}

/// What a run leaves behind, in order.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Start { t: usize, op: usize, ver: u32, seq: u64 },
    End {
        t: usize,
        op: usize,
        ver: u32,
        seq: u64,
        res: String,
        /// failures injected into this call: path and errno (0: short read)
        faults: Vec<(String, Class, i32)>,
        ops: u32,
        points: u64,
        /// bytes allocated by calls so far and not freed
        #[serde(default)]
        live: i64,
        /// successfully opened paths
        opens: Vec<String>,
        /// paths whose open failed without an injected fault
        denied: Vec<String>,
        leaked: u32,
        /// scheduling: was it ever switched away from
        switched: u32,
    },
    Mut { t: usize, op: usize, step: usize, ver: u32, clock: i64, ok: bool },
    /// something the kernel itself noticed
    Viol { kind: String, text: String },
    Done { clock: i64, points: u64, fsops: u64, switches: u64, stalls: u32 },
}
