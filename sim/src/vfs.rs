//! The in-memory file system the simulated callers see.  Cheap to clone (snapshots).

use libc::{EACCES, EEXIST, EISDIR, ELOOP, ENAMETOOLONG, ENOENT, ENOTDIR};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Ino = usize;
pub type Errno = i32;
pub const CWD: &str = "/w/app";

/// bytes, written as a string with one char per byte (latin-1)
#[derive(Clone, PartialEq, Eq)]
pub struct Bytes(pub Vec<u8>);
impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", String::from_utf8_lossy(&self.0))
    }
}
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.iter().map(|b| *b as char).collect::<String>())
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(Bytes(s.chars().map(|c| c as u32 as u8).collect()))
    }
}
impl From<&str> for Bytes {
    fn from(s: &str) -> Self {
        Bytes(s.as_bytes().to_vec())
    }
}
impl From<String> for Bytes {
    fn from(s: String) -> Self {
        Bytes(s.into_bytes())
    }
}

/// A byte of a name that is not valid UTF-8 (0xff) is written as this character inside the simulator.
pub const RAW: char = '\u{f7ff}';
const RAW_UTF8: &[u8] = "\u{f7ff}".as_bytes();

pub fn from_os(p: &[u8]) -> Cow<'_, [u8]> {
    if !p.contains(&0xff) {
        return Cow::Borrowed(p);
    }
    let mut v = vec![];
    for b in p {
        if *b == 0xff {
            v.extend_from_slice(RAW_UTF8);
        } else {
            v.push(*b);
        }
    }
    Cow::Owned(v)
}
pub fn to_os(p: &[u8]) -> Cow<'_, [u8]> {
    if !p.windows(3).any(|w| w == RAW_UTF8) {
        return Cow::Borrowed(p);
    }
    let mut v = vec![];
    let mut i = 0;
    while i < p.len() {
        if p[i..].starts_with(RAW_UTF8) {
            v.push(0xff);
            i += 3;
        } else {
            v.push(p[i]);
            i += 1;
        }
    }
    Cow::Owned(v)
}

#[derive(Clone, Debug)]
pub enum Kind {
    File(Arc<Vec<u8>>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
    /// a socket: there, but neither file nor directory
    Special,
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    /// nanoseconds since the epoch
    pub mtime: i64,
    /// cannot be opened (EACCES) or, for a directory, entered
    pub deny: bool,
    /// the inode number; numbers are used again once nothing has them any more
    pub num: u64,
    pub born: i64,
    pub changed: i64,
}

#[derive(Clone)]
pub struct Vfs {
    nodes: Vec<Arc<Inode>>,
    now: i64,
    /// held open by somebody
    pub pinned: Vec<Ino>,
    /// being built: numbers are handed out in order
    pub filling: bool,
    pub cwd: String,
}

/// One atomic change of the tree: one "version".
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// contents replaced in place (file created if missing)
    Write { path: String, data: Bytes, mtime: i64 },
    Trunc { path: String, mtime: i64 },
    Append { path: String, data: Bytes, mtime: i64 },
    /// new file renamed over the old one
    Replace { path: String, data: Bytes, mtime: i64 },
    Unlink { path: String },
    Mkdir { path: String },
    RmTree { path: String },
    Rename { from: String, to: String },
    /// symbolic link, replacing whatever non-directory is there
    Link { path: String, target: String },
    Touch { path: String, mtime: i64 },
    Chmod { path: String, deny: bool },
    /// a further name of a file
    Hard { path: String, target: String },
    /// something that is neither file nor directory
    Special { path: String },
    /// wall clock jump (nanoseconds, may be negative)
    Clock { delta: i64 },
    /// the process goes to another directory
    Chdir { path: String },
}

pub struct Walk {
    /// canonical components and inodes from the root (exclusive) down
    pub stack: Vec<(Vec<u8>, Ino)>,
}

impl Vfs {
    pub fn new(mtime: i64) -> Self {
        let root = Inode { kind: Kind::Dir(BTreeMap::new()), mtime, deny: false, num: 2, born: mtime, changed: mtime };
        Vfs { nodes: vec![Arc::new(root)], now: mtime, pinned: vec![], filling: true, cwd: CWD.into() }
    }

    /// a directory and all that is in it
    pub fn beneath(&self, dir: &str) -> std::collections::HashSet<Ino> {
        let mut all = std::collections::HashSet::new();
        let mut todo: Vec<Ino> = self.lookup(dir.as_bytes(), true).into_iter().collect();
        while let Some(i) = todo.pop() {
            if all.insert(i) {
                if let Kind::Dir(e) = &self.nodes[i].kind {
                    todo.extend(e.values());
                }
            }
        }
        all
    }

    /// other time stamps for everything
    pub fn restamp(&mut self, seed: u64) {
        let mut r = crate::rng::Rng::new(seed);
        let mode = r.below(4);
        for n in &mut self.nodes {
            let n = Arc::make_mut(n);
            let mut t = || match mode {
                0 => 0,
                1 => 1_700_000_000_000_000_000,
                2 => (r.next() % 8_000_000_000_000_000_000) as i64 - 4_000_000_000_000_000_000,
                _ => 1_600_000_000_000_000_000 + (r.next() % 1_000_000_000_000) as i64,
            };
            n.mtime = t();
            n.born = t();
            n.changed = t();
        }
    }

    pub fn node(&self, i: Ino) -> &Inode {
        &self.nodes[i]
    }

    fn alloc(&mut self, kind: Kind, mtime: i64) -> Ino {
        let num = self.free_num();
        self.nodes.push(Arc::new(Inode { kind, mtime, deny: false, num, born: self.now, changed: self.now }));
        self.nodes.len() - 1
    }

    /// the lowest inode number that no reachable or open file has
    fn free_num(&self) -> u64 {
        if self.filling {
            return self.nodes.len() as u64 + 2;
        }
        let mut used = vec![false; self.nodes.len() + 1];
        let mut mark = |n: u64| {
            if let Some(x) = used.get_mut(n as usize - 2) {
                *x = true;
            }
        };
        let mut todo = vec![0];
        while let Some(i) = todo.pop() {
            mark(self.nodes[i].num);
            if let Kind::Dir(e) = &self.nodes[i].kind {
                todo.extend(e.values());
            }
        }
        for i in &self.pinned {
            mark(self.nodes[*i].num);
        }
        used.iter().position(|x| !x).unwrap() as u64 + 2
    }

    /// Resolves `path` like the kernel does.  Returns the stack of canonical components.
    pub fn walk(&self, path: &[u8], follow_last: bool) -> Result<Walk, Errno> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() > 4095 {
            return Err(ENAMETOOLONG);
        }
        let mut pending: Vec<Vec<u8>> = vec![]; // reversed
        let mut stack: Vec<(Vec<u8>, Ino)> = vec![];
        let mut must_be_dir = path.ends_with(b"/");
        let push = |p: &[u8], pending: &mut Vec<Vec<u8>>| {
            for c in p.split(|b| *b == b'/').rev() {
                if !c.is_empty() {
                    pending.push(c.to_vec());
                }
            }
        };
        push(path, &mut pending);
        if path[0] != b'/' {
            push(self.cwd.as_bytes(), &mut pending);
        }
        let mut links = 0;
        while let Some(c) = pending.pop() {
            let cur = stack.last().map_or(0, |x| x.1);
            let ents = match &self.nodes[cur].kind {
                Kind::Dir(e) => e,
                _ => return Err(ENOTDIR),
            };
            if self.nodes[cur].deny {
                return Err(EACCES);
            }
            if c == b"." {
                continue;
            }
            if c == b".." {
                stack.pop();
                continue;
            }
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let ino = *ents.get(&c).ok_or(ENOENT)?;
            if let Kind::Link(target) = &self.nodes[ino].kind {
                if !pending.is_empty() || follow_last || must_be_dir {
                    links += 1;
                    if links > 40 {
                        return Err(ELOOP);
                    }
                    if target.first() == Some(&b'/') {
                        stack.clear();
                    }
                    if pending.is_empty() && target.ends_with(b"/") {
                        must_be_dir = true;
                    }
                    push(target, &mut pending);
                    continue;
                }
            }
            stack.push((c, ino));
        }
        let last = stack.last().map_or(0, |x| x.1);
        if must_be_dir && !matches!(self.nodes[last].kind, Kind::Dir(_)) {
            return Err(ENOTDIR);
        }
        Ok(Walk { stack })
    }

    pub fn lookup(&self, path: &[u8], follow: bool) -> Result<Ino, Errno> {
        Ok(self.walk(path, follow)?.stack.last().map_or(0, |x| x.1))
    }

    pub fn realpath(&self, path: &[u8]) -> Result<Vec<u8>, Errno> {
        let w = self.walk(path, true)?;
        if w.stack.is_empty() {
            return Ok(b"/".to_vec());
        }
        let mut out = vec![];
        for (c, _) in &w.stack {
            out.push(b'/');
            out.extend_from_slice(c);
        }
        Ok(out)
    }

    pub fn is_file(&self, path: &str) -> bool {
        self.lookup(path.as_bytes(), true).map_or(false, |i| matches!(self.nodes[i].kind, Kind::File(_)))
    }
    pub fn is_dir(&self, path: &str) -> bool {
        self.lookup(path.as_bytes(), true).map_or(false, |i| matches!(self.nodes[i].kind, Kind::Dir(_)))
    }
    pub fn read(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.lookup(path.as_bytes(), true).ok()?;
        match &self.nodes[i].kind {
            Kind::File(d) => Some(d.to_vec()),
            _ => None,
        }
    }

    fn split(path: &str) -> (&str, &str) {
        let p = path.trim_end_matches('/');
        match p.rfind('/') {
            Some(0) => ("/", &p[1..]),
            Some(i) => (&p[..i], &p[i + 1..]),
            None => (".", p),
        }
    }

    fn set_entry(&mut self, dir: Ino, name: &str, ino: Option<Ino>, mtime: Option<i64>) {
        let n = Arc::make_mut(&mut self.nodes[dir]);
        if let Kind::Dir(e) = &mut n.kind {
            match ino {
                Some(i) => {
                    e.insert(name.as_bytes().to_vec(), i);
                }
                None => {
                    e.remove(name.as_bytes());
                }
            }
        }
        if let Some(m) = mtime {
            n.mtime = m;
        }
    }

    pub fn mkdirs(&mut self, path: &str, mtime: i64) -> Result<(), Errno> {
        let mut cur = String::new();
        for c in path.split('/').filter(|c| !c.is_empty()) {
            let parent = if cur.is_empty() { "/".to_string() } else { cur.clone() };
            cur.push('/');
            cur.push_str(c);
            match self.lookup(cur.as_bytes(), true) {
                Ok(i) if matches!(self.nodes[i].kind, Kind::Dir(_)) => {}
                Ok(_) => return Err(ENOTDIR),
                Err(_) => {
                    let d = self.lookup(parent.as_bytes(), true)?;
                    let i = self.alloc(Kind::Dir(BTreeMap::new()), mtime);
                    self.set_entry(d, c, Some(i), None);
                }
            }
        }
        Ok(())
    }

    /// Applies one step.  Errors (path vanished and the like) leave the tree unchanged.
    pub fn apply(&mut self, step: &Step, clock: &mut i64) -> Result<(), Errno> {
        let now = *clock;
        // time stamps of the file system are coarse
        self.now = now - now.rem_euclid(4_000_000);
        if let Step::Unlink { path } | Step::RmTree { path } | Step::Rename { from: path, .. } = step {
            if self.lookup(path.as_bytes(), false) == Ok(0) {
                return Err(libc::EBUSY);
            }
        }
        match step {
            Step::Write { path, data, mtime } => match self.lookup(path.as_bytes(), true) {
                Ok(i) => {
                    let n = Arc::make_mut(&mut self.nodes[i]);
                    match &mut n.kind {
                        Kind::File(d) => {
                            *d = Arc::new(data.0.clone());
                            n.mtime = *mtime;
                            n.changed = self.now;
                        }
                        _ => return Err(EISDIR),
                    }
                }
                Err(_) => {
                    let (dir, name) = Self::split(path);
                    let d = self.dir(dir)?;
                    let i = self.alloc(Kind::File(Arc::new(data.0.clone())), *mtime);
                    self.set_entry(d, name, Some(i), None);
                }
            },
            Step::Trunc { path, mtime } => {
                return self.apply(&Step::Write { path: path.clone(), data: Bytes(vec![]), mtime: *mtime }, clock)
            }
            Step::Append { path, data, mtime } => {
                let mut cur = self.read(path).ok_or(ENOENT)?;
                cur.extend_from_slice(&data.0);
                return self.apply(&Step::Write { path: path.clone(), data: Bytes(cur), mtime: *mtime }, clock);
            }
            Step::Replace { path, data, mtime } => {
                let (dir, name) = Self::split(path);
                let d = self.dir(dir)?;
                if let Kind::Dir(e) = &self.nodes[d].kind {
                    if let Some(i) = e.get(name.as_bytes()) {
                        if matches!(self.nodes[*i].kind, Kind::Dir(_)) {
                            return Err(EISDIR);
                        }
                    }
                }
                let i = self.alloc(Kind::File(Arc::new(data.0.clone())), *mtime);
                self.set_entry(d, name, Some(i), None);
            }
            Step::Unlink { path } => {
                let (dir, name) = Self::split(path);
                let d = self.dir(dir)?;
                let i = self.lookup(path.as_bytes(), false)?;
                if matches!(self.nodes[i].kind, Kind::Dir(_)) {
                    return Err(EISDIR);
                }
                self.set_entry(d, name, None, None);
            }
            Step::Mkdir { path } => {
                let (dir, name) = Self::split(path);
                let d = self.dir(dir)?;
                if self.lookup(path.as_bytes(), false).is_ok() {
                    return Err(EEXIST);
                }
                let i = self.alloc(Kind::Dir(BTreeMap::new()), now);
                self.set_entry(d, name, Some(i), None);
            }
            Step::RmTree { path } => {
                let (dir, name) = Self::split(path);
                let d = self.dir(dir)?;
                self.lookup(path.as_bytes(), false)?;
                self.set_entry(d, name, None, None);
            }
            Step::Rename { from, to } => {
                let (fd, fname) = Self::split(from);
                let (td, tname) = Self::split(to);
                let i = self.lookup(from.as_bytes(), false)?;
                let fdi = self.dir(fd)?;
                let tdi = self.dir(td)?;
                // not into itself
                if self.walk(td.as_bytes(), true)?.stack.iter().any(|x| x.1 == i) {
                    return Err(libc::EINVAL);
                }
                self.set_entry(fdi, fname, None, None);
                self.set_entry(tdi, tname, Some(i), None);
            }
            Step::Link { path, target } => {
                let (dir, name) = Self::split(path);
                let d = self.dir(dir)?;
                if let Ok(i) = self.lookup(path.as_bytes(), false) {
                    if matches!(self.nodes[i].kind, Kind::Dir(_)) {
                        return Err(EISDIR);
                    }
                }
                let i = self.alloc(Kind::Link(target.as_bytes().to_vec()), now);
                self.set_entry(d, name, Some(i), None);
            }
            Step::Touch { path, mtime } => {
                let i = self.lookup(path.as_bytes(), true)?;
                let n = Arc::make_mut(&mut self.nodes[i]);
                n.mtime = *mtime;
                n.changed = self.now;
            }
            Step::Chmod { path, deny } => {
                let i = self.lookup(path.as_bytes(), true)?;
                let n = Arc::make_mut(&mut self.nodes[i]);
                n.deny = *deny;
                n.changed = self.now;
            }
            Step::Hard { path, target } => {
                let (dir, name) = Self::split(path);
                let d = self.dir(dir)?;
                let i = self.lookup(target.as_bytes(), false)?;
                if self.lookup(path.as_bytes(), false).is_ok() {
                    return Err(EEXIST);
                }
                if matches!(self.nodes[i].kind, Kind::Dir(_)) {
                    return Err(libc::EPERM);
                }
                self.set_entry(d, name, Some(i), None);
            }
            Step::Special { path } => {
                let (dir, name) = Self::split(path);
                let d = self.dir(dir)?;
                if self.lookup(path.as_bytes(), false).is_ok() {
                    return Err(EEXIST);
                }
                let i = self.alloc(Kind::Special, now);
                self.set_entry(d, name, Some(i), None);
            }
            Step::Chdir { path } => {
                self.dir(path)?;
                let mut at = String::new();
                for (name, _) in &self.walk(path.as_bytes(), true)?.stack {
                    at.push('/');
                    at.push_str(&String::from_utf8_lossy(name));
                }
                self.cwd = if at.is_empty() { "/".into() } else { at };
            }
            Step::Clock { delta } => {
                *clock = clock.saturating_add(*delta).clamp(-8_000_000_000_000_000_000, 8_000_000_000_000_000_000);
            }
        }
        Ok(())
    }

    fn dir(&self, path: &str) -> Result<Ino, Errno> {
        let d = self.lookup(path.as_bytes(), true)?;
        match self.nodes[d].kind {
            Kind::Dir(_) => Ok(d),
            _ => Err(ENOTDIR),
        }
    }
}
