//! Random trees, options, requests and changes.

use crate::rng::Rng;
use crate::scenario::*;
use crate::vfs::{Bytes, Step, Vfs};
use serde_json::{json, Map, Value};

pub const SEC: i64 = 1_000_000_000;
pub const BASE: i64 = 1_600_000_000 * SEC;
pub const NOW: i64 = 1_700_000_000 * SEC;
pub const APP: &str = "/w/app";

#[derive(Clone, Debug)]
pub struct Site {
    /// directory and description file name
    pub dir: String,
    pub file: String,
    pub name: String,
    /// calls likely to look at it
    pub probes: Vec<(String, String)>,
    pub side: Vec<String>,
}
impl Site {
    pub fn path(&self) -> String {
        format!("{}/{}", self.dir, self.file)
    }
}

/// how new modification times relate to old ones
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Times {
    /// a second or more after everything before
    Forward,
    /// anything, but never less than a second after an earlier version
    Odd,
    /// whatever, equal ones included (for files whose times must not matter)
    Any,
}

#[derive(Clone)]
pub struct World {
    pub rng: Rng,
    pub nodes: Vec<Node>,
    /// the tree as changed so far
    pub cur: Vfs,
    pub sites: Vec<Site>,
    pub pkgs: Vec<(String, String)>, // dir, name
    pub starts: Vec<String>,
    pub reqs: Vec<String>,
    pub modules: Vec<String>,
    /// all descriptions resemble each other
    kin: bool,
    pub links: Vec<(String, Vec<String>)>,
    pub tsconfig: bool,
    /// so many entries are added to the fields of description files
    pub padded: Option<usize>,
    pub ts_files: Vec<String>,
    pub alt_desc: bool,
    tag: u32,
    slot: i64,
    low: i64,
    last_mtime: std::collections::HashMap<String, i64>,
    pub times: Times,
    clock: i64,
    pub first_clock: i64,
    pub renamed: Vec<(String, String)>,
    /// fields and texts used so far: others are made to resemble them
    pool: Vec<(String, Value)>,
    texts: Vec<String>,
    /// requests that some file or option speaks of
    hot: Vec<(String, String)>,
    /// many small packages
    pub crowd: Vec<(String, String)>,
    /// module files that what is asked may lead to, and the links on the way (indices)
    aimed: Vec<String>,
    aimed_links: Vec<usize>,
    /// files that have two names
    pub hard: Vec<(String, String)>,
    /// as if out of an archive: many files have the same modification time
    pub flat: bool,
}

fn s(x: &str) -> String {
    x.to_string()
}

/// another order of the keys, at any depth
fn permute(v: &mut Value, r: &mut Rng) {
    if let Value::Object(o) = v {
        let mut keys: Vec<(String, Value)> = std::mem::take(o).into_iter().collect();
        if r.chance(0.6) {
            r.shuffle(&mut keys);
        }
        for (_, x) in &mut keys {
            permute(x, r);
        }
        *o = keys.into_iter().collect();
    } else if let Value::Array(a) = v {
        for x in a.iter_mut() {
            permute(x, r);
        }
        if r.chance(0.3) {
            a.reverse();
        }
    }
}

/// texts that are long, or hard to cut
fn long_text(r: &mut Rng) -> String {
    let n = *r.pick(&[60usize, 127, 128, 200, 255, 256, 300, 1000, 5000]);
    // a path of k components costs a few file operations for each of them, with each candidate:
    // far fewer than the budget of a call, which is there for work without an end
    let k = n.min(1000);
    match r.below(14) {
        12 | 13 => format!("{}{}", &"aaa"[..r.below(4)], r.pick(&["日", "\u{1F600}", "é"]).repeat(n)),
        0 => "a".repeat(n),
        1 => "é".repeat(n),
        2 => format!("a{}", "é".repeat(n)),
        3 => "../".repeat(k),
        4 => "a/".repeat(k),
        5 => "./".repeat(k),
        6 => "/".repeat(k),
        7 => "*".repeat(n.min(300)),
        8 => format!("lib/{}", "../lib/".repeat(k)),
        9 => "\u{1F600}x".repeat(n),
        10 => "@a/".repeat(k),
        _ => "a\u{0}\\\"'#?*%".repeat(n / 8 + 1),
    }
}

/// the field of a description file, taken to extremes: deep, wide or nested
fn extreme(o: &mut Map<String, Value>, r: &mut Rng) {
    let field = *r.pick(&["exports", "exports", "imports", "imports", "browser", "sideEffects"]);
    let hash = if field == "imports" { "#" } else { "./" };
    let seg = *r.pick(&["a/", "a/", "é/", "/", "../", "*/"]);
    let deep = *r.pick(&[300usize, 3_000, 12_000, 40_000]);
    let n = *r.pick(&[30usize, 120, 126, 127, 128, 200]);
    let nested = |x: Value, arrays: bool, n: usize| {
        (0..n).fold(x, |x, _| if arrays { json!([x]) } else { json!({"node": x}) })
    };
    let v = match r.below(7) {
        0 | 1 => json!({(format!("{hash}{}x", seg.repeat(deep))): "./main.js", (format!("{hash}feat/one")): "./feat/one.js"}),
        2 => json!({(format!("{hash}{}", seg.repeat(deep))): "./lib/", (format!("{hash}{}*", seg.repeat(deep / 2))): "./lib/*"}),
        3 => nested(json!("./main.js"), false, n),
        4 => json!({(format!("{hash}int")): nested(json!("./main.js"), r.chance(0.5), n), (format!("{hash}feat/*")): "./feat/*.js"}),
        5 => {
            let wide = *r.pick(&[200usize, 1500]);
            let mut m = Map::new();
            for i in 0..wide {
                m.insert(format!("{hash}feat/f{i}{}", if i % 3 == 0 { "/*" } else { "" }), json!("./main.js"));
            }
            m.insert(format!("{hash}feat/one"), json!("./feat/one.js"));
            Value::Object(m)
        }
        _ => Value::Array((0..*r.pick(&[200usize, 1500])).map(|i| json!(format!("./lib/{}", if i > 190 { "a.js" } else { "none.js" }))).collect()),
    };
    o.insert(s(field), v);
}

const CONDS: &[&str] = &["node", "import", "browser", "require", "development", "production", "worker", "deno", "types", "module"];

/// fields that lead back to themselves, or somewhere strange
fn loops() -> Vec<(&'static str, Value)> {
    vec![
        ("browser", json!({"./main.js": "./main.js"})),
        ("browser", json!({"./lib/a": "./lib/b", "./lib/b": "./lib/a"})),
        ("browser", json!({"p1": "p1", "./index.js": "./main.js", "./main.js": "./browser.js", "./browser.js": "./index.js"})),
        ("browser", json!({"./main.js": "./", "./index.js": "", "p1": "."})),
        ("imports", json!({"#int": "#int", "#dep": "#dep"})),
        ("imports", json!({"#int": "#feat/one", "#feat/one": "#int"})),
        ("imports", json!({"#feat/*": "#feat/*", "#int": "#feat/a", "#dep": "#feat/one"})),
        ("imports", json!({"#int": "@foo", "#dep": "@s", "#feat/one": "@"})),
        ("imports", json!({"#int": "é/x/y", "#dep": "p1é/x", "#feat/one": "@é/é/é"})),
        ("imports", json!({"#int": "app", "#dep": "p1/../p1", "#feat/one": "app/feat/one"})),
        ("main", json!(".")),
        ("main", json!("./.")),
        ("main", json!(".//")),
        ("main", json!("..")),
        ("main", json!("./lib/..")),
        ("main", json!("../p1")),
        ("main", json!("lib/../../p1/.")),
        ("main", json!("/")),
        ("main", json!("é")),
        ("name", json!("")),
        ("name", json!("@")),
    ]
}

const LOOP_EXTENDS: &[&str] = &[
    "./tsconfig.json", "./tsconfig.base.json", "../app/tsconfig.json", "./src/../tsconfig.json", "@cfg/ts/tsconfig.json",
    "../../../tsconfig.json", "../../../tsconfig.base", ".", "..", "/w/app/tsconfig.json", "./tsconfig.jsom", "nowhere", "é", "@x", "#int", "",
];

/// more of everything: longer lists of conditions, conditions inside of conditions and of lists,
/// more subpaths, patterns that overlap
/// the requests that the keys of a field are about
fn heat(hot: &mut Vec<(String, String)>, field: &str, x: &Value, dir: &str, r: &mut Rng) {
    let m = match x {
        Value::Object(m) => m,
        _ => return,
    };
    let mut keys: Vec<&String> = m.keys().collect();
    r.shuffle(&mut keys);
    for k in keys.into_iter().take(3) {
        let mut k = k.replace('*', r.pick(&["one", "x", "a", "two.js"]));
        if k.ends_with('/') {
            k.push_str(r.pick(&["one.js", "a", "x.js"]));
        }
        match field {
            "exports" => {
                if let (Some(i), Some(sub)) = (dir.rfind("/node_modules/"), k.strip_prefix('.')) {
                    hot.push((dir[..i].to_string(), format!("{}{sub}", &dir[i + 14..])));
                }
            }
            "imports" if k.starts_with('#') => hot.push((dir.to_string(), k)),
            "browser" => {
                if let (Some(sub), true) = (k.strip_prefix('.'), r.chance(0.5)) {
                    if let Some(i) = dir.rfind("/node_modules/") {
                        hot.push((dir[..i].to_string(), format!("{}{sub}", &dir[i + 14..])));
                        continue;
                    }
                }
                hot.push((dir.to_string(), k))
            }
            _ => {}
        }
    }
}

fn enrich(field: &str, v: &mut Value, r: &mut Rng) {
    let target = |r: &mut Rng| -> Value {
        match r.below(16) {
            0 => Value::Null,
            1 => json!("./lib/../main.js"),
            2 => json!(*r.pick(&["../up.js", "./", "./lib/", "lib/a.js", "./missing.js", "p1", "#int"])),
            _ => json!(*r.pick(&[
                "./main.js", "./index.js", "./lib/a.js", "./lib/b.js", "./feat/one.js", "./feat/two.js", "./internal/x.js", "./internal/y.js",
                "./esm/index.mjs", "./browser.js"
            ])),
        }
    };
    fn conds(r: &mut Rng, depth: usize, target: &dyn Fn(&mut Rng) -> Value) -> Value {
        let mut keys: Vec<&str> = CONDS.to_vec();
        r.shuffle(&mut keys);
        keys.truncate(if r.chance(0.4) { r.range(4, 9) } else { r.range(1, 3) });
        let mut m = Map::new();
        for k in keys {
            let x = if depth < 2 && r.chance(0.2) { conds(r, depth + 1, target) } else { target(r) };
            m.insert(s(k), x);
        }
        if r.chance(0.5) {
            let at_end = r.chance(0.9);
            let x = if depth < 2 && r.chance(0.15) { conds(r, depth + 1, target) } else { target(r) };
            m.insert(s("default"), x);
            if !at_end {
                permute_keys(&mut m, r);
            }
        }
        Value::Object(m)
    }
    fn permute_keys(m: &mut Map<String, Value>, r: &mut Rng) {
        let mut kv: Vec<(String, Value)> = std::mem::take(m).into_iter().collect();
        r.shuffle(&mut kv);
        m.extend(kv);
    }
    let value = |r: &mut Rng| -> Value {
        match r.below(5) {
            0 => target(r),
            1 | 2 => conds(r, 0, &target),
            3 => Value::Array((0..r.range(1, 4)).map(|_| if r.chance(0.4) { conds(r, 1, &target) } else { target(r) }).collect()),
            _ => json!(*r.pick(&["./lib/a.js", "./main.js", "./feat/two.js"])),
        }
    };
    if field == "exports" && r.chance(0.3) {
        *v = value(r);
        return;
    }
    let hash = if field == "imports" { "#" } else { "./" };
    let Value::Object(m) = v else {
        if field == "exports" {
            *v = value(r);
        }
        return;
    };
    let subpaths = m.keys().all(|k| k.starts_with(&hash[..1]));
    if !subpaths {
        *v = conds(r, 0, &target);
        return;
    }
    for k in m.keys().cloned().collect::<Vec<_>>() {
        if r.chance(0.3) {
            m[&k] = value(r);
        }
    }
    let more: &[(&str, &str)] = &[
        ("feat/*", "./feat/*.js"), ("feat/o*", "./feat/o*.js"), ("feat/on*", "./internal/x.js"), ("feat/", "./feat/"), ("feat/", "./lib/"),
        ("lib/*", "./lib/*"), ("lib/", "./lib/"), ("lib/a", "./feat/one.js"), ("lib/a.js", "./lib/a.js"), ("lib", "./lib/index.js"), ("*", "./*.js"),
        ("*", "./*"), ("internal/*", "./lib/*.js"), ("int", "./main.js"), ("in*", "./internal/x.js"), ("main.js", "./main.js"), ("esm/", "./esm/"),
        ("l*", "./feat/two.js"), ("", "./"),
    ];
    for _ in 0..r.range(1, 8) {
        let (k, x) = *r.pick(more);
        if field == "imports" && k.is_empty() {
            continue;
        }
        let x = if r.chance(0.2) { value(r) } else if r.chance(0.15) { conds(r, 1, &|_| json!(x)) } else { json!(x) };
        m.insert(format!("{hash}{k}"), x);
    }
    if field == "exports" && r.chance(0.7) {
        m.insert(s("."), value(r));
    }
    if r.chance(0.5) {
        permute_keys(m, r);
    }
}

/// something that differs from it in one detail, or not at all
fn resemble(v: &Value, r: &mut Rng) -> Value {
    let mut v = v.clone();
    match r.below(6) {
        0 => {}
        1 | 2 => permute(&mut v, r),
        3 => {
            // the same keys and targets, otherwise assigned
            fn strings<'a>(v: &'a mut Value, out: &mut Vec<&'a mut String>) {
                match v {
                    Value::String(x) => out.push(x),
                    Value::Array(a) => a.iter_mut().for_each(|x| strings(x, out)),
                    Value::Object(o) => o.iter_mut().for_each(|(_, x)| strings(x, out)),
                    _ => {}
                }
            }
            let mut all = vec![];
            strings(&mut v, &mut all);
            if all.len() > 1 {
                let i = r.below(all.len());
                let j = (i + 1) % all.len();
                let a = all[i].clone();
                let b = std::mem::replace(all[j], a);
                *all[i] = b;
            }
        }
        4 => {
            // one key less
            if let Value::Object(o) = &mut v {
                if o.len() > 1 {
                    let k = o.keys().nth(r.below(o.len())).unwrap().clone();
                    *o = std::mem::take(o).into_iter().filter(|x| x.0 != k).collect();
                }
            }
        }
        _ => {
            // another target of the same length or so
            let t = v.to_string();
            let (a, b) = *r.pick(&[("./main.js", "./index.js"), ("one", "two"), ("internal/x", "internal/y"), ("lib/a", "lib/b"), ("p1", "p0"), ("main.js", "browser.js")]);
            v = serde_json::from_str(&if r.chance(0.5) { t.replace(a, b) } else { t.replace(b, a) }).unwrap();
        }
    }
    v
}

impl World {
    pub fn new(mut rng: Rng) -> World {
        let tsconfig = rng.chance(0.3);
        let padded = if rng.chance(0.05) { Some(*rng.pick(&[8usize, 9, 40, 41, 200, 200, 200, 201])) } else { None };
        let kin = rng.chance(0.08);
        let mut w = World {
            kin,
            nodes: vec![],
            cur: Vfs::new(BASE),
            sites: vec![],
            pkgs: vec![],
            starts: vec![],
            reqs: vec![],
            modules: vec![],
            links: vec![],
            tsconfig,
            padded,
            ts_files: vec![],
            alt_desc: rng.chance(0.35),
            tag: 0,
            slot: BASE,
            low: BASE,
            last_mtime: Default::default(),
            times: Times::Forward,
            clock: NOW,
            first_clock: NOW,
            renamed: vec![],
            pool: vec![],
            texts: vec![],
            hot: vec![],
            crowd: vec![],
            aimed: vec![],
            aimed_links: vec![],
            hard: vec![],
            flat: false,
            rng,
        };
        w.flat = w.rng.chance(0.25);
        w.build();
        if w.rng.chance(0.08) {
            w.stamps();
        }
        w
    }

    // ---------------------------------------------------------------- building

    /// descriptions and tsconfig files of extraordinary age
    fn stamps(&mut self) {
        let around = self.rng.chance(0.6);
        let mut top = self.slot;
        for n in &mut self.nodes {
            let Node::File { path, mtime, .. } = n else { continue };
            if !path.ends_with(".json") || self.rng.chance(0.3) {
                continue;
            }
            *mtime = match self.rng.below(if around { 2 } else { 7 }) {
                // at about the time the calls are made
                0 | 1 => NOW - SEC + self.rng.below(2_000_000) as i64 * 1000,
                2 => 0,
                3 => -1 - self.rng.below(5_000_000) as i64 * 1000,
                4 => NOW + 400_000_000 * SEC,
                5 => NOW + self.rng.below(100_000_000) as i64,
                _ => BASE,
            };
            self.last_mtime.insert(path.clone(), *mtime);
            top = top.max(*mtime);
        }
        self.slot = top + 20 * SEC;
        self.slot -= self.slot % (10 * SEC);
    }

    pub fn fresh_mtime(&mut self) -> i64 {
        self.slot += 10 * SEC;
        if self.rng.chance(0.3) {
            self.slot + self.rng.below(900_000_000) as i64
        } else {
            self.slot
        }
    }

    /// a modification time for the next version of this file
    pub fn next_mtime(&mut self, path: &str) -> i64 {
        let last = self.last_mtime.get(path).copied().unwrap_or(BASE);
        let m = match self.times {
            Times::Forward => match self.rng.below(4) {
                // exactly the smallest step that must be noticed
                0 if self.slot_owner(path) => last + SEC,
                _ => self.fresh_mtime(),
            },
            Times::Odd => match self.rng.below(7) {
                0 => last - 1 - self.rng.below(1000) as i64,
                1 | 2 => {
                    self.low -= 10 * SEC;
                    self.low
                }
                3 => {
                    self.low -= 400_000_000 * SEC;
                    self.low
                }
                4 => {
                    self.slot += 400_000_000 * SEC;
                    self.slot
                }
                _ => self.fresh_mtime(),
            },
            Times::Any => match self.rng.below(6) {
                0 | 1 => last,
                2 => last + self.rng.below(999) as i64 * 1_000_000,
                3 => last - self.rng.below(5000) as i64 * 1_000_000,
                4 => 0,
                _ => self.fresh_mtime(),
            },
        };
        self.last_mtime.insert(path.to_string(), m);
        m
    }
    /// may this file take a time one second after its last one (nobody else is near it)?
    fn slot_owner(&self, path: &str) -> bool {
        match self.last_mtime.get(path) {
            Some(m) => *m % (10 * SEC) < 6 * SEC,
            None => false,
        }
    }

    fn add_file(&mut self, path: &str, data: impl Into<Bytes>) {
        // (what may take each other's place has different times)
        let flat = self.flat && (path.starts_with("/w/app/node_modules/") || path.starts_with("/w/node_modules/"));
        let m = if flat { BASE } else { self.fresh_mtime() };
        self.last_mtime.insert(path.to_string(), m);
        self.nodes.push(Node::File { path: path.into(), data: data.into(), mtime: m });
    }
    fn add_module(&mut self, path: &str) {
        self.add_file(path, "//");
        self.modules.push(path.into());
    }
    fn add_link(&mut self, path: &str, targets: Vec<String>) {
        self.nodes.push(Node::Link { path: path.into(), target: targets[0].clone() });
        self.links.push((path.into(), targets));
    }

    fn build(&mut self) {
        for f in ["index.js", "a.js", "b.js", "c.ts", "d/index.js", "d/x.js", "deep/e/f/g.js"] {
            self.add_module(&format!("{APP}/src/{f}"));
        }
        for f in ["lib/util.js", "lib/index.js", "feat/one.js", "main.js", "internal/x.js", "internal/y.js"] {
            self.add_module(&format!("{APP}/{f}"));
        }
        self.starts = ["src", "src", "src/d", "src/deep/e", "", "lib"]
            .iter()
            .map(|d| if d.is_empty() { s(APP) } else { format!("{APP}/{d}") })
            .collect();
        let app_probes: Vec<(String, String)> = [
            "#int", "#int", "#feat/one", "#dep", "app", "app/feat/one", "./a", "./d", ".", "../lib/util", "..",
            "./internal/x",
        ]
        .iter()
        .map(|r| (format!("{APP}/src"), s(r)))
        .collect();
        let has_app = self.rng.chance(0.85);
        let app = Site {
            dir: s(APP),
            file: s("package.json"),
            name: s("app"),
            probes: app_probes.clone(),
            side: vec![format!("{APP}/src"), format!("{APP}/src/a.js"), format!("{APP}/src/deep/e/f"), s(APP)],
        };
        self.site(app, has_app);
        if self.rng.chance(0.3) {
            let has = self.rng.chance(0.5);
            self.site(
                Site {
                    dir: format!("{APP}/src/d"),
                    file: s("package.json"),
                    name: s("nested"),
                    probes: ["./x", ".", "#int", "..", "nested/x", "../d"]
                        .iter()
                        .map(|r| (format!("{APP}/src/d"), s(r)))
                        .collect(),
                    side: vec![format!("{APP}/src/d"), format!("{APP}/src/d/x.js")],
                },
                has,
            );
        }
        if self.rng.chance(0.3) {
            let has = self.rng.chance(0.6);
            self.site(
                Site {
                    dir: s("/w"),
                    file: s("package.json"),
                    name: s("root"),
                    probes: app_probes.clone(),
                    side: vec![s("/w"), format!("{APP}/src"), s(APP), s("/w/app/lib/util.js")],
                },
                has,
            );
        }
        if self.rng.chance(0.25) {
            let has = self.rng.chance(0.5);
            self.site(
                Site {
                    dir: format!("{APP}/src/deep"),
                    file: s("package.json"),
                    name: s("deep"),
                    probes: ["./f/g", "#int", "../e/f/g.js"]
                        .iter()
                        .map(|r| (format!("{APP}/src/deep/e"), s(r)))
                        .collect(),
                    side: vec![format!("{APP}/src/deep/e/f"), format!("{APP}/src/deep/e/f/g.js")],
                },
                has,
            );
        }
        let mut names = vec!["p0", "p1", "@s/q", "p2"];
        self.rng.shuffle(&mut names);
        names.truncate(self.rng.range(1, 3));
        if !names.contains(&"p1") && self.rng.chance(0.5) {
            names.push("p1");
        }
        for n in &names {
            let dir = format!("{APP}/node_modules/{n}");
            if self.rng.chance(0.25) {
                // as pnpm lays packages out
                let flat = n.replace('/', "+");
                let t1 = format!("/w/store/{flat}@1/node_modules/{n}");
                let t2 = format!("/w/store/{flat}@2/node_modules/{n}");
                self.package(&t1, n, &dir);
                self.package(&t2, n, &dir);
                let (t1, t2) = if self.rng.chance(0.5) { (t1, t2) } else { (t2, t1) };
                self.add_link(&dir, vec![t1, t2]);
            } else {
                self.package(&dir, n, &dir);
            }
            self.pkgs.push((dir.clone(), s(n)));
        }
        // the same package further up
        if self.rng.chance(0.35) {
            let n = *self.rng.pick(&names);
            self.package(&format!("/w/node_modules/{n}"), n, &format!("/w/node_modules/{n}"));
            self.pkgs.push((format!("/w/node_modules/{n}"), s(n)));
        }
        // nested copy
        if self.rng.chance(0.3) {
            let n = *self.rng.pick(&names);
            let inner = if n == "p1" { "p0" } else { "p1" };
            let d = format!("{APP}/node_modules/{n}/node_modules/{inner}");
            if !self.links.iter().any(|l| l.0 == format!("{APP}/node_modules/{n}")) {
                self.package(&d, inner, &d);
                self.starts.push(format!("{APP}/node_modules/{n}/lib"));
                self.pkgs.push((d, s(inner)));
            }
        }
        if self.rng.chance(0.2) {
            self.add_file(&format!("{APP}/node_modules/single.js"), "//");
            self.modules.push(format!("{APP}/node_modules/single.js"));
            self.reqs.push(s("single"));
        }
        if self.rng.chance(0.2) {
            // the same again in other languages
            for _ in 0..self.rng.range(2, 8) {
                let m = self.rng.pick(&self.modules).clone();
                let stem = m.rsplit_once('.').map_or(m.as_str(), |x| x.0);
                if stem.contains(".js/") || stem.contains(".mjs/") {
                    continue;
                }
                for ext in [".ts", ".mjs", ".json", ".js", ".tsx", ""] {
                    let path = format!("{stem}{ext}");
                    let taken = self.nodes.iter().any(|n| match n {
                        Node::File { path: p, .. } | Node::Link { path: p, .. } => *p == path || p.starts_with(&format!("{path}/")),
                        _ => false,
                    });
                    if !taken && self.rng.chance(0.35) {
                        self.add_module(&path);
                    }
                }
            }
        }
        // file and directory links inside the project
        if self.rng.chance(0.35) {
            self.add_link(
                &format!("{APP}/src/ln.js"),
                vec![format!("{APP}/src/a.js"), s("./b.js"), format!("{APP}/lib/util.js"), s("nowhere.js"), s("d")],
            );
            self.reqs.push(s("./ln"));
            self.reqs.push(s("./ln.js"));
        }
        if self.rng.chance(0.25) {
            let mut to = vec![format!("{APP}/src/d"), format!("{APP}/lib"), s("deep/e/f")];
            if self.rng.chance(0.4) {
                // where the other has files, this has directories
                self.add_module(&format!("{APP}/src/alt/x.js/index.js"));
                self.add_module(&format!("{APP}/src/alt/index.js/x.js"));
                to.push(s("alt"));
                to.push(s("alt"));
            }
            self.add_link(&format!("{APP}/src/lnd"), to);
            self.reqs.push(s("./lnd"));
            self.reqs.push(s("./lnd/x"));
            self.reqs.push(s("./lnd/index.js"));
            for r in ["./lnd/../x.js", "./lnd/../a", "./lnd/../b.js", "../src/lnd/../main.js", "./lnd/..", "./lnd/../d"] {
                self.reqs.push(s(r));
            }
            self.starts.push(format!("{APP}/src/lnd"));
            self.starts.push(format!("{APP}/src/lnd/../d"));
            self.reqs.push(s("../x"));
            self.reqs.push(s("../b.js"));
        }
        if self.rng.chance(0.12) {
            // links that lead up again, or nowhere, or round in circles
            let up = *self.rng.pick(&["..", ".", "/w/app", "/w", "loop", "/"]);
            self.add_link(&format!("{APP}/src/loop"), vec![s(up), format!("{APP}/src/d"), s(".."), s("loop"), s("deep")]);
            for r in ["./loop/a", "./loop/src/a", "./loop/src/loop/a", "./loop/loop/loop/b.js", "./loop", "./loop/lib/util", "./loop/x"] {
                self.reqs.push(s(r));
            }
            self.starts.push(format!("{APP}/src/loop"));
            self.starts.push(format!("{APP}/src/loop/src/loop/d"));
        }
        if self.rng.chance(0.15) {
            // a workspace: packages that live outside of node_modules, linked into it
            for n in ["ws", "@s/ws"] {
                if self.rng.chance(0.7) {
                    let real = format!("/w/packages/{}", n.replace('/', "-"));
                    let seen = format!("{APP}/node_modules/{n}");
                    self.package(&real, n, &seen);
                    let other = if self.rng.chance(0.5) { s(APP) } else { format!("{APP}/src/d") };
                    self.add_link(&seen, vec![real.clone(), other]);
                    self.starts.push(format!("{real}/lib"));
                    self.starts.push(format!("{seen}/lib"));
                    if self.rng.chance(0.4) {
                        self.add_link(&format!("{real}/node_modules/app"), vec![s(APP), s("../../..")]);
                    }
                    self.pkgs.push((seen, s(n)));
                }
            }
            self.reqs.push(s("ws"));
            self.reqs.push(s("../../packages/ws"));
            self.reqs.push(s("/w/packages/ws/lib/a"));
        }
        if self.rng.chance(0.06) {
            // far down
            let n = self.rng.range(8, 60);
            let d = format!("{APP}/src{}", "/down".repeat(n));
            self.add_module(&format!("{d}/x.js"));
            self.starts.push(d.clone());
            self.starts.push(d.clone());
            self.reqs.push(s("./x"));
            self.reqs.push(format!("{}a", "../".repeat(n)));
            self.reqs.push(format!("./src{}/x", "/down".repeat(n)));
            if self.rng.chance(0.5) {
                let k = self.rng.range(1, n);
                self.site(
                    Site {
                        dir: format!("{APP}/src{}", "/down".repeat(k)),
                        file: s("package.json"),
                        name: s("down"),
                        probes: vec![(d.clone(), s("./x")), (d.clone(), s("#int")), (d.clone(), s("p1")), (d.clone(), s(".."))],
                        side: vec![d.clone(), format!("{d}/x.js")],
                    },
                    true,
                );
            }
        }
        if self.rng.chance(0.05) {
            // names longer than names may be
            let k = self.rng.range(240, 300);
            for r in [format!("./{}", "n".repeat(k)), format!("n/{}", "n".repeat(k)), format!("./{}/", "n".repeat(k)).repeat(17), format!("p1/{}", format!("{}/", "y".repeat(250)).repeat(16)), "x/".repeat(100), "../".repeat(100) + "w/app/src/a"] {
                self.reqs.push(r);
            }
            self.starts.push(format!("{APP}/{}", "n".repeat(k)));
            self.starts.push(format!("/{}", "w/../".repeat(100)));
        }
        if self.rng.chance(0.05) {
            // neither files nor directories
            let all = [
                format!("{APP}/src/a"), format!("{APP}/src/x.js"), format!("{APP}/src/d.js"), format!("{APP}/src/sock"), format!("{APP}/src/node_modules"),
                format!("{APP}/src/package.json"), format!("{APP}/src/d/node_modules"), format!("{APP}/lib.js"), format!("{APP}/src/deep/index.js"),
            ];
            for _ in 0..self.rng.range(1, 3) {
                let path = self.rng.pick(&all).clone();
                self.nodes.push(Node::Special { path });
            }
            for r in ["./sock", "./x.js", "./d", "./deep", "./a", "../lib"] {
                self.reqs.push(s(r));
            }
        }
        if self.rng.chance(0.05) {
            // may not be entered
            let all = [format!("{APP}/src/d"), format!("{APP}/src/deep"), s("/w/node_modules"), format!("{APP}/lib"), format!("{APP}/src/deep/e")];
            let path = self.rng.pick(&all).clone();
            self.nodes.push(Node::Closed { path });
        }
        if self.rng.chance(0.06) {
            // one file, two names
            let mut k: Vec<usize> = (0..self.sites.len()).collect();
            self.rng.shuffle(&mut k);
            let has = |w: &World, p: &str| w.nodes.iter().any(|n| matches!(n, Node::File { path, .. } if path == p));
            if k.len() > 1 {
                let (a, b) = (self.sites[k[0]].path(), self.sites[k[1]].path());
                if a != b && has(self, &a) {
                    self.nodes.retain(|n| !matches!(n, Node::File { path, .. } if *path == b));
                    self.nodes.push(Node::Hard { path: b.clone(), target: a.clone() });
                    let m = self.last_mtime.get(&a).copied().unwrap_or(BASE);
                    self.last_mtime.insert(b.clone(), m);
                    self.hard.push((a, b));
                }
            }
        }
        if self.rng.chance(0.12) {
            // relative to the working directory
            for st in ["src", "./src", "", ".", "..", "../app/src", "src/d", "src/..", "../packages/ws/lib", "node_modules/p1/lib", "../../w/app/lib", "nowhere/x"] {
                self.starts.push(s(st));
            }
        }
        if self.rng.chance(0.15) {
            // names that are no text
            let d = format!("/w/raw{}", crate::vfs::RAW);
            self.add_module(&format!("{d}/r.js"));
            self.add_module(&format!("{d}/sub/index.js"));
            self.add_module(&format!("{d}/n{}.js", crate::vfs::RAW));
            self.starts.push(d.clone());
            self.starts.push(format!("{d}/sub"));
            self.add_link(&format!("{APP}/src/lnr"), vec![d.clone(), format!("{APP}/src/d")]);
            self.add_link(&format!("{APP}/src/rn.js"), vec![format!("{d}/n{}.js", crate::vfs::RAW), s("a.js")]);
            for r in ["./lnr/r", "./lnr/r.js", "./lnr/sub", "./lnr", "./r.js", "./sub", "./r", "../r.js", "./rn", "./rn.js"] {
                self.reqs.push(s(r));
            }
        }
        for r in [
            "./a", "./b.js", "./c", "./d", "./d/x", ".", "..", "../src/a", "./deep/e/f/g", "/w/app/src/a",
            "/w/app/src/b.js", "./missing", "#int", "#feat/one", "#dep", "app", "app/feat/one", "a", "../lib",
            "./a.js?raw#frag", "missing-pkg", 
            *self.rng.pick(&["é/x", "é/x/y", "é"]), *self.rng.pick(&["@x", "@é/x/y", "@", "@s"]), *self.rng.pick(&["p1é/lib/a", "./é", "é#é?é"]),
            *self.rng.pick(&["", "p1/", "./d/", "./", "../", "p1/../p0", "p1/./main.js", "?x", "C:/x", "//w/app/src/a", "./a/", "./d//x", "/", "#", "./src/../a", "p1/lib/", "#feat/", "#/x", "C:", "c:\\w\\a", "D:/x/y", "xC:/y", "##x", "./a#f#g?h", "./a?q?r#s", "?#", "p0/feat/", "app/"]),
        ] {
            self.reqs.push(s(r));
        }
        if self.tsconfig {
            self.tsconfigs();
        }
        if self.rng.chance(0.04) {
            let n = if self.rng.chance(0.04) { self.rng.range(200, 700) } else { self.rng.range(12, 70) };
            self.make_crowd(n);
        }
        self.snapshot();
    }

    /// many packages
    pub fn make_crowd(&mut self, n: usize) {
        for i in 0..n {
            let name = format!("c{i}");
            let dir = format!("{APP}/node_modules/{name}");
            let main = *self.rng.pick(&["./index.js", "./main.js", "main"]);
            let mut o = json!({"name": name, "main": main, "sideEffects": [format!("crowd-{i}.js")]});
            if self.rng.chance(0.3) {
                o["exports"] = json!({".": "./main.js", (format!("./x{i}")): "./index.js"});
            }
            self.add_file(&format!("{dir}/package.json"), o.to_string());
            self.add_file(&format!("{dir}/index.js"), "//");
            self.add_file(&format!("{dir}/main.js"), "//");
            self.crowd.push((dir, name));
        }
    }

    /// one call about each of many packages
    pub fn crowd_calls(&mut self, r: usize) -> Vec<Op> {
        let mut v: Vec<Op> = vec![];
        for (dir, name) in self.crowd.clone() {
            v.push(if self.rng.chance(0.3) {
                Op::Side { r, path: dir }
            } else {
                Op::Resolve { r, path: format!("{APP}/src"), req: name }
            });
        }
        self.rng.shuffle(&mut v);
        v
    }

    pub fn snapshot(&mut self) {
        let sc = Scenario {
            property: String::new(),
            profile: String::new(),
            seed: 0,
            index: 0,
            run_seed: 0,
            hash_seed: 0,
            cpus: 1,
            clock: self.clock,
            nodes: self.nodes.clone(),
            caches: 0,
            resolvers: vec![],
            tasks: vec![],
            sched: Sched::Serial,
            fault_cfg: FaultCfg::default(),
            faults: vec![],
            switches: vec![],
            alt_hash_seeds: vec![],
            traced: false,
            env: Env::default(),
            alt_envs: vec![],
        };
        self.cur = sc.vfs();
    }

    fn site(&mut self, site: Site, exists: bool) {
        if exists {
            let c = self.desc(&site.name, &site.dir);
            self.add_file(&site.path(), c);
        }
        if self.alt_desc {
            let mut alt = site.clone();
            alt.file = s("pkg.json");
            if self.rng.chance(0.7) {
                let c = self.desc(&alt.name, &alt.dir);
                self.add_file(&alt.path(), c);
            }
            self.sites.push(alt);
        }
        self.sites.push(site);
    }

    fn package(&mut self, real: &str, name: &str, seen: &str) {
        // some have directories where others have files
        let odd = real.starts_with("/w/store/") && self.rng.chance(0.3) || self.rng.chance(0.02);
        for f in [
            "index.js", "main.js", "browser.js", "lib/index.js", "lib/a.js", "lib/b.js", "esm/index.mjs",
            "feat/one.js", "feat/two.js", "internal/x.js", "internal/y.js",
        ] {
            if odd && self.rng.chance(0.4) {
                self.add_module(&format!("{real}/{f}/index.js"));
            } else {
                self.add_module(&format!("{real}/{f}"));
            }
        }
        let from = if seen.starts_with("/w/node_modules") || seen.starts_with("/w/app/node_modules") && seen.matches("node_modules").count() == 1 {
            format!("{APP}/src")
        } else {
            seen.rsplit_once("/node_modules/").unwrap().0.to_string() + "/lib"
        };
        let mut probes = vec![];
        for suffix in ["", "", "", "/int", "/lib/a", "/lib/a.js", "/lib", "/feat/one", "/feat/two", "/main.js", "/esm/index.mjs", "/internal/x"] {
            probes.push((from.clone(), format!("{name}{suffix}")));
            self.reqs.push(format!("{name}{suffix}"));
        }
        for r in ["#int", "#feat/one", "#dep", "./a", "./b.js", "../main"] {
            probes.push((format!("{seen}/lib"), s(r)));
        }
        probes.push((from.clone(), format!("{seen}/lib")));
        probes.push((from, s(seen)));
        let exists = self.rng.chance(0.92);
        self.site(
            Site {
                dir: s(real),
                file: s("package.json"),
                name: s(name),
                probes: probes.clone(),
                side: vec![s(seen), format!("{seen}/lib"), format!("{seen}/main.js"), format!("{seen}/lib/a.js"), s(real)],
            },
            exists,
        );
        if self.rng.chance(0.2) {
            let has = self.rng.chance(0.7);
            self.site(
                Site {
                    dir: format!("{real}/lib"),
                    file: s("package.json"),
                    name: format!("{name}-lib"),
                    probes: vec![probes[4].clone(), probes[6].clone(), probes[0].clone()],
                    side: vec![format!("{seen}/lib"), format!("{seen}/lib/a.js")],
                },
                has,
            );
        }
    }

    fn tsconfigs(&mut self) {
        let base = format!("{APP}/tsconfig.base.json");
        let main = format!("{APP}/tsconfig.json");
        self.ts_files.push(main.clone());
        self.ts_files.push(base.clone());
        let c = self.ts_content(0);
        self.add_file(&main, c);
        let c = self.ts_content(1);
        self.add_file(&base, c);
        for f in ["types/a.js", "types/x.js", "alt/a.js", "alt/d/x.js", "alt/x.js"] {
            self.add_module(&format!("{APP}/{f}"));
        }
        for r in ["ts/a", "ts/a", "ts/d/x", "ts/d/x", "ts/x", "ts/missing", "ts/é"] {
            self.reqs.push(s(r));
            self.reqs.push(s(r));
        }
        let m = format!("{APP}/node_modules/@cfg/ts/tsconfig.json");
        let c = self.ts_content(2);
        self.add_file(&m, c);
        self.ts_files.push(m);
        let root = format!("{APP}/tsconfig.root.json");
        let c = self.ts_content(3);
        self.add_file(&root, c);
        self.ts_files.push(root);
        self.add_module("/w/other/o.js");
        self.reqs.push(s("/w/other/o"));
        let has = self.rng.chance(0.6);
        self.site(
            Site {
                dir: format!("{APP}/node_modules/@cfg/ts"),
                file: s("package.json"),
                name: s("@cfg/ts"),
                probes: vec![
                    (s("/w/other"), s("./o")),
                    (s("/w/other"), s("./o")),
                    (format!("{APP}/src"), s("ts/a")),
                    (format!("{APP}/src"), s("@cfg/ts/tsconfig.json")),
                ],
                side: vec![format!("{APP}/node_modules/@cfg/ts")],
            },
            has,
        );
    }

    /// level: how far down a chain of extends it stands
    pub fn ts_content(&mut self, level: usize) -> String {
        let main = level == 0;
        let r = &mut self.rng;
        let mut paths = Map::new();
        let mut opts = Map::new();
        let cands = [
            ("ts/*", vec!["src/*"]),
            ("ts/*", vec!["alt/*"]),
            ("ts/*", vec!["missing/*", "types/*"]),
            ("ts/a", vec!["alt/a.js"]),
            ("ts/a", vec!["types/a"]),
            ("ts/d/*", vec!["alt/*"]),
            ("ts/d/*", vec!["src/d/*"]),
            ("*", vec!["types/*"]),
            ("t*", vec!["types/x"]),
            ("ts*", vec!["alt/x"]),
            ("lib", vec!["lib/index.js"]),
            ("ts/*", vec!["missing/*", "gone/*", "alt/*", "src/*"]),
            ("ts/d/x", vec!["alt/x.js", "src/d/x.js"]),
            ("*/a", vec!["alt/a"]),
            ("ts/*/x", vec!["src/d/x", "types/x"]),
            ("t*/d/x", vec!["types/x.js"]),
        ];
        let n = if r.chance(0.12) { r.range(5, 12) } else { r.range(if main { 0 } else { 1 }, 4) };
        for _ in 0..n {
            let (k, v) = r.pick(&cands).clone();
            paths.insert(s(k), json!(v));
        }
        if !paths.is_empty() {
            opts.insert(s("paths"), Value::Object(paths));
        }
        if r.chance(if main { 0.75 } else { 0.6 }) {
            opts.insert(s("baseUrl"), json!(*r.pick(&[".", "./", ".", "src/.."])));
        }
        let mut o = Map::new();
        if main && r.chance(0.75) {
            o.insert(
                s("extends"),
                json!(*r.pick(&["./tsconfig.base.json", "./tsconfig.base.json", "./tsconfig.base", "@cfg/ts/tsconfig.json"])),
            );
        }
        if (level == 1 || level == 2) && r.chance(0.4) {
            let x = match level {
                1 => *r.pick(&["@cfg/ts/tsconfig.json", "@cfg/ts/tsconfig.json", "./tsconfig.root.json", "./tsconfig.root"]),
                _ => *r.pick(&["../../../tsconfig.root.json", "../../../tsconfig.root"]),
            };
            o.insert(s("extends"), json!(x));
        }
        if !opts.is_empty() {
            o.insert(s("compilerOptions"), Value::Object(opts));
        }
        let mut t = serde_json::to_string(&Value::Object(o)).unwrap();
        if r.chance(0.3) {
            t.push_str(" // c\n");
        }
        t
    }

    /// the text of a description file; every version carries a tag of its own
    pub fn desc(&mut self, name: &str, dir: &str) -> String {
        self.tag += 1;
        let tag = self.tag;
        let in_app = dir == APP || dir == "/w" || dir.starts_with("/w/app/src");
        let r = &mut self.rng;
        let mut o = Map::new();
        o.insert(s("name"), json!(if r.chance(0.93) { name } else { "other" }));
        if r.chance(0.7) {
            o.insert(s("version"), json!("1.0.0"));
        }
        if r.chance(0.75) {
            o.insert(
                s("main"),
                json!(*r.pick(&["./main.js", "main", "lib", "./lib/index.js", "./lib/", "./missing.js", "./feat/one", "./internal/y.js"])),
            );
        }
        if r.chance(0.3) {
            o.insert(s("module"), json!(*r.pick(&["./esm/index.mjs", "feat/one.js", "./feat/two.js"])));
        }
        match r.below(10) {
            0 => {
                o.insert(s("browser"), json!("./browser.js"));
            }
            1..=4 => {
                let cands = [
                    ("./main.js", json!("./browser.js")),
                    ("./main.js", json!("./feat/two.js")),
                    ("./main", json!("./lib/b.js")),
                    ("./lib/a.js", json!("./lib/b.js")),
                    ("./lib/a", json!("./browser.js")),
                    ("./lib/a", json!(false)),
                    ("./main.js", json!(false)),
                    ("./index.js", json!(false)),
                    ("p2", json!(false)),
                    ("@s/q", json!(false)),
                    ("./index.js", json!("./browser.js")),
                    ("./index", json!("./lib/b.js")),
                    ("./feat/one.js", json!("./feat/two.js")),
                    ("./feat/one.js", json!(false)),
                    ("p1", json!("./lib/b.js")),
                    ("p1", json!(false)),
                    ("p0", json!(false)),
                    ("./lib/index.js", json!("./lib/b.js")),
                    ("./src/a.js", json!("./src/b.js")),
                    ("./src/a", json!(false)),
                    ("./src/a", json!("./lib/util.js")),
                    ("./src/d/index.js", json!("./src/b.js")),
                    ("./lib/b.js", json!("./feat/two.js")),
                    ("./lib/b", json!("./lib/a")),
                    ("./browser.js", json!("./lib/a.js")),
                    ("./feat/two.js", json!("./lib/b.js")),
                    ("p1", json!("p0")),
                    ("p0", json!("./main.js")),
                ];
                let mut m = Map::new();
                let n = if r.chance(0.15) { r.range(5, 12) } else { r.range(1, 4) };
                for _ in 0..n {
                    let (k, v) = r.pick(&cands).clone();
                    m.insert(s(k), v);
                }
                o.insert(s("browser"), Value::Object(m));
            }
            _ => {}
        }
        if r.chance(if self.kin { 0.9 } else if in_app { 0.4 } else { 0.45 }) {
            let e = match r.below(10) {
                0 => json!("./main.js"),
                1 => json!({".": "./main.js", "./feat/*": "./feat/*.js", "./lib/a": "./lib/b.js"}),
                2 => json!({".": {"node": "./main.js", "import": "./esm/index.mjs", "default": "./index.js"}, "./lib/": "./lib/"}),
                3 => json!({".": {"browser": "./browser.js", "default": "./main.js"}, "./feat/one": "./feat/two.js", "./main.js": "./main.js"}),
                4 => json!({"node": "./main.js", "default": "./index.js"}),
                5 => json!({"import": "./feat/one.js", "node": "./feat/two.js", "default": "./index.js"}),
                6 => json!({".": ["./missing.js", "./main.js"], "./internal/*": "./internal/*.js", "./lib/": {"browser": "./feat/", "default": "./lib/"}}),
                7 | 9 => json!({"#int": "./internal/x.js"}),
                _ => json!({".": "./index.js", "./feat/*": {"import": "./feat/two.js", "default": "./feat/*.js"}, "./lib/a": "./lib/a.js"}),
            };
            o.insert(s("exports"), e);
        }
        if r.chance(if in_app { 0.6 } else { 0.3 }) {
            let e = match r.below(11) {
                8 => json!({"#dep": *r.pick(&["p0", "p1", "p2", "@s/q", "p0/feat/one", "p1/lib/a", "@s/q/internal/x"]), "#int": *r.pick(&["p0", "p1", "p1/lib/"])}),
                9 => json!({"#feat/*": *r.pick(&["p1/feat/*", "p0/*", "@s/q/feat/*", "p2"]), "#int": {"node": "p1", "default": "p0"}}),
                10 => json!({"#dep": [*r.pick(&["./missing.js", "nowhere", "p1/nothing"]), *r.pick(&["p0", "p1", "./main.js"])], "#int": "./internal/x.js"}),
                0 | 7 => json!({"#int": "./internal/x.js"}),
                1 => json!({"#int": {"node": "./internal/x.js", "default": "./internal/y.js"}, "#feat/*": "./feat/*.js"}),
                2 => json!({"#dep": "p1", "#int": "./internal/y.js"}),
                3 => json!({"#feat/one": "./feat/one.js", "#dep": "p0/lib/a.js"}),
                4 => json!({"#int": {"import": "./feat/one.js", "browser": "./main.js", "default": "./internal/x.js"}, "#feat/*": "./internal/x.js"}),
                5 => json!({"#int": ["./internal/y.js", "./internal/x.js"]}),
                _ => json!({"#int": "./main.js", "#feat/": "./feat/"}),
            };
            o.insert(s("imports"), e);
        }
        let se = match r.below(12) {
            0 => json!(false),
            1 => json!(true),
            2..=5 => {
                let mut a = vec![format!("tag-{tag}.js")];
                for _ in 0..r.range(0, 5) {
                    a.push(s(*r.pick(&["*.css", "./src/*.js", "lib/a.js", "./main.js", "**/*.scss", "", "é.js", "*.css", "a", "B.js"])));
                }
                r.shuffle(&mut a);
                if r.chance(0.15) {
                    a.clear();
                }
                json!(a)
            }
            _ => json!([format!("tag-{tag}.js")]),
        };
        o.insert(s("sideEffects"), se);
        if r.chance(0.5) {
            o.insert(s("tag"), json!(tag));
        }
        for f in ["exports", "imports", "browser"] {
            if let Some(x) = o.get_mut(f) {
                let like: Vec<&Value> = self.pool.iter().filter(|p| p.0 == f).map(|p| &p.1).collect();
                if !like.is_empty() && r.chance(if self.kin { 0.85 } else { 0.35 }) {
                    *x = { let k = r.below(like.len()); resemble(like[k], r) };
                } else if f != "browser" && r.chance(0.22) {
                    enrich(f, x, r);
                } else if r.chance(0.15) {
                    permute(x, r);
                }
                self.pool.push((s(f), x.clone()));
                if self.hot.len() < 400 {
                    heat(&mut self.hot, f, x, dir, r);
                }
            }
        }
        if let Some(k) = self.padded {
            // long fields, that differ from each other somewhere behind or in front of a long common part
            for (f, hash) in [("exports", "./"), ("imports", "#")] {
                if let Some(Value::Object(m)) = o.get_mut(f) {
                    if !m.keys().all(|x| x.starts_with(&hash[..1])) {
                        continue;
                    }
                    let mut pad = Map::new();
                    for i in 0..k {
                        pad.insert(format!("{hash}zz/padding-{i:05}"), json!("./main.js"));
                    }
                    let own = std::mem::take(m);
                    if k % 2 == 0 {
                        m.extend(pad);
                        m.extend(own);
                    } else {
                        m.extend(own);
                        m.extend(pad);
                    }
                    let n = Value::Object(m.clone()).to_string().len();
                    let fill = (n / 256 + 2) * 256 - n;
                    m.insert(format!("{hash}zz/{}", "y".repeat(fill)), json!("./index.js"));
                }
            }
        }
        let mut keys: Vec<(String, Value)> = o.into_iter().collect();
        if r.chance(0.3) {
            r.shuffle(&mut keys);
        }
        let o: Map<String, Value> = keys.into_iter().collect();
        let v = Value::Object(o);
        let mut t = if r.chance(0.3) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
        if r.chance(0.2) {
            t.push('\n');
        }
        if r.chance(0.04) && !self.texts.is_empty() {
            // word for word what another file holds
            return r.pick(&self.texts).clone();
        }
        self.texts.push(t.clone());
        t
    }

    // ---------------------------------------------------------------- options and calls

    pub fn opts(&mut self, plain: bool) -> ROpts {
        let alt = self.alt_desc;
        let ts = self.tsconfig;
        let r = &mut self.rng;
        let v = |x: &[&str]| x.iter().map(|y| s(y)).collect::<Vec<_>>();
        let mut o = ROpts {
            extensions: v(*r.pick(&[&[".js"][..], &[".js", ".json", ".node"], &[".ts", ".js"], &[".mjs", ".js"], &[".js", ".ts"], &[".mjs", ".ts", ".js", ".json", ".node"], &[".ts", ".tsx", ".mjs", ".js", ".json"], &["", ".js"]])),
            enforce_extension: if r.chance(0.06) { Some(r.chance(0.5)) } else { None },
            alias: vec![],
            prefer_relative: false,
            symlinks: r.chance(0.8),
            description_file: Some(s("package.json")),
            main_files: v(*r.pick(&[&["index"][..], &["index"], &["main", "index"], &["index", "main"], &["x", "a", "index", "main"]])),
            main_fields: v(*r.pick(&[&["main"][..], &["main"], &["module", "main"], &["browser", "module", "main"], &["browser", "main"], &["es2020", "module", "browser", "main"]])),
            browser_field: r.chance(0.35),
            condition_names: v(*r.pick(&[&["node"][..], &["node"], &["import", "node"], &["browser"], &["browser", "import"], &[], &["node", "import", "development"], &["production", "require", "worker", "deno"], CONDS])),
            tsconfig: None,
            cache: None,
        };
        if r.chance(0.06) {
            // as they are by default
            o = ROpts {
                extensions: v(&[".js", ".json", ".node"]),
                enforce_extension: None,
                alias: vec![],
                prefer_relative: false,
                symlinks: true,
                description_file: Some(s("package.json")),
                main_files: v(&["index"]),
                main_fields: v(&["main"]),
                browser_field: false,
                condition_names: v(&["node"]),
                tsconfig: None,
                cache: None,
            };
            return o;
        }
        match r.below(40) {
            0 | 1 => o.main_fields.clear(),
            2 => o.main_files.clear(),
            3 => o.extensions.clear(),
            _ => {}
        }
        if alt && r.chance(0.45) {
            o.description_file = Some(s("pkg.json"));
        } else if r.chance(0.04) {
            o.description_file = None;
        }
        if ts && r.chance(0.75) {
            o.tsconfig = Some(format!("{APP}/tsconfig.json"));
        }
        if !plain {
            if r.chance(0.25) {
                let all = [
                    ("~", Some("/w/app/src")),
                    ("~", Some("/w/app/missing")),
                    ("~", Some("/w/app/lib")),
                    ("p2", Some("p1")),
                    ("p0", Some("@s/q")),
                    ("missing-pkg", Some("p1")),
                    ("missing-pkg", None),
                    ("p0", None),
                    ("p1", None),
                    ("p2/lib", None),
                    ("./a", None),
                    ("./b", None),
                    ("@s/q", None),
                    ("#feat", None),
                    ("./missing", Some("./a")),
                    ("ts", Some("/w/app/src")),
                    ("p1/lib", Some("p0/lib")),
                    ("p1", Some("/w/app/node_modules/p1?from#alias")),
                    ("@s", Some("/w/app/node_modules/@s")),
                    ("#int", Some("./a")),
                ];
                let n = if r.chance(0.15) { r.range(4, 8) } else { r.range(1, 3) };
                for _ in 0..n {
                    let (a, b) = *r.pick(&all);
                    o.alias.push((s(a), b.map(s)));
                    let st = s(*r.pick(&["/w/app", "/w/app/src"]));
                    self.hot.push((st, if r.chance(0.5) { s(a) } else { format!("{a}/{}", r.pick(&["a", "lib/a", "index.js", "b"])) }));
                }
            }
            o.prefer_relative = r.chance(0.1);
            if r.chance(0.05) {
                // options that lead in circles, at least some requests
                let all: [&[(&str, &str)]; 9] = [
                    &[("p0", "p1"), ("p1", "p0")],
                    &[("p0", "p1"), ("p1", "@s/q"), ("@s/q", "p0")],
                    &[("./a", "./b"), ("./b", "./a")],
                    &[("missing-pkg", "./missing"), ("./missing", "missing-pkg")],
                    &[("ts", "é/ts"), ("é", "ts/é")],
                    &[("#int", "./a"), ("./a", "#int")],
                    &[("p0", "app"), ("app", "p1"), ("p1", "p0"), ("p0", "./a")],
                    &[("./", "@x"), ("@x", "./")],
                    &[("p1", "/w/app/src"), ("/w/app/src", "p1"), ("", "p0"), ("p0", "p1")],
                ];
                o.alias.extend(r.pick(&all).iter().map(|(a, b)| (s(a), Some(s(b)))));
                if r.chance(0.3) {
                    r.shuffle(&mut o.alias);
                }
                o.prefer_relative |= r.chance(0.2);
            }
        }
        o
    }

    pub fn any_req(&mut self) -> (String, String) {
        if self.rng.chance(0.6) {
            let k = self.rng.below(self.sites.len());
            let p = &self.sites[k].probes;
            let x = p[self.rng.below(p.len())].clone();
            return x;
        }
        if !self.hot.is_empty() && self.rng.chance(0.3) {
            return self.rng.pick(&self.hot).clone();
        }
        let st = self.rng.pick(&self.starts).clone();
        let mut rq = self.rng.pick(&self.reqs).clone();
        if self.rng.chance(0.05) {
            rq = s(*self.rng.pick(&["~/a", "~/d/x", "~/util"]));
        }
        if self.rng.chance(0.08) && !rq.contains('?') {
            rq.push_str(*self.rng.pick(&["?q=1", "#f", "?q#f"]));
        }
        (st, rq)
    }

    pub fn any_side(&mut self) -> String {
        let k = self.rng.below(self.sites.len());
        let p = &self.sites[k].side;
        p[self.rng.below(p.len())].clone()
    }

    pub fn call(&mut self, r: usize) -> Op {
        if self.rng.chance(0.22) {
            Op::Side { r, path: self.any_side() }
        } else {
            let (path, req) = self.any_req();
            Op::Resolve { r, path, req }
        }
    }

    /// a call that looks at this description file
    pub fn probe(&mut self, r: usize, site: &Site) -> Op {
        if self.rng.chance(0.4) {
            Op::Side { r, path: self.rng.pick(&site.side).clone() }
        } else {
            let (path, req) = self.rng.pick(&site.probes).clone();
            Op::Resolve { r, path, req }
        }
    }

    // ---------------------------------------------------------------- changes

    /// remembers the steps' effect on the tree
    fn commit(&mut self, steps: Vec<Step>) -> Vec<Step> {
        for st in &steps {
            let _ = self.cur.apply(st, &mut self.clock);
        }
        for (a, b) in &self.hard {
            if let (Ok(x), Ok(y)) = (self.cur.lookup(a.as_bytes(), true), self.cur.lookup(b.as_bytes(), true)) {
                if x == y {
                    let m = self.cur.node(x).mtime;
                    self.last_mtime.insert(a.clone(), m);
                    self.last_mtime.insert(b.clone(), m);
                }
            }
        }
        steps
    }

    /// new contents for one file, as one atomic change or piecewise
    pub fn put(&mut self, path: &str, text: String, torn: f64) -> Vec<Step> {
        let m = self.next_mtime(path);
        let path = s(path);
        let b: Vec<u8> = text.into_bytes();
        let steps = if b.len() > 4 && self.rng.chance(torn) {
            let mut v = vec![];
            // the clock stands still or ticks on between the pieces
            let mut mt = m;
            v.push(Step::Trunc { path: path.clone(), mtime: m });
            let k = self.rng.range(1, 3);
            let mut pos = 0;
            for i in 0..k {
                let end = if i + 1 == k { b.len() } else { pos + self.rng.below(b.len() - pos) };
                if end > pos || i + 1 == k {
                    mt += self.rng.below(3) as i64 * 1000;
                    v.push(Step::Append { path: path.clone(), data: Bytes(b[pos..end].to_vec()), mtime: mt });
                    self.last_mtime.insert(path.clone(), mt);
                }
                pos = end;
            }
            v
        } else if self.rng.chance(0.5) {
            vec![Step::Replace { path, data: Bytes(b), mtime: m }]
        } else {
            vec![Step::Write { path, data: Bytes(b), mtime: m }]
        };
        self.commit(steps)
    }

    pub fn pick_site(&mut self, focus: &[usize]) -> Site {
        let k = if !focus.is_empty() && self.rng.chance(0.8) { *self.rng.pick(focus) } else { self.rng.below(self.sites.len()) };
        self.sites[k].clone()
    }

    pub fn edit_desc(&mut self, site: &Site, torn: f64) -> Vec<Step> {
        if !self.cur.is_dir(&site.dir) {
            return vec![];
        }
        let text = self.desc(&site.name, &site.dir);
        self.put(&site.path(), text, torn)
    }

    /// a description file comes, goes or moves
    pub fn move_desc(&mut self, site: &Site) -> Vec<Step> {
        let p = site.path();
        if self.cur.is_file(&p) {
            let steps = match self.rng.below(6) {
                0 => vec![Step::Rename { from: p.clone(), to: format!("{p}.bak") }],
                1 => vec![Step::Unlink { path: p.clone() }, Step::Mkdir { path: p.clone() }],
                _ => vec![Step::Unlink { path: p.clone() }],
            };
            self.commit(steps)
        } else if self.cur.is_dir(&p) {
            self.commit(vec![Step::RmTree { path: p }])
        } else if self.cur.is_file(&format!("{p}.bak")) && self.rng.chance(0.4) {
            self.commit(vec![Step::Rename { from: format!("{p}.bak"), to: p }])
        } else if self.cur.is_dir(&site.dir) {
            self.edit_desc(site, 0.1)
        } else {
            vec![]
        }
    }

    /// the package directory is removed, renamed, replaced or restored
    pub fn move_dir(&mut self, dir: &str) -> Vec<Step> {
        let aside = format!("{dir}.aside");
        if self.cur.lookup(dir.as_bytes(), false).is_err() {
            if self.cur.is_dir(&aside) {
                return self.commit(vec![Step::Rename { from: aside, to: s(dir) }]);
            }
            return self.rebuild(dir);
        }
        if self.cur.is_dir(&aside) {
            // put something else in its place: the old contents come back
            let other = format!("{dir}.other");
            if self.cur.is_dir(&other) {
                return vec![];
            }
            return self.commit(vec![
                Step::Rename { from: s(dir), to: other },
                Step::Rename { from: aside, to: s(dir) },
            ]);
        }
        let steps = match self.rng.below(3) {
            0 => vec![Step::RmTree { path: s(dir) }],
            _ => vec![Step::Rename { from: s(dir), to: aside }],
        };
        let mut steps = self.commit(steps);
        if self.rng.chance(0.4) {
            steps.extend(self.rebuild(dir));
        }
        steps
    }

    /// a directory with the files it had in the beginning, and a new description
    pub fn rebuild(&mut self, dir: &str) -> Vec<Step> {
        let mut steps = vec![Step::Mkdir { path: s(dir) }];
        let prefix = format!("{dir}/");
        let mut dirs = std::collections::BTreeSet::new();
        let mut files = vec![];
        for n in &self.nodes {
            if let Node::File { path, data, .. } = n {
                if path.starts_with(&prefix) && !path[prefix.len()..].contains("node_modules") {
                    let mut d = prefix.len();
                    while let Some(i) = path[d..].find('/') {
                        dirs.insert(path[..d + i].to_string());
                        d += i + 1;
                    }
                    files.push((path.clone(), data.clone()));
                }
            }
        }
        for d in dirs {
            steps.push(Step::Mkdir { path: d });
        }
        let mut descs = vec![];
        for (p, data) in files {
            if self.sites.iter().any(|x| x.path() == p) {
                descs.push(p);
            } else {
                steps.push(Step::Write { path: p, data, mtime: BASE });
            }
        }
        if self.rng.chance(0.5) {
            // description first, then the rest
            let keep = steps.len();
            let mut out = self.commit(steps);
            for p in descs {
                let site = self.sites.iter().find(|x| x.path() == p).unwrap().clone();
                out.extend(self.edit_desc(&site, 0.0));
            }
            let tail: Vec<Step> = out.drain(keep..).collect();
            let first = out.iter().position(|x| matches!(x, Step::Write { .. })).unwrap_or(out.len());
            let mut res: Vec<Step> = out.drain(..first).collect();
            res.extend(tail);
            res.extend(out);
            return res;
        }
        let mut out = self.commit(steps);
        for p in descs {
            if self.rng.chance(0.9) {
                let site = self.sites.iter().find(|x| x.path() == p).unwrap().clone();
                out.extend(self.edit_desc(&site, 0.0));
            }
        }
        out
    }

    /// changes of module files should concern what these ask for
    pub fn aim(&mut self, menu: &[Op]) {
        for op in menu {
            let Op::Resolve { path, req, .. } = op else { continue };
            let plain = req.split(['?', '#']).next().unwrap();
            let mut names: Vec<&str> = plain.split('/').filter(|x| !x.is_empty() && *x != "." && *x != "..").collect();
            let last = names.last().copied().unwrap_or_else(|| path.rsplit('/').next().unwrap());
            let stem = last.split('.').next().unwrap();
            for m in &self.modules {
                let mut parts = m.rsplit('/');
                let own = parts.next().unwrap();
                let own = own.split('.').next().unwrap();
                let above = parts.next().unwrap();
                if (own == stem || above == last && matches!(own, "index" | "main")) && !self.aimed.contains(m) {
                    self.aimed.push(m.clone());
                }
            }
            names.extend(path.split('/'));
            for (k, (l, _)) in self.links.iter().enumerate() {
                let own = l.rsplit('/').next().unwrap();
                if names.iter().any(|n| *n == own || Some(*n) == own.split('.').next()) && !self.aimed_links.contains(&k) {
                    self.aimed_links.push(k);
                }
            }
        }
    }

    /// module files, directories and links change
    pub fn churn(&mut self, focus: &[usize]) -> Vec<Step> {
        if self.rng.chance(0.1) {
            let v = self.shadow();
            if !v.is_empty() {
                return v;
            }
        }
        let prefix = if !focus.is_empty() && self.rng.chance(0.7) { self.sites[*self.rng.pick(focus)].dir.clone() } else { String::new() };
        let cands: Vec<String> = self.modules.iter().filter(|m| m.starts_with(&prefix)).cloned().collect();
        if cands.is_empty() {
            return vec![];
        }
        let mut m = self.rng.pick(&cands).clone();
        if !self.aimed.is_empty() && self.rng.chance(0.5) {
            m = self.rng.pick(&self.aimed).clone();
        }
        let (dir, name) = m.rsplit_once('/').unwrap();
        let (dir, name) = (s(dir), s(name));
        if !self.links.is_empty() && self.rng.chance(if self.aimed_links.is_empty() { 0.3 } else { 0.5 }) {
            let mut k = self.rng.below(self.links.len());
            if !self.aimed_links.is_empty() && self.rng.chance(0.7) {
                k = *self.rng.pick(&self.aimed_links);
            }
            let (p, ts) = self.links[k].clone();
            let t = self.rng.pick(&ts).clone();
            if self.cur.lookup(p.as_bytes(), false).is_ok() && self.rng.chance(0.15) {
                return self.commit(vec![Step::Unlink { path: p }]);
            }
            if t.starts_with('/') && self.rng.chance(0.15) {
                // what it leads to takes the place of the link, or moves out again
                let link = self.cur.lookup(p.as_bytes(), false).is_ok() && self.cur.realpath(p.as_bytes()).ok().as_deref() != Some(p.as_bytes());
                let there = self.cur.lookup(t.as_bytes(), false).is_ok();
                if link && there {
                    return self.commit(vec![Step::Unlink { path: p.clone() }, Step::Rename { from: t, to: p }]);
                }
                if !link && !there {
                    return self.commit(vec![Step::Rename { from: p.clone(), to: t.clone() }, Step::Link { path: p, target: t }]);
                }
            }
            if self.rng.chance(0.35) {
                // what the link leads to comes or goes, or changes kind
                let real = match self.cur.realpath(p.as_bytes()) {
                    Ok(x) => String::from_utf8(x).unwrap(),
                    Err(_) if t.starts_with('/') => t,
                    Err(_) => format!("{}/{}", p.rsplit_once('/').unwrap().0, t),
                };
                let aside = format!("{real}.gone");
                let steps = if self.cur.lookup(real.as_bytes(), false).is_ok() && self.cur.lookup(aside.as_bytes(), false).is_err() {
                    if self.cur.is_file(&real) && self.rng.chance(0.3) {
                        vec![Step::Unlink { path: real.clone() }, Step::Mkdir { path: real.clone() }, Step::Write { path: format!("{real}/index.js"), data: "//".into(), mtime: BASE }]
                    } else {
                        vec![Step::Rename { from: real, to: aside }]
                    }
                } else if self.cur.lookup(aside.as_bytes(), false).is_ok() {
                    let mut v = vec![];
                    if self.cur.is_dir(&real) {
                        v.push(Step::RmTree { path: real.clone() });
                    } else if self.cur.lookup(real.as_bytes(), false).is_ok() {
                        v.push(Step::Unlink { path: real.clone() });
                    }
                    v.push(Step::Rename { from: aside, to: real });
                    v
                } else {
                    vec![]
                };
                return self.commit(steps);
            }
            return self.commit(vec![Step::Link { path: p, target: t }]);
        }
        if self.rng.chance(0.06) {
            // a directory moves elsewhere and a link takes its place, or it moves back
            let above: Vec<String> = {
                let mut d = dir.as_str();
                let mut v = vec![];
                while d.len() > "/w".len() {
                    v.push(s(d));
                    d = d.rsplit_once('/').map_or("", |x| x.0);
                }
                v
            };
            if !above.is_empty() {
                let d = self.rng.pick(&above).clone();
                let aside = format!("{d}.real");
                let real = |w: &Self, p: &str| w.cur.lookup(p.as_bytes(), false).map_or(false, |i| matches!(w.cur.node(i).kind, crate::vfs::Kind::Dir(_)));
                let target = if self.rng.chance(0.5) { aside.clone() } else { s(aside.rsplit('/').next().unwrap()) };
                match (real(self, &d), real(self, &aside)) {
                    (true, false) => return self.commit(vec![Step::Rename { from: d.clone(), to: aside }, Step::Link { path: d, target }]),
                    (false, true) => return self.commit(vec![Step::Unlink { path: d.clone() }, Step::Rename { from: aside, to: d }]),
                    _ => {}
                }
            }
        }
        if self.rng.chance(0.03) {
            // a directory may no longer be entered, or again
            let all = [format!("{APP}/src/d"), format!("{APP}/src/deep"), format!("{APP}/node_modules"), format!("{APP}/lib"), format!("{APP}/src/deep/e")];
            let path = self.rng.pick(&all).clone();
            if let Ok(i) = self.cur.lookup(path.as_bytes(), true) {
                let deny = !self.cur.node(i).deny;
                return self.commit(vec![Step::Chmod { path, deny }]);
            }
        }
        if !self.cur.is_dir(&dir) {
            if self.cur.is_dir(&format!("{dir}~")) {
                return self.commit(vec![Step::Rename { from: format!("{dir}~"), to: dir }]);
            }
            return vec![];
        }
        let ex = self.cur.lookup(m.as_bytes(), false).is_ok();
        let stem = name.split('.').next().unwrap().to_string();
        let steps = if !ex {
            match self.rng.below(5) {
                4 => vec![Step::Special { path: m.clone() }],
                0 => vec![Step::Link { path: m.clone(), target: format!("{APP}/src/b.js") }],
                1 if self.cur.is_file(&format!("{m}~")) => vec![Step::Rename { from: format!("{m}~"), to: m.clone() }],
                _ => vec![Step::Write { path: m.clone(), data: "//".into(), mtime: BASE }],
            }
        } else {
            match self.rng.below(9) {
                0..=2 => vec![if self.cur.is_dir(&m) { Step::RmTree { path: m.clone() } } else { Step::Unlink { path: m.clone() } }],
                3 => vec![Step::Rename { from: m.clone(), to: format!("{m}~") }],
                4 => {
                    // a sibling that takes precedence, or no longer
                    let ext = *self.rng.pick(&[".ts", ".mjs", ".json", ""]);
                    let p = format!("{dir}/{stem}{ext}");
                    if self.cur.is_file(&p) && p != m {
                        vec![Step::Unlink { path: p }]
                    } else {
                        vec![Step::Write { path: p, data: "//".into(), mtime: BASE }]
                    }
                }
                5 if self.cur.is_file(&m) => {
                    vec![Step::Unlink { path: m.clone() }, Step::Mkdir { path: m.clone() }, Step::Write { path: format!("{m}/index.js"), data: "//".into(), mtime: BASE }]
                }
                6 => {
                    let p = format!("{APP}/src/missing.js");
                    if self.cur.is_file(&p) {
                        vec![Step::Unlink { path: p }]
                    } else {
                        vec![Step::Write { path: p, data: "//".into(), mtime: BASE }]
                    }
                }
                7 if dir.len() > "/w/app/src".len() && !dir.ends_with("node_modules") => {
                    vec![Step::Rename { from: dir.clone(), to: format!("{dir}~") }]
                }
                _ => vec![Step::Replace { path: m.clone(), data: "//2".into(), mtime: BASE }],
            }
        };
        self.commit(steps)
    }

    /// a nearer place for a package comes or goes
    pub fn shadow(&mut self) -> Vec<Step> {
        if self.rng.chance(0.25) {
            let d = *self.rng.pick(&["/w/app/node_modules", "/w/app/node_modules", "/w/node_modules"]);
            let aside = format!("{d}.aside");
            let (here, there) = (self.cur.lookup(d.as_bytes(), false).is_ok(), self.cur.lookup(aside.as_bytes(), false).is_ok());
            return match (here, there) {
                (true, false) => self.commit(vec![Step::Rename { from: s(d), to: aside }]),
                (false, true) => self.commit(vec![Step::Rename { from: aside, to: s(d) }]),
                _ => vec![],
            };
        }
        let mut base = self.rng.pick(&self.starts).clone();
        if base.contains("..") || !base.starts_with(APP) {
            base = format!("{APP}/src");
        }
        for _ in 0..self.rng.below(3) {
            if base.len() > APP.len() {
                base.truncate(base.rfind('/').unwrap());
            }
        }
        if base.ends_with("node_modules") || !self.cur.is_dir(&base) {
            return vec![];
        }
        let nm = format!("{base}/node_modules");
        let k = self.rng.below(self.pkgs.len() + 1);
        let name = self.pkgs.get(k).map_or(s("missing-pkg"), |p| p.1.clone());
        let p = format!("{nm}/{name}");
        if self.cur.lookup(p.as_bytes(), false).is_ok() {
            if self.pkgs.iter().any(|x| x.0 == p) {
                return vec![];
            }
            let path = if self.rng.chance(0.3) && !self.pkgs.iter().any(|x| x.0.starts_with(&nm)) { nm } else { p };
            let st = if self.cur.lookup(path.as_bytes(), false).map_or(false, |i| matches!(self.cur.node(i).kind, crate::vfs::Kind::Dir(_))) {
                Step::RmTree { path }
            } else {
                Step::Unlink { path }
            };
            return self.commit(vec![st]);
        }
        let mut v = vec![];
        let dir = p.rsplit_once('/').unwrap().0;
        if !self.cur.is_dir(&nm) {
            v.push(Step::Mkdir { path: nm.clone() });
        }
        if dir != nm && !self.cur.is_dir(dir) {
            v.push(Step::Mkdir { path: s(dir) });
        }
        match self.rng.below(6) {
            0 => v.push(Step::Write { path: format!("{p}.js"), data: "//".into(), mtime: BASE }),
            1 => {
                let target = self.rng.pick(&self.pkgs).0.clone();
                v.push(Step::Link { path: p, target });
            }
            _ => {
                v.push(Step::Mkdir { path: p.clone() });
                for f in ["index.js", "main.js", "lib/a.js"] {
                    if f.contains('/') {
                        v.push(Step::Mkdir { path: format!("{p}/lib") });
                    }
                    v.push(Step::Write { path: format!("{p}/{f}"), data: "//".into(), mtime: BASE });
                }
                let mut v = self.commit(v);
                if self.rng.chance(0.5) {
                    let text = self.desc(&name, &p);
                    v.extend(self.put(&format!("{p}/package.json"), text, 0.0));
                }
                return v;
            }
        }
        self.commit(v)
    }

    pub fn edit_ts(&mut self, torn: f64) -> Vec<Step> {
        if self.ts_files.is_empty() {
            return vec![];
        }
        let k = self.rng.weighted(&[3, 2, 1, 1]);
        let p = self.ts_files[k].clone();
        if self.rng.chance(0.12) {
            if self.cur.is_file(&p) {
                return self.commit(vec![Step::Unlink { path: p }]);
            }
        }
        if !self.cur.is_dir(p.rsplit_once('/').unwrap().0) {
            return vec![];
        }
        let text = self.ts_content(k);
        let keep = self.times;
        self.times = Times::Any;
        let r = self.put(&p, text, torn);
        self.times = keep;
        r
    }

    /// to another package, or elsewhere in this one
    pub fn chdir(&mut self) -> Vec<Step> {
        let dirs: Vec<String> = self.sites.iter().map(|x| x.dir.clone()).collect();
        let path = match self.rng.below(6) {
            0 => self.rng.pick(&self.starts.clone()).clone(),
            1 => s(*self.rng.pick(&[APP, "/w", "/", "/w/app/src", "/w/app/lib", "/w/app/node_modules"])),
            _ => self.rng.pick(&dirs).clone(),
        };
        if !path.starts_with('/') || path.contains(crate::vfs::RAW) || !self.cur.is_dir(&path) {
            return vec![];
        }
        self.commit(vec![Step::Chdir { path }])
    }

    pub fn odd_clock(&mut self) -> Vec<Step> {
        let d = *self.rng.pick(&[-86_400 * SEC, -SEC, 3600 * SEC, -1_650_000_000 * SEC, 4_000_000_000 * SEC, 500_000_000]);
        self.commit(vec![Step::Clock { delta: d }])
    }

    /// damage to a configuration file; the time always is a second or more away from any other
    pub fn corrupt(&mut self, path: &str, desc: bool) -> Vec<Step> {
        let old = match self.cur.read(path) {
            Some(d) => d,
            None => return vec![],
        };
        let m = self.next_mtime(path);
        let n = old.len();
        let r = &mut self.rng;
        let data: Vec<u8> = match r.below(if desc { 13 } else { 12 }) {
            0 => vec![],
            1 | 2 => old[..r.below(n.max(1))].to_vec(),
            3 => {
                // the tail was never written
                let k = r.below(n.max(1));
                let mut v = old[..k].to_vec();
                v.resize(n, 0);
                v
            }
            4 => {
                let mut v = old.clone();
                for _ in 0..r.range(1, 3) {
                    if n > 0 {
                        let i = r.below(n);
                        v[i] ^= 1 << r.below(8);
                    }
                }
                v
            }
            5 => {
                // old and new contents mixed
                let t = if desc { self.desc("mix", "/x") } else { self.ts_content(0) };
                let t = t.into_bytes();
                let r = &mut self.rng;
                let k = r.below(t.len().min(n).max(1));
                let mut v = t[..k].to_vec();
                v.extend_from_slice(&old[k.min(n)..]);
                v
            }
            6 => b"null".to_vec(),
            7 if r.chance(0.3) => {
                // a byte order mark, before or behind
                let mut v = old.clone();
                let bom = r.pick(&[&b"\xef\xbb\xbf"[..], b"\xff\xfe", b"\xef\xbb", b"\xef"]).to_vec();
                let at = *r.pick(&[0, 0, 0, n, n / 2]);
                v.splice(at..at, bom);
                v
            }
            7 => r.pick(&[&b"[]"[..], b"3", b"\"x\"", b"true", b"{", b"\xff\xfe{}", b"\xef\xbb\xbf{}", b"{}", b"[[[[]]]]", b"// x", b" \n"]).to_vec(),
            8 | 9 | 10 => self.odd_shape(desc).into_bytes(),
            11 => {
                // nested deeply
                let k = *r.pick(&[100usize, 130, 1000, 20_000]);
                let (a, b) = *r.pick(&[("[", "]"), ("{\"exports\":", "}"), ("{\"a\":[", "]}"), ("[", ""), ("{\"\":", "1}")]);
                let inner = format!("{}{}", a.repeat(k), b.repeat(k));
                if r.chance(0.5) {
                    inner.into_bytes()
                } else {
                    let key = *r.pick(&["exports", "imports", "browser", "name", "extends", "compilerOptions"]);
                    format!("{{\"{key}\":{inner}}}").into_bytes()
                }
            }
            _ => self.odd_shape(true).into_bytes(),
        };
        let steps = if self.rng.chance(0.5) {
            vec![Step::Write { path: s(path), data: Bytes(data), mtime: m }]
        } else {
            vec![Step::Replace { path: s(path), data: Bytes(data), mtime: m }]
        };
        self.commit(steps)
    }

    /// valid JSON of a shape nobody expects
    fn odd_shape(&mut self, desc: bool) -> String {
        let odd = [
            json!(null), json!(true), json!(false), json!(0), json!(-1.5e300), json!(""), json!("x"), json!([]), json!([[]]),
            json!([["./main.js"], null]), json!({}), json!({"": ""}), json!({"a": {"b": [1, {"c": null}]}}), json!([1, "x", {}]),
            json!({".": null}), json!({".": 1}), json!({".": [["./main.js"]]}), json!({"./feat/*": false}), json!({"#int": null}),
            json!({"#int": [["./x"]]}), json!({"#": "x"}), json!({"*": "*"}), json!({"./": "."}), json!({"./": ""}), json!([""]),
            json!({".": "", "node": ""}), json!({"default": "./main.js", "node": "./index.js"}), json!("main.js"), json!({".": "main.js"}),
            json!({"./main.js": true}), json!({"p1": true}), json!({"./lib/a": 1}), json!({"ts/*": "src/*"}), json!({"ts/*": [1]}), json!({"ts/*": [null]}),
            json!({"ts/**": ["*/*"]}), json!({"*": []}), json!({"": ["x"]}), json!("é"), json!({"é": ["é/*"]}), json!({"é*": "é"}),
            json!({"./feat/*/*": "./feat/*/*.js"}), json!({"./feat/*": "./feat/*/*/*.js"}), json!({"./*": "./*"}), json!({"./*/": "./"}), json!({"#*": "./internal/*.js"}),
            json!({"ts/*/*": ["src/*/*"]}), json!({"*": ["*"]}), json!({"ts/*": ["*/*", "/", "//w/app/src/*", "..", "../../../../../../*"]}), json!({"./é*": "./é/*"}), json!({"*é": ["*"]}),
        ];
        let keys: &[&str] = if desc {
            &["exports", "exports", "exports", "imports", "imports", "browser", "browser", "main", "module", "name", "sideEffects", "sideEffects", "version"]
        } else {
            &["extends", "compilerOptions", "baseUrl", "paths", "paths"]
        };
        let base = if desc { self.desc("odd", "/w/app") } else { self.ts_content(0) };
        let r = &mut self.rng;
        let mut v: Value = serde_json::from_str(base.split(" // c").next().unwrap()).unwrap_or(json!({}));
        let o = v.as_object_mut().unwrap();
        let loops = loops();
        if desc && r.chance(0.06) {
            extreme(o, r);
            return v.to_string();
        }
        if r.chance(0.15) {
            // texts of unusual length
            let x = long_text(r);
            if desc {
                let odd = r.pick(&[json!(true), json!(true), json!(false), json!(null), json!(1), json!([["x"]]), json!({"": 2})]).clone();
                match r.below(14) {
                    13 => o.insert(s("version"), json!(x)),
                    9 => o.insert(s("browser"), json!({(x): odd})),
                    10 => o.insert(s("exports"), json!({(if r.chance(0.5) { format!("./{x}") } else { x }): odd})),
                    11 => o.insert(s("imports"), json!({(if r.chance(0.5) { format!("#{x}") } else { x }): odd})),
                    12 => o.insert(s("sideEffects"), json!([x, odd])),
                    0 => o.insert(s("main"), json!(x)),
                    1 => o.insert(s("name"), json!(x)),
                    2 => o.insert(s("module"), json!(x)),
                    3 => o.insert(s("exports"), json!(format!("./{x}"))),
                    4 => o.insert(s("exports"), json!({".": format!("./{x}"), (format!("./{x}")): "./main.js", "./feat/*": format!("./{x}/*")})),
                    5 => o.insert(s("imports"), json!({"#int": x.clone(), (format!("#{x}")): "./main.js", "#dep": format!("p1/{x}")})),
                    6 => o.insert(s("browser"), json!({"./main.js": x.clone(), (x.clone()): "./main.js", "p1": format!("./{x}")})),
                    7 => o.insert(s("sideEffects"), json!([x])),
                    _ => o.insert(s("main"), json!(format!("./{x}.js"))),
                };
            } else {
                let k = r.below(6);
                if k == 0 {
                    o.insert(s("extends"), json!(if r.chance(0.5) { x } else { format!("./{x}") }));
                } else {
                    if !o.get("compilerOptions").map_or(false, |c| c.is_object()) {
                        o.insert(s("compilerOptions"), json!({}));
                    }
                    let c = o.get_mut("compilerOptions").unwrap().as_object_mut().unwrap();
                    match k {
                        1 | 2 => c.insert(s("baseUrl"), json!(x)),
                        3 => c.insert(s("paths"), json!({"ts/*": [x]})),
                        4 => c.insert(s("paths"), json!({"ts/a": [format!("{x}/a"), "src/a"], (format!("ts/{x}*")): ["src/*"]})),
                        _ => c.insert(s("paths"), json!({(format!("{x}*")): ["src/*"], (x): ["src/a"]})),
                    };
                }
            }
            return v.to_string();
        }
        if desc && r.chance(0.4) {
            for _ in 0..r.range(1, 2) {
                let (k, x) = r.pick(&loops).clone();
                o.insert(s(k), x);
            }
            return v.to_string();
        }
        if !desc && r.chance(0.3) {
            let x = *r.pick(LOOP_EXTENDS);
            o.insert(s("extends"), json!(x));
            return v.to_string();
        }
        for _ in 0..r.range(1, 2) {
            let k = s(*r.pick(keys));
            let x = r.pick(&odd).clone();
            if desc || k == "extends" || k == "compilerOptions" {
                if k == "extends" && x.is_string() {
                    continue;
                }
                o.insert(k, x);
            } else {
                if !o.get("compilerOptions").map_or(false, |c| c.is_object()) {
                    o.insert(s("compilerOptions"), json!({"baseUrl": "."}));
                }
                o.get_mut("compilerOptions").unwrap().as_object_mut().unwrap().insert(k, x);
            }
        }
        v.to_string()
    }

    /// a configuration file that leads back to itself
    pub fn looping(&mut self, path: &str) -> Vec<Step> {
        let ts = path.contains("tsconfig");
        let base = if ts { self.ts_content(0) } else { self.desc("app", APP) };
        let r = &mut self.rng;
        let mut v: Value = serde_json::from_str(base.split(" // c").next().unwrap()).unwrap_or(json!({}));
        let o = v.as_object_mut().unwrap();
        if ts {
            o.insert(s("extends"), json!(*r.pick(&LOOP_EXTENDS[..10])));
        } else {
            for _ in 0..r.range(1, 3) {
                let (k, x) = r.pick(&loops()).clone();
                o.insert(s(k), x);
            }
        }
        let text = v.to_string();
        self.put(path, text, 0.1)
    }

    /// content that is certainly no configuration file
    pub fn garbage(&mut self, path: &str) -> Vec<Step> {
        let old = self.cur.read(path).unwrap_or_default();
        let ts = path.contains("tsconfig");
        let r = &mut self.rng;
        let data: Vec<u8> = match r.below(5) {
            0 => b"{\"name\": ".to_vec(),
            1 if old.len() > 3 && !ts => old[..1 + r.below(old.len() - 2)].to_vec(),
            2 => b"{ not json }".to_vec(),
            3 => b"\x00\x00\x00\x00".to_vec(),
            _ => b"{\"main\": \xff\xfe}".to_vec(),
        };
        let m = self.next_mtime(path);
        self.commit(vec![Step::Write { path: s(path), data: Bytes(data), mtime: m }])
    }
}
