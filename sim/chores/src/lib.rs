//! What a host may do with the public parts of resolver and cache.  A crate of its own, so that it
//! is compiled like the code under test: with a scheduling point at every basic block.

use nodejs_resolver::{Resolver, ResolverCache, ResolverOptions};
use std::sync::Arc;

struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

pub enum Chore {
    Packages,
    Exports,
    Imports,
    All,
    Some(u64),
    Gone,
    Walk,
    Show,
    Copy,
    Like,
    Empty,
}

/// does nothing in so many steps
pub fn idle(n: u64) -> u64 {
    let mut x = n;
    for i in 0..n {
        if std::hint::black_box(i) % 3 == 1 {
            x = std::hint::black_box(x ^ i);
        }
    }
    x
}

/// returns the resolver that is to take its place
#[cfg(feature = "upkeep")]
pub fn perform(x: &Resolver, what: Chore) -> Option<Resolver> {
    let cache = x.options.external_cache.clone();
    let with = |c: Option<Arc<ResolverCache>>| ResolverOptions { external_cache: c, ..x.options.clone() };
    match (what, &cache) {
        (Chore::Show, _) => {
            let _ = std::fmt::write(&mut Nowhere, format_args!("{x:?} {cache:#?}"));
        }
        (Chore::Like, _) => return Some(Resolver::new(x.options.clone())),
        (Chore::Empty, _) => return Some(Resolver::new(with(Some(Arc::default())))),
        (_, None) => {}
        (Chore::Packages, Some(c)) => c.file_dir_to_pkg_info.clear(),
        (Chore::Exports, Some(c)) => c.exports_content_to_tree.clear(),
        (Chore::Imports, Some(c)) => c.imports_content_to_tree.clear(),
        (Chore::All, Some(c)) => {
            c.imports_content_to_tree.clear();
            c.file_dir_to_pkg_info.clear();
            c.exports_content_to_tree.clear();
        }
        (Chore::Some(k), Some(c)) => {
            let mut n = 0;
            c.file_dir_to_pkg_info.retain(|_, _| {
                n += 1;
                n % k.max(2) != 1
            });
            c.exports_content_to_tree.retain(|key, _| key.len() as u64 % k.max(2) != 1);
        }
        (Chore::Gone, Some(c)) => c.file_dir_to_pkg_info.retain(|dir, _| dir.is_dir()),
        (Chore::Walk, Some(c)) => {
            for e in c.file_dir_to_pkg_info.iter() {
                let _ = std::fs::metadata(e.key());
            }
            let _ = c.file_dir_to_pkg_info.len() + c.exports_content_to_tree.len();
        }
        (Chore::Copy, Some(c)) => return Some(Resolver::new(with(Some(Arc::new(ResolverCache::clone(c)))))),
    }
    None
}
#[cfg(not(feature = "upkeep"))]
pub fn perform(_: &Resolver, _: Chore) -> Option<Resolver> {
    None
}
