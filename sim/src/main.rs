#![recursion_limit = "512"]
#![allow(unknown_lints)]
mod check;
mod exec;
mod gen;
mod heap;
mod interpose;
mod kernel;
mod raw;
mod rng;
mod runner;
mod scenario;
mod shm;
mod shrink;
mod vfs;
mod world;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

/// the same addresses in every process
fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
            use std::os::unix::process::CommandExt;
            let _ = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).exec();
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(String::as_str).unwrap_or("");
    let code = match cmd {
        "check" => runner::check(&a[2]),
        _ => {
            no_aslr();
            let shm: &'static shm::Shm = Box::leak(Box::new(shm::Shm::new()));
            match cmd {
                "worker" => {
                    runner::worker(&a[2..], shm);
                    0
                }
                "shrink" => {
                    runner::shrink_cmd(&a[2..], shm);
                    0
                }
                "recheck" => runner::recheck(&a[2], &a[3], shm),
                "replay" => runner::replay(&a[2], shm),
                "selftest" => runner::selftest(a.get(2).map_or(20, |n| n.parse().unwrap()), shm),
                "try" => {
                    runner::try_cmd(&a[2..], shm);
                    0
                }
                _ => {
                    eprintln!("simrun check PROPERTY | replay FILE | selftest [N] | try PROPERTY SEED FROM N");
                    2
                }
            }
        }
    };
    std::process::exit(code);
}
