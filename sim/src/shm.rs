//! Memory shared between the pristine parent and the forked runs.

use crate::scenario::{Ev, Fault, FaultKind, Switch};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const LOG_CAP: usize = 16 << 20;
const SW_CAP: usize = 400_000;
const FAULT_CAP: usize = 20_000;
pub const COV_CAP: usize = 1 << 16;

#[repr(C)]
pub struct Header {
    loglen: AtomicU64,
    nsw: AtomicU64,
    nfault: AtomicU64,
    /// 1 when the child got to its end
    pub finished: AtomicU64,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct RawSw {
    at: u64,
    task: u32,
    to: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RawFault {
    task: u32,
    n: u32,
    tag: u32,
    val: i32,
}

pub struct Shm {
    base: *mut u8,
}
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}

pub static mut COV: *mut u8 = std::ptr::null_mut();

impl Shm {
    pub fn new() -> Shm {
        let size = 4096 + LOG_CAP + SW_CAP * 16 + FAULT_CAP * 16 + COV_CAP;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                size,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        let s = Shm { base: p as *mut u8 };
        unsafe { COV = s.base.add(4096 + LOG_CAP + SW_CAP * 16 + FAULT_CAP * 16) };
        s
    }
    pub fn hdr(&self) -> &Header {
        unsafe { &*(self.base as *const Header) }
    }
    fn log(&self) -> *mut u8 {
        unsafe { self.base.add(4096) }
    }
    fn sw(&self) -> *mut RawSw {
        unsafe { self.base.add(4096 + LOG_CAP) as *mut RawSw }
    }
    fn flt(&self) -> *mut RawFault {
        unsafe { self.base.add(4096 + LOG_CAP + SW_CAP * 16) as *mut RawFault }
    }
    pub fn cov(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(COV, COV_CAP) }
    }
    pub fn reset(&self) {
        let h = self.hdr();
        h.loglen.store(0, Relaxed);
        h.nsw.store(0, Relaxed);
        h.nfault.store(0, Relaxed);
        h.finished.store(0, Relaxed);
    }
    pub fn push_raw(&self, b: &[u8]) {
        let h = self.hdr();
        let l = h.loglen.load(Relaxed) as usize;
        if l + b.len() + 4 > LOG_CAP {
            return;
        }
        unsafe {
            std::ptr::copy_nonoverlapping((b.len() as u32).to_le_bytes().as_ptr(), self.log().add(l), 4);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.log().add(l + 4), b.len());
        }
        h.loglen.store((l + 4 + b.len()) as u64, Relaxed);
    }
    pub fn push(&self, e: &Ev) {
        self.push_raw(&serde_json::to_vec(e).unwrap());
    }
    pub fn push_switch(&self, task: usize, at: u64, to: usize) {
        let h = self.hdr();
        let n = h.nsw.load(Relaxed) as usize;
        if n < SW_CAP {
            unsafe { *self.sw().add(n) = RawSw { at, task: task as u32, to: to as u32 } };
            h.nsw.store(n as u64 + 1, Relaxed);
        }
    }
    pub fn push_fault(&self, f: &Fault) {
        let h = self.hdr();
        let n = h.nfault.load(Relaxed) as usize;
        if n < FAULT_CAP {
            let (tag, val) = match f.kind {
                FaultKind::Errno(e) => (0, e),
                FaultKind::Short(n) => (1, n as i32),
                FaultKind::Stall => (2, 0),
            };
            unsafe { *self.flt().add(n) = RawFault { task: f.task as u32, n: f.n, tag, val } };
            h.nfault.store(n as u64 + 1, Relaxed);
        }
    }
    pub fn raw_log(&self) -> Vec<Vec<u8>> {
        let l = self.hdr().loglen.load(Relaxed) as usize;
        let b = unsafe { std::slice::from_raw_parts(self.log(), l) };
        let mut out = vec![];
        let mut i = 0;
        while i + 4 <= l {
            let n = u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
            out.push(b[i + 4..i + 4 + n].to_vec());
            i += 4 + n;
        }
        out
    }
    pub fn events(&self) -> Vec<Ev> {
        self.raw_log().iter().map(|b| serde_json::from_slice(b).unwrap()).collect()
    }
    pub fn switches(&self) -> Vec<Switch> {
        let n = self.hdr().nsw.load(Relaxed) as usize;
        (0..n)
            .map(|i| {
                let r = unsafe { *self.sw().add(i) };
                Switch { task: r.task as usize, at: r.at, to: r.to as usize }
            })
            .collect()
    }
    pub fn faults(&self) -> Vec<Fault> {
        let n = self.hdr().nfault.load(Relaxed) as usize;
        (0..n)
            .map(|i| {
                let r = unsafe { *self.flt().add(i) };
                let kind = match r.tag {
                    0 => FaultKind::Errno(r.val),
                    1 => FaultKind::Short(r.val as u32),
                    _ => FaultKind::Stall,
                };
                Fault { task: r.task as usize, n: r.n, kind }
            })
            .collect()
    }
}
