//! The allocator of the harness. It passes everything to the system allocator, except on threads
//! that run under a `Tracker`: their allocations are recorded, freed blocks are checked against
//! the layout they were made with, overwritten and kept until the end of the history, so that a
//! second release, a release with another layout, a write after the release and a leak are all
//! seen exactly, and no address is used twice.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Track;
thread_local! { static CUR: Cell<*const Tracker> = const { Cell::new(std::ptr::null()) } }

#[derive(Default)]
struct State { live: BTreeMap<usize, (usize, usize)>, freed: BTreeMap<usize, (usize, usize)>, errors: Vec<String>, allocs: u64 }

#[derive(Default)]
pub struct Tracker { lock: AtomicBool, s: UnsafeCell<State> }
unsafe impl Sync for Tracker {}
unsafe impl Send for Tracker {}

const POISON: u8 = 0xa5;

impl Tracker {
    fn with<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        let cur = CUR.with(|c| c.replace(std::ptr::null()));
        while self.lock.swap(true, Ordering::Acquire) { std::thread::yield_now() }
        // SAFETY: under the lock
        let r = f(unsafe { &mut *self.s.get() });
        self.lock.store(false, Ordering::Release);
        CUR.with(|c| c.set(cur));
        r
    }
    /// runs `f` with the allocations of this thread recorded
    pub fn run<T>(&self, f: impl FnOnce() -> T) -> T { let _g = Set(CUR.with(|c| c.replace(self))); f() }
    /// whether a live recorded block holds this address
    pub fn is_live(&self, addr: usize) -> bool {
        // a value of size zero lies at the end of its block
        self.with(|s| s.live.range(..addr).next_back().is_some_and(|(p, (n, _))| addr <= p + n))
    }
    pub fn live_blocks(&self) -> usize { self.with(|s| s.live.len()) }
    /// what went wrong so far
    pub fn error(&self) -> Option<String> { self.with(|s| s.errors.first().cloned()) }
    /// the end of the history: nothing may be left. Returns the number of allocations
    pub fn finish(self) -> Result<u64, String> {
        let s = self.s.into_inner();
        let mut errors = s.errors;
        for (p, (n, a)) in &s.freed {
            let b = unsafe { std::slice::from_raw_parts(*p as *const u8, *n) };
            if b.iter().any(|x| *x != POISON) { errors.push(format!("a block of {n} bytes was written after its release")) }
            unsafe { System.dealloc(*p as *mut u8, Layout::from_size_align_unchecked(*n, *a)) }
        }
        if let Some((_, (n, _))) = s.live.first_key_value() { errors.push(format!("{} blocks were not released (the first has {n} bytes)", s.live.len())) }
        match errors.into_iter().next() { Some(e) => Err(e), None => Ok(s.allocs) }
    }
}

struct Set(*const Tracker);
impl Drop for Set { fn drop(&mut self) { CUR.with(|c| c.set(self.0)) } }

/// runs `f` with the allocations of this thread not recorded
pub fn untracked<T>(f: impl FnOnce() -> T) -> T { let _g = Set(CUR.with(|c| c.replace(std::ptr::null()))); f() }

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        let t = CUR.with(|c| c.get());
        if !t.is_null() && !p.is_null() {
            unsafe { std::ptr::write_bytes(p, 0xcd, l.size()) }
            unsafe { &*t }.with(|s| { s.allocs += 1; s.live.insert(p as usize, (l.size(), l.align())); });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let t = CUR.with(|c| c.get());
        if t.is_null() { return unsafe { System.dealloc(p, l) } }
        let foreign = unsafe { &*t }.with(|s| match s.live.remove(&(p as usize)) {
            Some((n, a)) => {
                if (n, a) != (l.size(), l.align()) { s.errors.push(format!("a block of {n} bytes aligned to {a} was released as {} bytes aligned to {}", l.size(), l.align())) }
                unsafe { std::ptr::write_bytes(p, POISON, n) }
                s.freed.insert(p as usize, (n, a));
                false
            }
            None if s.freed.contains_key(&(p as usize)) => { s.errors.push(format!("a block of {} bytes was released twice", l.size())); false }
            None => true,
        });
        if foreign { unsafe { System.dealloc(p, l) } }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if CUR.with(|c| c.get()).is_null() { return unsafe { System.alloc_zeroed(l) } }
        let p = unsafe { self.alloc(l) };
        if !p.is_null() { unsafe { std::ptr::write_bytes(p, 0, l.size()) } }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if CUR.with(|c| c.get()).is_null() { return unsafe { System.realloc(p, l, n) } }
        let q = unsafe { self.alloc(Layout::from_size_align_unchecked(n, l.align())) };
        if !q.is_null() {
            unsafe { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l) }
        }
        q
    }
}
