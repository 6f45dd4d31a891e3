//! Controlled scheduling of real threads running the code under test.
//!
//! Threads stop at scheduling points (`tycho_types::mc` points compiled in with `--cfg tycho_mc`,
//! and points the harness itself puts into the callbacks it passes to the library). One thread
//! runs at a time; at each stop the explorer picks which one goes on. `explore` enumerates all
//! the choices depth first, replaying the prefix of choices on a fresh instance of the program,
//! optionally bounding the number of preemptions. A thread which sleeps in the kernel without
//! being at a point (for example on a lock held by a stopped thread) counts as blocked and is
//! looked at again after each step.
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex, Once, OnceLock};
use std::thread::Thread;

struct Thr {
    handle: OnceLock<Thread>,
    tid: AtomicU32,
    /// at a point or idle: will not move until granted
    parked: AtomicBool,
    granted: AtomicBool,
    acked: AtomicBool,
}

impl Thr {
    fn new() -> Self { Self { handle: OnceLock::new(), tid: AtomicU32::new(0), parked: AtomicBool::new(false), granted: AtomicBool::new(false), acked: AtomicBool::new(false) } }

    fn wait_grant(&self) {
        self.parked.store(true, SeqCst);
        let mut n = 0;
        while !self.granted.load(SeqCst) {
            n += 1;
            if n < 200 { std::hint::spin_loop() } else { std::thread::park() }
        }
        self.granted.store(false, SeqCst);
        self.acked.store(true, SeqCst);
    }

    fn grant(&self) {
        self.parked.store(false, SeqCst);
        self.acked.store(false, SeqCst);
        self.granted.store(true, SeqCst);
        self.handle.get().unwrap().unpark();
        let mut n = 0u32;
        while !self.acked.load(SeqCst) { relax(&mut n) }
    }

    /// asleep in the kernel (not running, not runnable)
    fn asleep(&self) -> bool {
        let tid = self.tid.load(SeqCst);
        let mut buf = [0u8; 96];
        let path = format!("/proc/self/task/{tid}/stat");
        use std::io::Read;
        let Ok(mut f) = std::fs::File::open(path) else { return false };
        let Ok(n) = f.read(&mut buf) else { return false };
        let s = &buf[..n];
        // pid (comm) S ...
        match s.iter().rposition(|c| *c == b')') { Some(i) => s.get(i + 2) == Some(&b'S'), None => false }
    }
}

fn relax(n: &mut u32) {
    *n += 1;
    if *n < 100 { std::hint::spin_loop() } else { std::thread::yield_now() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum A { Running, At(usize, &'static str), Done }

struct Core {
    threads: Vec<Thr>,
    actors: Mutex<Vec<A>>,
    panics: Mutex<Vec<String>>,
    /// actors are created by "task/start" points
    dynamic: bool,
}

#[derive(Clone)]
struct Ctl { core: Arc<Core>, slot: usize, stack: RefCell<Vec<usize>> }

thread_local! {
    static CTL: RefCell<Option<Ctl>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// a scheduling point of the calling thread; does nothing outside of an exploration
pub fn point(name: &'static str) { crate::alloc::untracked(|| point_impl(name)) }

fn point_impl(name: &'static str) {
    if QUIET.with(|q| q.get()) { return }
    let c = CTL.with(|c| match &*c.borrow() {
        Some(c) => {
            let mut st = c.stack.borrow_mut();
            if c.core.dynamic {
                if name == "task/start" {
                    let mut a = c.core.actors.lock().unwrap();
                    st.push(a.len());
                    a.push(A::Running);
                } else if name == "task/end" {
                    if st.len() > 1 || st.first().is_some_and(|x| *x != 0) {
                        if let Some(x) = st.pop() { c.core.actors.lock().unwrap()[x] = A::Done }
                    }
                    return None;
                }
            }
            st.last().map(|x| (c.core.clone(), c.slot, *x))
        }
        None => None,
    });
    let Some((core, slot, x)) = c else { return };
    core.actors.lock().unwrap()[x] = A::At(slot, name);
    core.threads[slot].wait_grant();
}

/// runs `f` without stopping at points
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let old = QUIET.with(|q| q.replace(true));
    let r = f();
    QUIET.with(|q| q.set(old));
    r
}

fn init() {
    static I: Once = Once::new();
    I.call_once(|| tycho_types::mc::set_hook(point));
}

fn bind(core: &Arc<Core>, slot: usize) {
    let t = &core.threads[slot];
    _ = t.handle.set(std::thread::current());
    t.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
    CTL.with(|c| *c.borrow_mut() = Some(Ctl { core: core.clone(), slot, stack: RefCell::new(vec![]) }));
}

struct D { enabled: Vec<usize>, chosen: usize, last: Option<usize>, pre: u32 }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub schedules: u64, pub steps: u64, pub longest: u64, pub diverged: u64, pub truncated: bool, pub blocked: u64 }

/// bounds of an exploration
#[derive(Clone, Copy)]
pub struct Bound { pub preemptions: u32, pub schedules: u64 }

struct Dfs { path: Vec<D>, pos: usize, st: Stats, b: Bound, trace: Vec<(usize, &'static str)> }

impl Dfs {
    fn new(b: Bound) -> Self { Dfs { path: vec![], pos: 0, st: Stats::default(), b, trace: vec![] } }
    fn begin(&mut self) { self.pos = 0; self.trace.clear() }
    fn choose(&mut self, enabled: &[(usize, &'static str)]) -> usize {
        let mut en: Vec<usize> = enabled.iter().map(|x| x.0).collect();
        let last = if self.pos == 0 { None } else { Some(self.path[self.pos - 1].enabled[self.path[self.pos - 1].chosen]) };
        // going on with the thread that ran last comes first
        if let Some(l) = last { if let Some(i) = en.iter().position(|x| *x == l) { en.remove(i); en.insert(0, l) } }
        let pre0 = if self.pos == 0 { 0 } else { self.path[self.pos - 1].pre };
        if self.pos < self.path.len() {
            let d = &self.path[self.pos];
            if d.enabled != en {
                // the replay took another way: keep what is common and go on from here
                self.st.diverged += 1;
                self.path.truncate(self.pos);
            }
        }
        if self.pos == self.path.len() { self.path.push(D { enabled: en, chosen: 0, last, pre: pre0 }) }
        let d = &mut self.path[self.pos];
        d.pre = pre0 + (d.chosen > 0 && d.last == Some(d.enabled[0])) as u32;
        let a = d.enabled[d.chosen];
        self.trace.push((a, enabled.iter().find(|x| x.0 == a).unwrap().1));
        self.pos += 1;
        self.st.steps += 1;
        a
    }
    /// moves to the next schedule
    fn next(&mut self) -> bool {
        self.st.schedules += 1;
        self.st.longest = self.st.longest.max(self.pos as u64);
        self.path.truncate(self.pos);
        while let Some(d) = self.path.last_mut() {
            let free = d.last != Some(d.enabled[0]);
            let base = d.pre - (d.chosen > 0 && !free) as u32;
            if d.chosen + 1 < d.enabled.len() && (free || base < self.b.preemptions) {
                d.chosen += 1;
                if self.st.schedules >= self.b.schedules { self.st.truncated = true; return false }
                return true;
            }
            self.path.pop();
        }
        false
    }
    fn show(&self) -> String { self.trace.iter().map(|(a, n)| format!("{a}:{n}")).collect::<Vec<_>>().join(" ") }
}

/// lets the actors of one run go on until all are done; `Err` on a deadlock
fn drive(core: &Core, dfs: &mut Dfs, done: &dyn Fn(&[A]) -> bool) -> Result<(), String> {
    let mut quiet_rounds = 0u32;
    let mut n = 0u32;
    let t0 = std::time::Instant::now();
    loop {
        // all threads at rest?
        let mut busy = false;
        let mut sleepers = 0;
        for t in &core.threads {
            if t.parked.load(SeqCst) { continue }
            if n > 60 && t.asleep() { sleepers += 1; continue }
            busy = true;
            break;
        }
        if busy { quiet_rounds = 0; relax(&mut n); continue }
        if sleepers > 0 {
            quiet_rounds += 1;
            if quiet_rounds < 3 { std::thread::yield_now(); continue }
        }
        quiet_rounds = 0;
        let acts = core.actors.lock().unwrap().clone();
        if done(&acts) { return Ok(()) }
        let en: Vec<(usize, &'static str)> = acts.iter().enumerate().filter_map(|(i, a)| match a { A::At(_, nm) => Some((i, *nm)), _ => None }).collect();
        if en.is_empty() {
            // a thread may be between two states: only a lasting rest is a deadlock
            if t0.elapsed().as_millis() < 2000 { std::thread::yield_now(); n = 61; continue }
            return Err(format!("deadlock after {}", dfs.show()));
        }
        dfs.st.blocked += (sleepers > 0 && !core.dynamic) as u64;
        let a = dfs.choose(&en);
        let A::At(slot, _) = acts[a] else { unreachable!() };
        core.actors.lock().unwrap()[a] = A::Running;
        core.threads[slot].grant();
        n = 0;
    }
}

type Job = Box<dyn FnOnce() + Send>;

/// a fixed set of threads
pub struct Team { core: Arc<Core>, jobs: Arc<Vec<Mutex<Option<Job>>>>, stop: Arc<AtomicBool>, hs: Vec<std::thread::JoinHandle<()>> }

impl Team {
    pub fn new(n: usize) -> Self {
        init();
        let core = Arc::new(Core { threads: (0..n).map(|_| Thr::new()).collect(), actors: Mutex::new(vec![A::Done; n]), panics: Mutex::new(vec![]), dynamic: false });
        let jobs: Arc<Vec<Mutex<Option<Job>>>> = Arc::new((0..n).map(|_| Mutex::new(None)).collect());
        let stop = Arc::new(AtomicBool::new(false));
        let hs = (0..n).map(|i| {
            let (core, jobs, stop) = (core.clone(), jobs.clone(), stop.clone());
            std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
                bind(&core, i);
                loop {
                    core.threads[i].wait_grant();
                    if stop.load(SeqCst) { break }
                    let job = jobs[i].lock().unwrap().take().unwrap();
                    CTL.with(|c| c.borrow().as_ref().unwrap().stack.borrow_mut().push(i));
                    let r = crate::fw::no_panic(job);
                    CTL.with(|c| c.borrow().as_ref().unwrap().stack.borrow_mut().pop());
                    if let Err(e) = r { core.panics.lock().unwrap().push(e) }
                    core.actors.lock().unwrap()[i] = A::Done;
                }
            }).unwrap()
        }).collect();
        for t in &core.threads { while !t.parked.load(SeqCst) { std::thread::yield_now() } }
        Team { core, jobs, stop, hs }
    }

    /// explores the schedules of the programs `make` returns; `check` judges each finished run
    /// and is told the schedule
    pub fn explore<'a, S>(&self, b: Bound, mut make: impl FnMut() -> (S, Vec<Box<dyn FnOnce() + Send + 'a>>), mut check: impl FnMut(S, &dyn Fn() -> String) -> Result<(), crate::fw::V>) -> Result<Stats, crate::fw::V> {
        let mut dfs = Dfs::new(b);
        loop {
            dfs.begin();
            let (s, bodies) = make();
            let k = bodies.len();
            assert!(k <= self.core.threads.len());
            for (i, body) in bodies.into_iter().enumerate() {
                // SAFETY: the run ends (or the process does) before this function returns
                let body: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + 'a>, Job>(body) };
                *self.jobs[i].lock().unwrap() = Some(body);
                self.core.actors.lock().unwrap()[i] = A::At(i, "start");
            }
            let r = drive(&self.core, &mut dfs, &|a| a.iter().all(|x| *x == A::Done));
            if let Err(e) = r {
                return Err(crate::fw::V { key: "deadlock".into(), detail: e });
            }
            let p = std::mem::take(&mut *self.core.panics.lock().unwrap());
            if let Some(p) = p.first() { return Err(crate::fw::V { key: "panic".into(), detail: format!("{p} in schedule {}", dfs.show()) }) }
            check(s, &|| dfs.show())?;
            if !dfs.next() { return Ok(dfs.st) }
        }
    }
}

impl Drop for Team {
    fn drop(&mut self) {
        if !self.core.threads.iter().all(|t| t.parked.load(SeqCst)) { return }
        self.stop.store(true, SeqCst);
        for t in &self.core.threads { t.grant() }
        for h in self.hs.drain(..) { _ = h.join() }
    }
}

/// a rayon pool whose tasks are scheduled by the explorer
pub struct Pool { core: Arc<Core>, pool: rayon::ThreadPool }

impl Pool {
    pub fn new(n: usize) -> Self {
        init();
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(8 << 20).build().unwrap();
        let core = Arc::new(Core { threads: (0..n).map(|_| Thr::new()).collect(), actors: Mutex::new(vec![]), panics: Mutex::new(vec![]), dynamic: true });
        pool.broadcast(|c| bind(&core, c.index()));
        Pool { core, pool }
    }

    pub fn raw(&self) -> &rayon::ThreadPool { &self.pool }

    /// explores the schedules of `body`, which runs on a thread of the pool and spawns tasks
    pub fn explore<R: Send>(&self, b: Bound, body: impl Fn() -> R + Sync, mut check: impl FnMut(R, &dyn Fn() -> String) -> Result<(), crate::fw::V>) -> Result<Stats, crate::fw::V> {
        let mut dfs = Dfs::new(b);
        loop {
            dfs.begin();
            *self.core.actors.lock().unwrap() = vec![A::Running];
            let out: Mutex<Option<Result<R, String>>> = Mutex::new(None);
            let started = AtomicBool::new(false);
            {
                let (core, out, body, started) = (self.core.clone(), &out, &body, &started);
                let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                    started.store(true, SeqCst);
                    CTL.with(|c| c.borrow().as_ref().unwrap().stack.borrow_mut().push(0));
                    point("start");
                    let r = crate::fw::no_panic(body);
                    CTL.with(|c| c.borrow().as_ref().unwrap().stack.borrow_mut().clear());
                    *out.lock().unwrap() = Some(r);
                    core.actors.lock().unwrap()[0] = A::Done;
                });
                // SAFETY: the run ends (or the process does) before this function returns
                let job: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Job>(job) };
                self.pool.spawn(job);
                let mut n = 0;
                while !started.load(SeqCst) { relax(&mut n) }
            }
            let r = drive(&self.core, &mut dfs, &|a| a[0] == A::Done);
            if let Err(e) = r { return Err(crate::fw::V { key: "deadlock".into(), detail: e }) }
            match out.into_inner().unwrap() {
                Some(Ok(r)) => check(r, &|| dfs.show())?,
                Some(Err(e)) => return Err(crate::fw::V { key: "panic".into(), detail: format!("{e} in schedule {}", dfs.show()) }),
                None => return Err(crate::fw::V { key: "no-result".into(), detail: dfs.show() }),
            }
            if !dfs.next() { return Ok(dfs.st) }
        }
    }
}
