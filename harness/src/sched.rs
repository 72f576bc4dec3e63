//! Controlled scheduling of real threads, and exhaustive exploration of the schedules up to a bound of preemptions.
//!
//! Exactly one controlled thread runs. Scheduling points are the atomic operations of the code under test (which is
//! built with the instrumentation of the thread sanitizer, but with the runtime in rt/rt.c), waiting for locks, and
//! operations on the tracked file. rt.c also checks all memory accesses for missing synchronisation and for use after
//! release.
#![allow(dead_code)]
use crate::core::*;
use std::arch::asm;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn mc_rt_on(v: i32) -> i32;
    fn mc_rt_me(t: i32);
    fn mc_rt_point(f: Option<extern "C" fn()>);
    fn mc_rt_report() -> *const libc::c_char;
    fn mc_rt_reset(n: i32);
    fn mc_rt_stop();
    fn mc_rt_stat(i: i32) -> u64;
}
pub const MAXT: usize = 4;
const MAIN: usize = MAXT;
const TRACE: usize = 1 << 16;
/// points without a switch after which another thread runs, for loops that wait for another thread
const FAIR: u32 = 3000;
const STEPS: u64 = 400_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Op,
    Blocked,
    Released,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    Blocked,
    Done,
}
#[derive(Clone, Copy, Debug)]
struct Choice {
    n: u8,
    idx: u8,
    step: u32,
    from: u8,
    to: u8,
}
struct St {
    n: usize,
    status: [Status; MAXT],
    prefix: Vec<u8>,
    trace: Vec<Choice>,
    used: u32,
    bound: u32,
    steps: u64,
    /// how often a lock was released, and what it was when each thread last tried to get one
    releases: u64,
    seen: [u64; MAXT],
    /// address of the futex that a thread waits for (0: none), and since when
    waits: [(usize, u64); MAXT],
    waits_since: u64,
    run: u32,
    switches: u64,
    abort: Option<&'static str>,
    job: Option<*const (dyn Fn(usize) + Sync)>,
    panics: [Option<String>; MAXT],
    balance: [(isize, isize); MAXT],
}
struct Global {
    st: UnsafeCell<St>,
    turn: [AtomicU32; MAXT + 1],
}
unsafe impl Sync for Global {}
static G: Global = Global {
    st: UnsafeCell::new(St {
        n: 0,
        status: [Status::Done; MAXT],
        prefix: Vec::new(),
        trace: Vec::new(),
        used: 0,
        bound: 0,
        steps: 0,
        releases: 0,
        seen: [0; MAXT],
        waits: [(0, 0); MAXT],
        waits_since: 0,
        run: 0,
        switches: 0,
        abort: None,
        job: None,
        panics: [const { None }; MAXT],
        balance: [(0, 0); MAXT],
    }),
    turn: [const { AtomicU32::new(0) }; MAXT + 1],
};
static STARTED: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static TID: Cell<usize> = const { Cell::new(MAIN) };
    /// inside the scheduler or in code that is not scheduled
    static QUIET: Cell<bool> = const { Cell::new(true) };
}
unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn give(t: usize) {
    G.turn[t].store(1, SeqCst);
    unsafe { sys6(libc::SYS_futex, &G.turn[t] as *const _ as i64, 129, 1, 0, 0, 0) };
}
fn wait(t: usize) {
    while G.turn[t].load(SeqCst) != 1 {
        unsafe { sys6(libc::SYS_futex, &G.turn[t] as *const _ as i64, 128, 0, 0, 0, 0) };
    }
    G.turn[t].store(0, SeqCst);
}
/// Interposed: blocking in a lock of the standard library is known to the scheduler.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && TID.try_with(|t| t.get()).unwrap_or(MAIN) != MAIN {
        match b & 0x7f {
            0 | 9 => {
                if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                if d != 0 {
                    // time passes as soon as it is looked at
                    must(K::Op);
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                let me = TID.with(|t| t.get());
                quiet(|| {
                    let s = st();
                    s.waits_since += 1;
                    s.waits[me] = (a as usize, s.waits_since);
                });
                must(K::Blocked);
                return 0;
            }
            1 | 10 => return quiet(|| wake(a as usize, c)),
            _ => {}
        }
    }
    let r = sys6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
/// the first ones that came are woken, and only these
fn wake(a: usize, max: i64) -> i64 {
    let s = st();
    let mut n = 0;
    while n < max {
        let t = (0..s.n).filter(|t| s.waits[*t].0 == a && s.status[*t] == Status::Blocked).min_by_key(|t| s.waits[*t].1);
        let Some(t) = t else { break };
        s.waits[t].0 = 0;
        s.status[t] = Status::Ready;
        n += 1;
    }
    n
}
#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe { &mut *G.st.get() }
}
/// the next thread to run, `me` being at a point (or blocked, or done)
fn choose(st: &mut St, me: usize) -> usize {
    let mut opt = [0u8; MAXT];
    let mut n = 0;
    let ready = st.status[me] == Status::Ready;
    if ready {
        opt[0] = me as u8;
        n = 1;
    }
    for t in 0..st.n {
        if t != me && st.status[t] == Status::Ready {
            opt[n] = t as u8;
            n += 1;
        }
    }
    if n == 0 {
        return MAIN;
    }
    if n == 1 {
        return opt[0] as usize;
    }
    if st.run > FAIR && ready {
        st.run = 0;
        return opt[1 + (st.steps as usize / FAIR as usize) % (n - 1)] as usize;
    }
    let cost = ready as u32;
    if st.used + cost > st.bound || st.trace.len() >= TRACE || st.abort.is_some() {
        return opt[0] as usize;
    }
    let pos = st.trace.len();
    let idx = if pos < st.prefix.len() { (st.prefix[pos] as usize).min(n - 1) } else { 0 };
    if idx > 0 {
        st.used += cost;
    }
    st.trace.push(Choice { n: n as u8, idx: idx as u8, step: st.steps as u32, from: me as u8, to: opt[idx] });
    opt[idx] as usize
}
pub fn point(k: K) {
    let me = TID.with(|t| t.get());
    if me == MAIN || QUIET.with(|q| q.replace(true)) {
        return;
    }
    let on = unsafe { mc_rt_on(0) };
    let s = st();
    match k {
        K::Released => {
            s.releases += 1;
            for t in 0..s.n {
                if s.status[t] == Status::Blocked && s.waits[t].0 == 0 {
                    s.status[t] = Status::Ready;
                }
            }
        }
        _ => {
            if k == K::Blocked {
                s.status[me] = Status::Blocked;
            }
            s.steps += 1;
            s.run += 1;
            if s.steps > STEPS && s.abort.is_none() {
                s.abort = Some("the threads do not come to an end");
            }
            let mut to = choose(s, me);
            if to == MAIN {
                s.abort = s.abort.or(Some("deadlock: all threads wait"));
                to = me;
            }
            if to != me {
                s.switches += 1;
                s.run = 0;
                give(to);
                wait(me);
            }
            // this can be anywhere in code that does not expect to be unwound
            if let Some(a) = st().abort {
                crate::die(&format!("{a} [schedule: {}]", schedule()));
            }
        }
    }
    unsafe { mc_rt_on(on) };
    QUIET.with(|q| q.set(false));
}
/// also for code that is not scheduled: it can not go on alone
fn must(k: K) {
    let q = QUIET.with(|q| q.replace(false));
    point(k);
    QUIET.with(|x| x.set(q));
}
extern "C" fn atomic_point() {
    point(K::Op)
}
/// a lock tells what it does
fn lock_hook(e: parking_lot::Event) {
    match e {
        parking_lot::Event::Acquire => {
            let me = TID.with(|t| t.get());
            if me != MAIN {
                quiet(|| st().seen[me] = st().releases);
            }
        }
        parking_lot::Event::Blocked => {
            let me = TID.with(|t| t.get());
            if me == MAIN {
                std::thread::yield_now();
            }
            // it may have been released since
            let same = me == MAIN || quiet(|| st().seen[me] == st().releases);
            must(if same { K::Blocked } else { K::Op })
        }
        parking_lot::Event::Released => must(K::Released),
    }
}
fn file_point() {
    point(K::Op)
}
/// Run something without scheduling and without access checks.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct Back(bool, i32);
    impl Drop for Back {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(self.0));
            unsafe { mc_rt_on(self.1) };
        }
    }
    let _b = Back(QUIET.with(|q| q.replace(true)), unsafe { mc_rt_on(0) });
    f()
}
/// logical time
pub fn now() -> u64 {
    quiet(|| {
        let s = st();
        s.steps += 1;
        s.steps
    })
}
fn body(me: usize) {
    TID.with(|t| t.set(me));
    unsafe { mc_rt_me(me as i32) };
    loop {
        wait(me);
        let s = st();
        let job = unsafe { &*s.job.unwrap() };
        let b = crate::alloc::balance();
        QUIET.with(|q| q.set(false));
        unsafe { mc_rt_on(1) };
        let r = catch(|| job(me));
        unsafe { mc_rt_on(0) };
        QUIET.with(|q| q.set(true));
        let b2 = crate::alloc::balance();
        let s = st();
        s.balance[me] = (b2.0 - b.0, b2.1 - b.1);
        if let Err(p) = r {
            s.panics[me] = Some(p);
        }
        s.status[me] = Status::Done;
        let to = choose(s, me);
        if to == MAIN && (0..s.n).any(|t| s.status[t] == Status::Blocked) {
            crate::die(&format!("deadlock: a thread waits for ever [schedule: {}]", schedule()));
        }
        s.switches += 1;
        s.run = 0;
        give(to);
    }
}
/// All threads of this process on one processor: they take turns anyway.
pub fn pin(slot: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        libc::CPU_ZERO(&mut set);
        libc::CPU_SET(cpus[slot % cpus.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}
fn init(n: usize) {
    unsafe { mc_rt_point(Some(atomic_point)) };
    parking_lot::set_hook(lock_hook);
    crate::sysio::set_sched(Some(file_point));
    let s = st();
    s.trace.reserve(TRACE);
    while STARTED.load(SeqCst) < n {
        let t = STARTED.fetch_add(1, SeqCst);
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || body(t)).unwrap();
    }
}
#[derive(Default, Clone, Copy)]
pub struct Ran {
    pub steps: u64,
    /// what all threads together allocated and did not release
    pub balance: (isize, isize),
}
/// Run the function as threads 0..n under the current schedule.
pub fn run(n: usize, f: &(dyn Fn(usize) + Sync)) -> R<Ran> {
    let s = st();
    s.n = n;
    s.status = [Status::Done; MAXT];
    for t in 0..n {
        s.status[t] = Status::Ready;
        s.panics[t] = None;
        s.waits[t].0 = 0;
    }
    s.trace.clear();
    s.used = 0;
    s.steps = 0;
    s.run = 0;
    s.switches = 0;
    s.abort = None;
    s.job = Some(unsafe { std::mem::transmute::<&(dyn Fn(usize) + Sync), *const (dyn Fn(usize) + Sync + 'static)>(f) });
    unsafe { mc_rt_reset(n as i32) };
    // the first thread is a free choice
    let first = {
        let mut idx = 0;
        if n > 1 {
            if let Some(i) = s.prefix.first() {
                idx = (*i as usize).min(n - 1);
            }
            s.trace.push(Choice { n: n as u8, idx: idx as u8, step: 0, from: MAIN as u8, to: idx as u8 });
        }
        idx
    };
    give(first);
    wait(MAIN);
    unsafe { mc_rt_stop() };
    let s = st();
    s.job = None;
    let rep = unsafe { mc_rt_report() };
    if !rep.is_null() {
        let x = unsafe { std::ffi::CStr::from_ptr(rep) };
        return viol(x.to_string_lossy().into_owned());
    }
    if let Some(a) = s.abort {
        return viol(a);
    }
    for t in 0..n {
        if let Some(p) = s.panics[t].take() {
            return viol(format!("thread {t}: {p}"));
        }
    }
    let mut bal = (0, 0);
    for t in 0..n {
        bal.0 += s.balance[t].0;
        bal.1 += s.balance[t].1;
    }
    Ok(Ran { steps: s.steps, balance: bal })
}
fn schedule() -> String {
    let s = st();
    let mut r = String::new();
    for c in s.trace.iter().filter(|c| c.idx > 0 || c.from as usize == MAIN) {
        r += &format!("{}at step {} thread {}", if r.is_empty() { "" } else { ", " }, c.step, c.to);
    }
    r
}
/// All schedules of n threads with at most `bound` preemptions. `one` sets up, calls `run` once, and judges.
/// Gives the number of schedules; stops at `max`.
pub fn explore(n: usize, bound: u32, max: u64, ctx: &mut Ctx, mut one: impl FnMut(&mut Ctx) -> R<()>) -> R<u64> {
    init(n);
    // where the code has many more scheduling points than it had, the quick tier ends with smaller bounds
    let bound = match crate::since_start() {
        _ if ctx.thorough => bound,
        0..540 => bound,
        540..700 => bound.min(1),
        _ => 0,
    };
    ctx.note("scenarios", 1);
    ctx.note(&format!("scenarios with {bound} preemptions"), 1);
    let acc = unsafe { mc_rt_stat(0) };
    let mut prefix: Vec<u8> = vec![];
    let mut count = 0;
    loop {
        if count % 16 == 0 {
            crate::tick();
        }
        let s = st();
        s.prefix = std::mem::take(&mut prefix);
        s.bound = bound;
        let r = match catch(|| one(ctx)) {
            Ok(r) => r,
            Err(p) => viol(p),
        };
        r.map_err(|v| Viol { what: format!("{} [schedule: {}]", v.what, schedule()) })?;
        count += 1;
        let s = st();
        ctx.traces += 1;
        ctx.transitions += s.steps;
        ctx.nontrivial += (s.switches > n as u64) as u64;
        ctx.note_max("steps of an execution", s.steps);
        let t = &mut s.trace;
        while let Some(c) = t.last_mut() {
            if c.idx + 1 < c.n {
                c.idx += 1;
                break;
            }
            t.pop();
        }
        if t.is_empty() {
            break;
        }
        prefix = t.iter().map(|c| c.idx).collect();
        if count >= max {
            ctx.note("scenarios cut at the limit of schedules", 1);
            break;
        }
    }
    ctx.note("schedules", count);
    ctx.note("accesses", unsafe { mc_rt_stat(0) } - acc);
    let full = unsafe { mc_rt_stat(2) };
    if full > 0 {
        ctx.note_max("accesses beyond the shadow table", full);
    }
    Ok(count)
}
