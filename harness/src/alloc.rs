//! Global allocator that notices double frees, writes after free and leaks, and makes reads after free visible.
//!
//! Every block has a header with a magic and its size. A freed block is filled with a pattern and, in
//! quarantine mode, kept for a while and verified before it is really released. Thread-local balance
//! counters tell whether everything allocated since a mark was released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Checked;
const LIVE: u64 = 0x4c49_5645_b10c_a11c;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const QLEN: usize = 2048;
static QUARANTINE: AtomicBool = AtomicBool::new(false);
static HOOK: AtomicUsize = AtomicUsize::new(0);

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    tail: u64,
}
struct Quar {
    v: UnsafeCell<[*mut u8; QLEN]>,
    pos: Cell<usize>,
}
thread_local! {
    static COUNT: Cell<isize> = const { Cell::new(0) };
    static BYTES: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static TAKEN: Cell<usize> = const { Cell::new(0) };
    static IN_HOOK: Cell<bool> = const { Cell::new(true) };
    static QUAR: Quar = const { Quar { v: UnsafeCell::new([std::ptr::null_mut(); QLEN]), pos: Cell::new(0) } };
}
fn hdr_size(align: usize) -> usize {
    std::mem::size_of::<Hdr>().max(align)
}
fn die(what: &str) -> ! {
    unsafe {
        let m = b"heap corruption: ";
        libc::syscall(libc::SYS_write, 2, m.as_ptr(), m.len());
        libc::syscall(libc::SYS_write, 2, what.as_ptr(), what.len());
        libc::syscall(libc::SYS_write, 2, b"\n".as_ptr(), 1usize);
        libc::abort()
    }
}
fn hook() {
    let p = HOOK.load(Relaxed);
    if p != 0 {
        let _ = IN_HOOK.try_with(|h| {
            if !h.replace(true) {
                let f: fn() = unsafe { std::mem::transmute(p) };
                f();
                h.set(false);
            }
        });
    }
}
unsafe fn real_free(p: *mut u8, verify: bool) {
    let h = p as *mut Hdr;
    let hs = hdr_size((*h).align);
    let user = p.add(hs);
    let size = (*h).size;
    if verify {
        for i in 0..size {
            if *user.add(i) != 0xDD {
                die("memory was written after it was freed");
            }
        }
    }
    let l = Layout::from_size_align_unchecked(hs + size + 8, (*h).align.max(16));
    System.dealloc(p, l);
}
#[cfg(feature = "sched")]
mod rt {
    extern "C" {
        fn mc_rt_on(v: i32) -> i32;
        fn mc_rt_alloc(p: *const u8, n: usize);
        fn mc_rt_free(p: *const u8, n: usize);
    }
    pub struct Off(i32);
    pub fn off() -> Off {
        Off(unsafe { mc_rt_on(0) })
    }
    impl Drop for Off {
        fn drop(&mut self) {
            unsafe { mc_rt_on(self.0) };
        }
    }
    pub fn alloc(p: *const u8, n: usize) {
        unsafe { mc_rt_alloc(p, n) }
    }
    pub fn free(p: *const u8, n: usize) {
        unsafe { mc_rt_free(p, n) }
    }
}
#[cfg(not(feature = "sched"))]
mod rt {
    pub fn off() {}
    pub fn alloc(_: *const u8, _: usize) {}
    pub fn free(_: *const u8, _: usize) {}
}
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        #[allow(clippy::let_unit_value)]
        let _off = rt::off();
        hook();
        let hs = hdr_size(l.align());
        let p = System.alloc(Layout::from_size_align_unchecked(hs + l.size() + 8, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let user = p.add(hs);
        // for large alignments the header is directly in front of the user block as well
        std::ptr::write(p as *mut Hdr, Hdr { magic: LIVE, size: l.size(), align: l.align(), tail: 0 });
        std::ptr::write_bytes(user, 0xAA, l.size().min(4096));
        std::ptr::write_unaligned(user.add(l.size()) as *mut u64, LIVE);
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        let _ = BYTES.try_with(|c| c.set(c.get() + l.size() as isize));
        let _ = TOTAL.try_with(|c| c.set(c.get() + 1));
        let _ = TAKEN.try_with(|c| c.set(c.get() + l.size()));
        rt::alloc(user, l.size());
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        rt::free(user, l.size());
        #[allow(clippy::let_unit_value)]
        let _off = rt::off();
        hook();
        let hs = hdr_size(l.align());
        let p = user.sub(hs);
        let h = p as *mut Hdr;
        if (*h).magic != LIVE {
            die(if (*h).magic == DEAD { "double free" } else { "free of something that is not a live block" });
        }
        if (*h).size != l.size() {
            die("freed with a wrong size");
        }
        if std::ptr::read_unaligned(user.add(l.size()) as *mut u64) != LIVE {
            die("write past the end of a block");
        }
        (*h).magic = DEAD;
        std::ptr::write_bytes(user, 0xDD, l.size());
        let _ = COUNT.try_with(|c| c.set(c.get() - 1));
        let _ = BYTES.try_with(|c| c.set(c.get() - l.size() as isize));
        if QUARANTINE.load(Relaxed) && l.size() <= 65536 {
            let old = QUAR.try_with(|q| {
                let i = q.pos.get();
                q.pos.set((i + 1) % QLEN);
                let s = &mut (*q.v.get())[i];
                std::mem::replace(s, p)
            });
            match old {
                Ok(o) if !o.is_null() => real_free(o, true),
                Ok(_) => {}
                Err(_) => real_free(p, false),
            }
        } else {
            real_free(p, false)
        }
    }
}
/// number of blocks and bytes this thread allocated minus those it freed
pub fn balance() -> (isize, isize) {
    (COUNT.with(|c| c.get()), BYTES.with(|c| c.get()))
}
/// number of allocations this thread ever made
pub fn total() -> usize {
    TOTAL.with(|c| c.get())
}
/// number of bytes this thread ever allocated
pub fn taken() -> usize {
    TAKEN.with(|c| c.get())
}
pub fn set_quarantine(on: bool) {
    QUARANTINE.store(on, Relaxed)
}
/// Verify and release everything in this thread's quarantine.
pub fn flush_quarantine() {
    QUAR.with(|q| unsafe {
        for s in (*q.v.get()).iter_mut() {
            let o = std::mem::replace(s, std::ptr::null_mut());
            if !o.is_null() {
                real_free(o, true)
            }
        }
    })
}
/// Call `f` at each allocation and release made by a thread that has `enable_hook(true)`.
pub fn set_hook(f: Option<fn()>) {
    HOOK.store(f.map(|f| f as usize).unwrap_or(0), Relaxed)
}
/// returns the previous state
pub fn enable_hook(on: bool) -> bool {
    IN_HOOK.with(|h| !h.replace(!on))
}
