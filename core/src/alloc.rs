//! Checking and counting global allocator. Every block carries a header with its layout, so that
//! freeing or growing a block with another layout, twice, or from a foreign pointer is seen; per
//! thread it counts calls, live bytes and the largest request, and enforces a request limit.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    sync::atomic::{AtomicBool, AtomicUsize, Ordering},
};

pub struct CheckAlloc;

const MAGIC: u64 = 0x51a7_b10c_5afe_c0de;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const TAIL: u64 = 0x7a11_7a11_7a11_7a11;

#[repr(C)]
struct Header {
    magic: u64,
    size: u64,
    align: u64,
    /// The epoch of the thread that allocated it.
    epoch: u64,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Counters {
    pub allocs: u64,
    pub frees: u64,
    pub live: i64,
    pub total: u64,
    pub max_req: u64,
}

thread_local! {
    static C: Cell<Counters> = const { Cell::new(Counters { allocs: 0, frees: 0, live: 0, total: 0, max_req: 0 }) };
    static EPOCH: Cell<u64> = const { Cell::new(1) };
    /// Blocks of the current epoch that are still there.
    static KEPT: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LIVE_LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

/// Fill new blocks and blocks about to be released with noise.
pub static POISON: AtomicBool = AtomicBool::new(false);
/// Called (with limits disarmed) with a description when the program misuses the allocator.
static HOOK: AtomicUsize = AtomicUsize::new(0);

pub fn set_hook(f: fn(&str)) {
    HOOK.store(f as usize, Ordering::SeqCst);
}

fn complain(msg: &str) {
    LIMIT.with(|l| l.set(usize::MAX));
    LIVE_LIMIT.with(|l| l.set(i64::MAX));
    let h = HOOK.load(Ordering::SeqCst);
    if h != 0 {
        let f: fn(&str) = unsafe { std::mem::transmute(h) };
        f(msg);
    }
}

pub fn counters() -> Counters {
    C.with(|c| c.get())
}

/// Begin an epoch.
pub fn new_epoch() {
    EPOCH.with(|e| e.set(e.get() + 1));
    KEPT.with(|k| k.set(0));
}

/// How many blocks allocated since the epoch began are still there.
pub fn kept() -> u64 {
    KEPT.with(|k| k.get()) as u64
}

pub fn reset_max() {
    C.with(|c| {
        let mut x = c.get();
        x.max_req = 0;
        c.set(x);
    })
}

/// A case begins in this thread: what runs away in it is to be stopped while it can be told which it is.
/// Returns what to give to `leave_case`.
pub fn enter_case() -> i64 {
    let to = counters().live.saturating_add(4 << 30);
    LIVE_LIMIT.with(|l| l.replace(l.get().min(to)))
}
pub fn leave_case(old: i64) {
    LIVE_LIMIT.with(|l| l.set(old));
}

/// Arm a limit on the size of single requests and on live growth of this thread.
pub fn with_limit<R>(max_request: usize, max_growth: usize, f: impl FnOnce() -> R) -> R {
    struct Reset(usize, i64);
    impl Drop for Reset {
        fn drop(&mut self) {
            LIMIT.with(|l| l.set(self.0));
            LIVE_LIMIT.with(|l| l.set(self.1));
        }
    }
    let live = counters().live;
    let _r = Reset(LIMIT.with(|l| l.replace(max_request)),
        LIVE_LIMIT.with(|l| l.replace(live.saturating_add(max_growth as i64))));
    f()
}

fn pad(align: usize) -> usize {
    let h = std::mem::size_of::<Header>();
    if align > h { align } else { h }
}

fn full(layout: Layout) -> Option<(Layout, usize)> {
    let p = pad(layout.align());
    let size = layout.size().checked_add(p)?.checked_add(8)?;
    let align = layout.align().max(16);
    Layout::from_size_align(size, align).ok().map(|l| (l, p))
}

fn note_alloc(size: usize) {
    let over = C.with(|c| {
        let mut x = c.get();
        x.allocs += 1;
        x.live += size as i64;
        x.total += size as u64;
        if size as u64 > x.max_req {
            x.max_req = size as u64;
        }
        c.set(x);
        size > LIMIT.with(|l| l.get()) || x.live > LIVE_LIMIT.with(|l| l.get())
    });
    if over {
        LIMIT.with(|l| l.set(usize::MAX));
        LIVE_LIMIT.with(|l| l.set(i64::MAX));
        complain(&format!("allocation out of proportion: request of {} bytes", size));
    }
}

fn note_free(size: usize) {
    C.with(|c| {
        let mut x = c.get();
        x.frees += 1;
        x.live -= size as i64;
        c.set(x);
    })
}

unsafe fn check_block(ptr: *mut u8, layout: Layout, what: &str) {
    let p = pad(layout.align());
    let h = &*(ptr.sub(std::mem::size_of::<Header>()) as *const Header);
    if h.magic == DEAD {
        complain(&format!("{}: block freed twice", what));
        std::process::abort();
    }
    if h.magic != MAGIC {
        complain(&format!("{}: pointer was never allocated (or its header was overwritten)", what));
        std::process::abort();
    }
    if h.size != layout.size() as u64 || h.align != layout.align() as u64 {
        complain(&format!(
            "{}: block allocated with size {} align {}, released with size {} align {}",
            what, h.size, h.align, layout.size(), layout.align(),
        ));
        std::process::abort();
    }
    let tail = (ptr.add(layout.size()) as *const u64).read_unaligned();
    if tail != TAIL {
        complain(&format!("{}: bytes after the block were overwritten", what));
        std::process::abort();
    }
    let _ = p;
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        note_alloc(layout.size());
        let (fl, p) = match full(layout) {
            Some(x) => x,
            None => return std::ptr::null_mut(),
        };
        let base = System.alloc(fl);
        if base.is_null() {
            return base;
        }
        let ptr = base.add(p);
        let h = ptr.sub(std::mem::size_of::<Header>()) as *mut Header;
        (*h).magic = MAGIC;
        (*h).size = layout.size() as u64;
        (*h).align = layout.align() as u64;
        (*h).epoch = EPOCH.with(|e| e.get());
        KEPT.with(|k| k.set(k.get() + 1));
        (ptr.add(layout.size()) as *mut u64).write_unaligned(TAIL);
        if POISON.load(Ordering::Relaxed) {
            ptr.write_bytes(0xa7, layout.size());
        }
        ptr
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        check_block(ptr, layout, "free");
        note_free(layout.size());
        let h = ptr.sub(std::mem::size_of::<Header>()) as *mut Header;
        (*h).magic = DEAD;
        if (*h).epoch == EPOCH.with(|e| e.get()) {
            KEPT.with(|k| k.set(k.get() - 1));
        }
        if POISON.load(Ordering::Relaxed) {
            ptr.write_bytes(0xd5, layout.size());
        }
        let (fl, p) = full(layout).unwrap();
        System.dealloc(ptr.sub(p), fl);
    }
}
