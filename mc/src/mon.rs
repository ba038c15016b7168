//! Monitors of the executing thread: allocation peak, current input, crash and hang reporting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};

pub struct Counting;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// a single request above this is refused (and so aborts the process, which is reported)
const HARD: usize = 4 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HARD {
            return std::ptr::null_mut();
        }
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

fn add(n: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

/// run f, returning its result and the peak of memory it held
pub fn with_peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let pk = PEAK.with(|p| p.get()) - base;
    (r, pk.max(0) as usize)
}

pub const SLOTS: usize = 64;
pub struct Slot {
    ptr: AtomicPtr<u8>,
    len: AtomicUsize,
    name: AtomicPtr<u8>,
    nlen: AtomicUsize,
    since: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const S0: Slot = Slot { ptr: AtomicPtr::new(std::ptr::null_mut()), len: AtomicUsize::new(0), name: AtomicPtr::new(std::ptr::null_mut()), nlen: AtomicUsize::new(0), since: AtomicU64::new(0) };
static TABLE: [Slot; SLOTS] = [S0; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static PROP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static PROPLEN: AtomicUsize = AtomicUsize::new(0);
static REPLAY: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut()); // NUL terminated path
static REPLAYLEN: AtomicUsize = AtomicUsize::new(0);

pub fn now_ms() -> u64 {
    use std::sync::OnceLock;
    use std::time::Instant;
    static T: OnceLock<Instant> = OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn slot() -> &'static Slot {
    let i = SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT.fetch_add(1, SeqCst) % SLOTS);
        }
        s.get()
    });
    &TABLE[i]
}

/// announce what this thread is about to execute; both must stay alive until `leave`
pub fn enter(name: &str, input: &[u8]) {
    let s = slot();
    s.name.store(name.as_ptr() as *mut u8, Relaxed);
    s.nlen.store(name.len(), Relaxed);
    s.ptr.store(input.as_ptr() as *mut u8, Relaxed);
    s.len.store(input.len(), Relaxed);
    s.since.store(now_ms(), Release);
}
pub fn leave() {
    slot().since.store(0, Release);
}

extern "C" {
    fn signal(n: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn open(p: *const u8, fl: i32, mode: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
}

unsafe fn w(fd: i32, b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let n = write(fd, b.as_ptr().add(o), b.len() - o);
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}

unsafe fn dump(s: &Slot, why: &[u8]) -> ! {
    let raw = |p: *mut u8, n: usize| if p.is_null() { &[][..] } else { std::slice::from_raw_parts(p as *const u8, n) };
    let rp = REPLAY.load(SeqCst);
    let rl = REPLAYLEN.load(SeqCst);
    let prop = raw(PROP.load(SeqCst), PROPLEN.load(SeqCst));
    let name = raw(s.name.load(SeqCst), s.nlen.load(SeqCst));
    let inp = raw(s.ptr.load(SeqCst), s.len.load(SeqCst));
    let fd = open(rp, 0o1101, 0o644);
    if fd >= 0 {
        w(fd, b"property=");
        w(fd, prop);
        w(fd, b"\ncase=");
        w(fd, name);
        w(fd, b"\ninput=");
        let hexd = b"0123456789abcdef";
        let mut buf = [0u8; 512];
        let mut k = 0;
        for x in inp {
            buf[k] = hexd[(x >> 4) as usize];
            buf[k + 1] = hexd[(x & 15) as usize];
            k += 2;
            if k == 512 {
                w(fd, &buf);
                k = 0;
            }
        }
        w(fd, &buf[..k]);
        w(fd, b"\ndetail=");
        w(fd, why);
        w(fd, b"\n");
        close(fd);
    }
    w(1, b"VIOLATION property=");
    w(1, prop);
    w(1, b" replay=");
    w(1, raw(rp, rl));
    w(1, b"\n  ");
    w(1, name);
    w(1, b": ");
    w(1, why);
    w(1, b"\n");
    _exit(1)
}

extern "C" fn on_abort(_: i32) {
    unsafe {
        let i = SLOT.try_with(|s| s.get()).unwrap_or(0);
        dump(&TABLE[if i == usize::MAX { 0 } else { i }], b"the process was aborted (stack overflow, allocation failure or abort)")
    }
}

pub fn install(prop: &'static str, replay: &'static str) {
    PROP.store(prop.as_ptr() as *mut u8, SeqCst);
    PROPLEN.store(prop.len(), SeqCst);
    let z: &'static mut [u8] = Box::leak(format!("{replay}\0").into_bytes().into_boxed_slice());
    REPLAYLEN.store(z.len() - 1, SeqCst);
    REPLAY.store(z.as_mut_ptr(), SeqCst);
    unsafe {
        signal(6, on_abort as *const () as usize);
    }
    now_ms();
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = now_ms();
        for s in TABLE.iter() {
            let t = s.since.load(Acquire);
            if t != 0 && now > t + limit_ms() {
                unsafe { dump(s, b"a single execution does not come back within the time limit") }
            }
        }
    });
}

fn limit_ms() -> u64 {
    60_000
}
