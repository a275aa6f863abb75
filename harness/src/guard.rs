//! Running the code under test: panics are caught, runaway memory and CPU use are noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

/// Bytes one guarded call may hold at a time. Inputs are at most a few tens of kB and need
/// less than a few MB.
const MEM_LIMIT: i64 = 1 << 30;
/// CPU seconds one guarded call may use. Normal calls take micro- to milliseconds.
pub const CPU_LIMIT: f64 = 30.0;

pub const SLOTS: usize = 64;
/// Per worker: 0 = outside a guarded call, otherwise thread CPU time in ns at entry (+1).
pub static ENTER: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
pub static CLOCK: [AtomicI64; SLOTS] = [const { AtomicI64::new(0) }; SLOTS];
/// What each worker is running, for the report.
pub static CURRENT: [Mutex<Option<Running>>; SLOTS] = [const { Mutex::new(None) }; SLOTS];

#[derive(Clone)]
pub struct Running {
    pub family: &'static str,
    pub case: u64,
    pub case_seed: u64,
}

static ON_RUNAWAY: Mutex<Option<fn(usize, &str)>> = Mutex::new(None);

pub fn on_runaway(f: fn(usize, &str)) {
    *ON_RUNAWAY.lock().unwrap() = Some(f);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

fn account(n: i64) {
    let over = LIVE.try_with(|x| {
        x.set(x.get() + n);
        x.get() > MEM_LIMIT
    });
    if over == Ok(true) && INSIDE.try_with(|x| x.get()) == Ok(true) {
        INSIDE.with(|x| x.set(false));
        let slot = SLOT.with(|s| s.get());
        let f = *ON_RUNAWAY.lock().unwrap();
        if let Some(f) = f {
            f(slot, "more than 1 GiB of memory in use");
        }
    }
}

pub fn thread_cpu_ns(clock: i32) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::clock_gettime(clock, &mut ts) };
    if r != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn register_worker(slot: usize) {
    SLOT.with(|s| s.set(slot));
    // room for reporting a fatal signal, also when the thread's own stack is used up
    unsafe {
        const SIZE: usize = 1 << 20;
        let m = libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        if m != libc::MAP_FAILED {
            let s = libc::stack_t { ss_sp: m, ss_flags: 0, ss_size: SIZE };
            libc::sigaltstack(&s, std::ptr::null_mut());
        }
    }
    let mut clock: libc::clockid_t = 0;
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock);
    }
    CLOCK[slot].store(clock as i64, Ordering::SeqCst);
}

pub fn unregister_worker(slot: usize) {
    CLOCK[slot].store(0, Ordering::SeqCst);
    ENTER[slot].store(0, Ordering::SeqCst);
}

static FIRST: AtomicU64 = AtomicU64::new(0);

extern "C" fn signalled(_: i32) {
    // the first one reports; a fault while reporting ends it all, other threads wait for the end
    let me = unsafe { libc::pthread_self() } as u64;
    if let Err(first) = FIRST.compare_exchange(0, me, Ordering::SeqCst, Ordering::SeqCst) {
        if first == me {
            unsafe { libc::_exit(139) }
        }
        loop {
            unsafe { libc::pause() };
        }
    }
    // should the report itself get stuck, end all the same
    unsafe {
        libc::signal(libc::SIGALRM, libc::SIG_DFL);
        libc::alarm(10);
    }
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    let inside = INSIDE.try_with(|x| x.replace(false)).unwrap_or(false);
    let f = *ON_RUNAWAY.lock().unwrap();
    if let (true, Some(f)) = (inside, f) {
        f(slot, "the process received a fatal signal (invalid memory access, stack overflow or abort)");
    }
    unsafe { libc::_exit(2) }
}

/// Fatal signals inside a guarded call are reported like other failures.
pub fn on_signal() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = signalled as *const () as usize;
        a.sa_flags = libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL] {
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for slot in 0..SLOTS {
            let c = CLOCK[slot].load(Ordering::SeqCst);
            let e = ENTER[slot].load(Ordering::SeqCst);
            if c == 0 || e == 0 {
                continue;
            }
            let now = thread_cpu_ns(c as i32);
            if now > e && (now - e) as f64 / 1e9 > CPU_LIMIT && ENTER[slot].load(Ordering::SeqCst) == e {
                let f = *ON_RUNAWAY.lock().unwrap();
                if let Some(f) = f {
                    f(slot, "did not finish within 30 s of CPU time");
                }
            }
        }
    });
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if INSIDE.with(|x| x.get()) {
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
        } else {
            eprintln!("harness panic at {}: {}", loc, msg);
        }
    }));
}

/// Calls into the code under test; a panic there becomes an Err.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let slot = SLOT.with(|s| s.get());
    LIVE.with(|x| x.set(0));
    if slot < SLOTS {
        ENTER[slot].store(thread_cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID) + 1, Ordering::SeqCst);
    }
    INSIDE.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.with(|x| x.set(false));
    if slot < SLOTS {
        ENTER[slot].store(0, Ordering::SeqCst);
    }
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}
