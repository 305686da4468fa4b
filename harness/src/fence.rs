//! Global allocator that, while armed on a thread, puts every block at the end of pages of its own, makes
//! the pages inaccessible when the block is freed, never reuses them, and records every allocation and free.
//! A use after free or an access beyond a block therefore ends the process with SIGSEGV, which the supervisor
//! records as the outcome of the call.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub struct Fence;

const PAGE: usize = 4096;
const PAGES: usize = 1 << 18; // 1 GiB of address space
const LOG: usize = 1 << 20;

thread_local! { static ARMED: Cell<bool> = const { Cell::new(false) }; }

static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LOGGED: AtomicUsize = AtomicUsize::new(0);
static IDS: AtomicUsize = AtomicUsize::new(0);
// per page: 0 = never used, id = start page of live block, -id = freed block
static mut OWNER: [i32; PAGES] = [0; PAGES];
static mut START: [usize; PAGES] = [0; PAGES];
static mut EVENTS: [i32; LOG] = [0; LOG];

fn log(e: i32) {
    let i = LOGGED.fetch_add(1, SeqCst);
    if i < LOG {
        unsafe { (&raw mut EVENTS).cast::<i32>().add(i).write(e) }
    }
}

unsafe fn owner(p: usize) -> *mut i32 {
    (&raw mut OWNER).cast::<i32>().add(p)
}
unsafe fn start(p: usize) -> *mut usize {
    (&raw mut START).cast::<usize>().add(p)
}

unsafe impl GlobalAlloc for Fence {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ARMED.with(|a| a.get()) || l.align() > PAGE {
            return System.alloc(l);
        }
        let n = l.size().div_ceil(PAGE).max(1);
        let first = NEXT.fetch_add(n, SeqCst);
        if first + n > PAGES {
            return System.alloc(l); // region used up: unfenced and unrecorded
        }
        let page = BASE.load(SeqCst) + first * PAGE;
        if libc::mprotect(page as *mut _, n * PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 {
            return System.alloc(l); // out of mappings: likewise
        }
        std::ptr::write_bytes(page as *mut u8, 0xA7, n * PAGE);
        let id = IDS.fetch_add(1, SeqCst) as i32 + 1;
        let addr = (page + n * PAGE - l.size()) & !(l.align() - 1);
        for p in first..first + n {
            *owner(p) = id;
        }
        *start(first) = addr;
        log(id);
        addr as *mut u8
    }

    unsafe fn dealloc(&self, ptr: *mut u8, l: Layout) {
        let base = BASE.load(SeqCst);
        let addr = ptr as usize;
        if base == 0 || addr < base || addr >= base + PAGES * PAGE {
            return System.dealloc(ptr, l);
        }
        let first = (addr - base) / PAGE;
        let id = *owner(first);
        if id <= 0 || *start(first) != addr {
            // freed twice, or not the start of a block: record it and leave it alone
            log(if id < 0 { id } else { i32::MIN + 1 });
            return;
        }
        let n = l.size().div_ceil(PAGE).max(1);
        for p in first..first + n {
            *owner(p) = -id;
        }
        log(-id);
        libc::mprotect((base + first * PAGE) as *mut _, n * PAGE, libc::PROT_NONE);
    }
}

/// Runs `f` with the fence armed; `f` must return something that owns no heap memory made inside, or that is
/// consumed by `after`, which runs disarmed and whose frees are still recorded.
pub fn armed<R, S>(f: impl FnOnce() -> R, after: impl FnOnce(R) -> S) -> (S, Vec<i64>, bool) {
    unsafe {
        if BASE.load(SeqCst) == 0 {
            let p = libc::mmap(
                std::ptr::null_mut(),
                PAGES * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            BASE.store(p as usize, SeqCst);
        } else {
            let used = NEXT.load(SeqCst).min(PAGES);
            if used > 0 {
                let p = libc::mmap(
                    BASE.load(SeqCst) as *mut _,
                    used * PAGE,
                    libc::PROT_NONE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED,
                    -1,
                    0,
                );
                assert!(p != libc::MAP_FAILED);
            }
            for p in 0..used {
                *owner(p) = 0;
            }
        }
    }
    NEXT.store(0, SeqCst);
    LOGGED.store(0, SeqCst);
    IDS.store(0, SeqCst);
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
        }
    }
    ARMED.with(|a| a.set(true));
    let r = {
        let _d = Disarm;
        f()
    };
    let s = after(r);
    let n = LOGGED.load(SeqCst).min(LOG);
    let ev = (0..n)
        .map(|i| unsafe { (&raw const EVENTS).cast::<i32>().add(i).read() as i64 })
        .collect();
    (s, ev, LOGGED.load(SeqCst) > LOG)
}
