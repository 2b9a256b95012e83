//! Simulated heap: the process-wide allocator seam.
//!
//! Every block carries a header and a trailing guard zone. Blocks requested while the code
//! under test runs are "tracked": they are counted, can be refused by the fault plan, are
//! filled with a pattern on allocation, are poisoned and quarantined on release, and must be
//! gone at the end of a run. Nothing in here allocates or takes a lock that can block.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimHeap;

#[global_allocator]
static HEAP: SimHeap = SimHeap;

const LIVE: u64 = 0x51AD_F00D_1234_ABCD;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const GUARD: u8 = 0xC7;
const FRESH: u8 = 0xA5;
const POISON: u8 = 0xDB;
const TAIL: usize = 32;
const HEAD: usize = 64;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    tracked: bool,
    /// Bytes behind the block that `realloc` can use in place; `size` + slack.
    room: u32,
    serial: u64,
    next: *mut Header, // quarantine list
    guard: [u8; 16],
}

thread_local! {
    /// 0: simulator code. bit 0: code under test (track blocks). bit 1: allocation faults apply.
    static MODE: Cell<u8> = const { Cell::new(0) };
}

static LIVE_BLOCKS: AtomicUsize = AtomicUsize::new(0);
static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
static REQUESTS: AtomicU64 = AtomicU64::new(0); // in fault mode, since `arm`
static TOTAL_TRACKED: AtomicU64 = AtomicU64::new(0);
static REFUSED: AtomicU64 = AtomicU64::new(0);
static FAIL_AT: AtomicU64 = AtomicU64::new(u64::MAX);
static PERSIST: AtomicBool = AtomicBool::new(false);
static SERIAL: AtomicU64 = AtomicU64::new(0);
static QUARANTINE: AtomicPtr<Header> = AtomicPtr::new(std::ptr::null_mut());
/// Requests above this size are refused in tracked mode, so that a length computed from
/// garbage cannot exhaust the sandbox.
const MAX_REQUEST: usize = 64 << 20;

static V_KIND: AtomicUsize = AtomicUsize::new(0);
static V_A: AtomicUsize = AtomicUsize::new(0);
static V_B: AtomicUsize = AtomicUsize::new(0);
static V_C: AtomicUsize = AtomicUsize::new(0);
static V_D: AtomicUsize = AtomicUsize::new(0);

fn violate(kind: usize, a: usize, b: usize, c: usize, d: usize) {
    if V_KIND.compare_exchange(0, kind, Relaxed, Relaxed).is_ok() {
        V_A.store(a, Relaxed);
        V_B.store(b, Relaxed);
        V_C.store(c, Relaxed);
        V_D.store(d, Relaxed);
    }
}

/// What `realloc` does: 0 always moves, so that stale pointers are stale; 1 stays in place
/// whenever there is room; 2 does so every other time.
static POLICY: AtomicUsize = AtomicUsize::new(0);
static IN_PLACE: AtomicU64 = AtomicU64::new(0);
static REALLOCS: AtomicU64 = AtomicU64::new(0);

pub fn set_policy(p: u64) {
    POLICY.store(p as usize % 3, Relaxed);
    REALLOCS.store(0, Relaxed);
}

/// Number of blocks resized in place so far.
pub fn in_place() -> u64 {
    IN_PLACE.load(Relaxed)
}

fn room_for(size: usize) -> usize {
    if POLICY.load(Relaxed) == 0 || size > 4096 { size } else { 3 * size + 32 }
}

/// Whether the pending request is to be refused.
fn refuse(mode: u8, size: usize) -> bool {
    if mode & 2 != 0 {
        let n = REQUESTS.fetch_add(1, Relaxed);
        let at = FAIL_AT.load(Relaxed);
        if n == at || (n > at && PERSIST.load(Relaxed)) {
            REFUSED.fetch_add(1, Relaxed);
            return true;
        }
    }
    mode != 0 && size > MAX_REQUEST
}

/// Of large blocks only the first and last part are filled and checked.
const PART: usize = 16 << 10;

unsafe fn pattern(p: *mut u8, b: u8, size: usize) {
    unsafe {
        std::ptr::write_bytes(p, b, size.min(PART));
        if size > PART {
            let n = (size - PART).min(PART);
            std::ptr::write_bytes(p.add(size - n), b, n);
        }
    }
}

fn head_for(align: usize) -> usize {
    HEAD.max(align)
}

unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let mut mode = MODE.with(|m| m.get());
        if mode != 0 && std::thread::panicking() {
            // The message of a panic, formatted before the panic hook runs.
            mode = 0;
        }
        if refuse(mode, l.size()) {
            return std::ptr::null_mut();
        }
        let room = if mode != 0 { room_for(l.size()) } else { l.size() };
        let head = head_for(l.align());
        unsafe {
            let full = Layout::from_size_align_unchecked(head + room + TAIL, head.min(4096).max(64));
            let base = System.alloc(full);
            if base.is_null() {
                return base;
            }
            let p = base.add(head);
            let h = p.sub(HEAD) as *mut Header;
            let tracked = mode != 0;
            h.write(Header {
                magic: LIVE,
                size: l.size(),
                align: l.align(),
                tracked,
                room: (room - l.size()) as u32,
                serial: SERIAL.fetch_add(1, Relaxed),
                next: std::ptr::null_mut(),
                guard: [GUARD; 16],
            });
            std::ptr::write_bytes(p.add(l.size()), GUARD, room - l.size() + TAIL);
            if tracked {
                pattern(p, FRESH, l.size());
                LIVE_BLOCKS.fetch_add(1, Relaxed);
                LIVE_BYTES.fetch_add(l.size(), Relaxed);
                TOTAL_TRACKED.fetch_add(1, Relaxed);
            }
            p
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            let h = p.sub(HEAD) as *mut Header;
            if (*h).magic == DEAD {
                violate(1, l.size(), l.align(), (*h).size, (*h).align);
                return;
            }
            if (*h).magic != LIVE || (*h).guard != [GUARD; 16] {
                violate(2, l.size(), l.align(), 0, 0);
                return;
            }
            let (size, align) = ((*h).size, (*h).align);
            if size != l.size() || align != l.align() {
                violate(3, l.size(), l.align(), size, align);
            }
            check_tail(p, size, (*h).room as usize);
            if (*h).tracked {
                LIVE_BLOCKS.fetch_sub(1, Relaxed);
                LIVE_BYTES.fetch_sub(size, Relaxed);
                pattern(p, POISON, size);
                (*h).magic = DEAD;
                let mut old = QUARANTINE.load(Relaxed);
                loop {
                    (*h).next = old;
                    match QUARANTINE.compare_exchange(old, h, Relaxed, Relaxed) {
                        Ok(_) => break,
                        Err(x) => old = x,
                    }
                }
            } else {
                (*h).magic = 0;
                let head = head_for(align);
                System.dealloc(
                    p.sub(head),
                    Layout::from_size_align_unchecked(head + size + (*h).room as usize + TAIL, head.min(4096).max(64)),
                );
            }
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        unsafe {
            let h = p.sub(HEAD) as *mut Header;
            let mode = MODE.with(|m| m.get());
            let policy = POLICY.load(Relaxed);
            if mode != 0 && !std::thread::panicking() && policy != 0 && (*h).magic == LIVE && (*h).tracked {
                let full = (*h).size + (*h).room as usize;
                let turn = REALLOCS.fetch_add(1, Relaxed);
                if new <= full && new > 0 && (policy == 1 || turn % 2 == 1) && (*h).size == l.size() && (*h).align == l.align() {
                    if refuse(mode, new) {
                        return std::ptr::null_mut();
                    }
                    check_tail(p, l.size(), (*h).room as usize);
                    if new > l.size() {
                        pattern(p.add(l.size()), FRESH, new - l.size());
                    }
                    (*h).size = new;
                    (*h).room = (full - new) as u32;
                    LIVE_BYTES.fetch_add(new.wrapping_sub(l.size()), Relaxed);
                    std::ptr::write_bytes(p.add(new), GUARD, full - new + TAIL);
                    IN_PLACE.fetch_add(1, Relaxed);
                    return p;
                }
            }
            let fresh = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !fresh.is_null() {
                std::ptr::copy_nonoverlapping(p, fresh, l.size().min(new));
                self.dealloc(p, l);
            }
            fresh
        }
    }
}

unsafe fn check_tail(p: *mut u8, size: usize, room: usize) {
    let t = unsafe { std::slice::from_raw_parts(p.add(size), room + TAIL) };
    if t.iter().any(|&b| b != GUARD) {
        violate(4, size, t.iter().position(|&b| b != GUARD).unwrap_or(0), 0, 0);
    }
}

pub fn mode() -> u8 {
    MODE.with(|m| m.get())
}

pub fn set_mode(v: u8) -> u8 {
    MODE.with(|m| m.replace(v))
}

/// Runs simulator code in the middle of code under test.
pub struct Pause(u8);

impl Pause {
    pub fn new() -> Self {
        Pause(set_mode(0))
    }
}

impl Default for Pause {
    fn default() -> Self {
        Self::new()
    }
}

impl Drop for Pause {
    fn drop(&mut self) {
        // While unwinding, allocations belong to the unwinder: keep faults and tracking off.
        if !std::thread::panicking() {
            set_mode(self.0);
        }
    }
}

/// Arms the allocation fault: the `n`-th request in fault mode (and all later ones if
/// `persist`) is refused.
pub fn arm(n: u64, persist: bool) {
    REQUESTS.store(0, Relaxed);
    FAIL_AT.store(n, Relaxed);
    PERSIST.store(persist, Relaxed);
}

pub fn disarm() {
    FAIL_AT.store(u64::MAX, Relaxed);
    PERSIST.store(false, Relaxed);
}

pub fn requests() -> u64 {
    REQUESTS.load(Relaxed)
}

pub fn refused() -> u64 {
    REFUSED.load(Relaxed)
}

pub fn total_tracked() -> u64 {
    TOTAL_TRACKED.load(Relaxed)
}

pub fn live_blocks() -> usize {
    LIVE_BLOCKS.load(Relaxed)
}

/// Checks the quarantined blocks and gives them back to the system.
pub fn flush() {
    let mut h = QUARANTINE.swap(std::ptr::null_mut(), Relaxed);
    while !h.is_null() {
        unsafe {
            let next = (*h).next;
            let p = (h as *mut u8).add(HEAD);
            let (size, align) = ((*h).size, (*h).align);
            let first = std::slice::from_raw_parts(p, size.min(PART));
            let n = (size - first.len()).min(PART);
            let last = std::slice::from_raw_parts(p.add(size - n), n);
            let bad = first.iter().position(|&b| b != POISON);
            let bad = bad.or(last.iter().position(|&b| b != POISON).map(|k| size - n + k));
            if (*h).magic != DEAD || bad.is_some() {
                violate(5, size, align, bad.unwrap_or(size), 0);
            }
            check_tail(p, size, (*h).room as usize);
            (*h).magic = 0;
            let head = head_for(align);
            System.dealloc(
                p.sub(head),
                Layout::from_size_align_unchecked(head + size + (*h).room as usize + TAIL, head.min(4096).max(64)),
            );
            h = next;
        }
    }
}

/// Forgets the accounting of blocks left behind by a run that already failed.
pub fn reset_counts() {
    LIVE_BLOCKS.store(0, Relaxed);
    LIVE_BYTES.store(0, Relaxed);
    V_KIND.store(0, Relaxed);
    disarm();
}

pub fn take_violation() -> Option<(String, String)> {
    let k = V_KIND.swap(0, Relaxed);
    let (a, b, c, d) = (V_A.load(Relaxed), V_B.load(Relaxed), V_C.load(Relaxed), V_D.load(Relaxed));
    match k {
        0 => None,
        1 => Some(("heap-double-free".into(), format!("block of {c} bytes freed twice"))),
        2 => Some(("heap-bad-free".into(), format!("free of {a} bytes (align {b}): not a block, or its header was overwritten"))),
        3 => Some((
            "heap-layout".into(),
            format!("block requested with size {c} align {d} is freed with size {a} align {b}"),
        )),
        4 => Some(("heap-overrun".into(), format!("write past the end of a block of {a} bytes (guard byte {b})"))),
        _ => Some(("heap-use-after-free".into(), format!("write to a freed block of {a} bytes at byte {c}"))),
    }
}
