//! Per-run simulator state: element ledger, fault trigger, event trace, violation slot.

use crate::heap;
use crate::rng::mix2;
use std::cell::UnsafeCell;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

/// Kinds of points at which the library calls into user code.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum K {
    Make = 0,
    Clone,
    Drop,
    Eq,
    Op,
    OpAssign,
    Unary,
    Closure,
    Iter,
    Fmt,
    Ser,
    De,
    Access,
}
pub const NK: usize = 13;
pub const KNAMES: [&str; NK] = [
    "make", "clone", "drop", "eq", "op", "op_assign", "unary", "closure", "iter", "fmt", "ser", "de", "access",
];

/// Fault kinds in a plan.
pub const F_NONE: u8 = 0;
pub const F_PANIC: u8 = 1; // user code panics at callback n, before its effect
pub const F_LATE: u8 = 2; // user code panics at callback n, after its effect
pub const F_OOM: u8 = 3; // allocation request n is refused
pub const F_OOM_ALL: u8 = 4; // allocation requests from n on are refused
pub const F_BLACKOUT: u8 = 5; // every request is refused and the operation must not need one
pub const F_SRC: u8 = 6; // source delivers an error at call n
pub const F_SINK: u8 = 7; // sink fails at call n
pub const FNAMES: [&str; 8] =
    ["none", "panic", "panic_late", "oom_once", "oom_persist", "blackout", "source_error", "sink_error"];

pub struct Injected;
pub struct Oom;

#[derive(Clone, Copy)]
pub struct Rec {
    pub live: bool,
    pub val: u64,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

pub struct Sim {
    pub recs: Vec<Rec>,
    pub live: i64,
    /// Classes that the property of this run is not about and that do no harm to the run.
    pub muted: &'static [&'static str],
    pub zst_live: i64,
    pub op_first: u32,
    pub cb: u64,
    pub kinds: [u64; NK],
    pub fault: u8,
    pub fault_n: u64,
    /// Fault kind this operation started with.
    pub armed: u8,
    pub fired: bool,
    pub hash: u64,
    pub events: u64,
    pub viol: Option<Viol>,
    pub trace: Option<Vec<String>>,
    pub boxes: std::collections::BTreeMap<usize, u32>,
    /// While set, elements read or written are reported here (address based ownership).
    pub fired_kinds: [u64; 8],
    pub total_cb: u64,
    pub panic_msg: String,
    pub recorder: Option<Vec<u64>>,
    /// A stream of this operation reported an error.
    pub io_failed: bool,
    /// Kind of the call that was chosen to panic.
    pub fired_in: Option<K>,
    refused_base: u64,
}

struct Racy(UnsafeCell<Option<Box<Sim>>>);
unsafe impl Sync for Racy {}
static SIM: Racy = Racy(UnsafeCell::new(None));

/// Only one simulated thread runs at any time, so this is never raced.
#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim {
    unsafe {
        let s = &mut *SIM.0.get();
        if s.is_none() {
            let _p = heap::Pause::new();
            *s = Some(Box::new(Sim::new()));
        }
        s.as_mut().unwrap()
    }
}

impl Sim {
    fn new() -> Self {
        Sim {
            recs: vec![Rec { live: false, val: 0 }],
            live: 0,
            muted: &[],
            zst_live: 0,
            op_first: 1,
            cb: 0,
            kinds: [0; NK],
            fault: 0,
            fault_n: 0,
            armed: 0,
            fired: false,
            hash: 0,
            events: 0,
            viol: None,
            trace: None,
            boxes: Default::default(),
            fired_kinds: [0; 8],
            total_cb: 0,
            panic_msg: String::new(),
            recorder: None,
            io_failed: false,
            fired_in: None,
            refused_base: 0,
        }
    }

    /// Resets everything but the trace switch and the cumulative counters.
    pub fn reset(&mut self) {
        self.recs.truncate(1);
        self.muted = &[];
        self.live = 0;
        self.zst_live = 0;
        self.op_first = 1;
        self.cb = 0;
        self.kinds = [0; NK];
        self.fault = 0;
        self.fault_n = 0;
        self.fired = false;
        self.hash = 0x1234_5678;
        self.events = 0;
        self.viol = None;
        if let Some(t) = &mut self.trace {
            t.clear()
        }
        self.boxes.clear();
        self.recorder = None;
        self.io_failed = false;
    }

    pub fn log(&mut self, a: u64, b: u64) {
        self.hash = mix2(self.hash ^ a.rotate_left(17), b);
        self.events += 1;
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            let _p = heap::Pause::new();
            t.push(f());
        }
    }

    pub fn violate(&mut self, class: &str, detail: String) {
        let _p = heap::Pause::new();
        if self.viol.is_none() && !self.muted.contains(&class) {
            self.viol = Some(Viol { class: class.to_string(), detail });
        }
    }

    pub fn begin_op(&mut self, fault: Option<(u8, u64)>) {
        self.op_first = self.recs.len() as u32;
        self.cb = 0;
        self.kinds = [0; NK];
        self.fired = false;
        self.io_failed = false;
        self.fired_in = None;
        let (k, n) = fault.unwrap_or((0, 0));
        self.fault = k;
        self.armed = k;
        self.fault_n = n;
        self.refused_base = heap::refused();
        match k {
            F_OOM => heap::arm(n, false),
            F_OOM_ALL => heap::arm(n, true),
            F_BLACKOUT => heap::arm(0, true),
            _ => heap::arm(u64::MAX, false),
        }
    }

    pub fn end_op(&mut self) {
        self.total_cb += self.cb;
        let refused = heap::refused() - self.refused_base;
        if refused > 0 {
            self.fired_kinds[self.armed as usize] += refused;
            self.fired = true;
        }
        if self.fault == F_BLACKOUT {
            // A blackout is in force whether or not anything asked for memory.
            self.fired_kinds[F_BLACKOUT as usize] += 1;
        }
        self.fault = 0;
        heap::disarm();
    }

    pub fn new_id(&mut self, val: u64) -> u32 {
        let _p = heap::Pause::new();
        let id = self.recs.len() as u32;
        self.recs.push(Rec { live: true, val });
        self.live += 1;
        id
    }
}

/// Takes note of a call into user code; returns true if this call has to panic.
pub fn enter(kind: K, tag: u64) -> bool {
    let s = sim();
    s.log(kind as u64 + 1, tag);
    s.kinds[kind as usize] += 1;
    let n = s.cb;
    s.cb += 1;
    if let Some(r) = &mut s.recorder {
        r.push(((kind as u64) << 56) | (tag & 0x00ff_ffff_ffff_ffff));
    }
    let boom = (s.fault == F_PANIC || s.fault == F_LATE) && n == s.fault_n && !s.fired && !std::thread::panicking();
    if boom {
        s.fired_in = Some(kind);
    }
    boom
}

pub fn raise() -> ! {
    let s = sim();
    s.fired = true;
    s.fired_kinds[s.fault as usize] += 1;
    s.log(99, s.cb);
    heap::set_mode(0);
    resume_unwind(Box::new(Injected))
}

/// A call of a stream (source or sink): true if it has to report an error.
pub fn io(kind: K, tag: u64, fault: u8) -> bool {
    let _p = heap::Pause::new();
    let s = sim();
    let n = s.cb;
    if s.io_failed {
        s.violate("called-after-error", format!("{} call {n} after the stream reported an error", KNAMES[kind as usize]));
    }
    let boom = enter(kind, tag);
    if boom {
        raise();
    }
    if s.fault == fault && n == s.fault_n && !s.fired {
        s.fired = true;
        s.io_failed = true;
        s.fired_kinds[fault as usize] += 1;
        s.log(98, n);
        return true;
    }
    false
}

/// A point in user code: runs `f`, with the injected panic before or after it.
pub fn point<R>(kind: K, tag: u64, f: impl FnOnce() -> R) -> R {
    let _p = heap::Pause::new();
    crate::sched::yield_point();
    let boom = enter(kind, tag);
    if boom && sim().fault == F_PANIC {
        raise();
    }
    let r = f();
    if boom {
        drop(r);
        raise();
    }
    r
}

pub enum Out<R> {
    Ok(R),
    Injected,
    Oom,
    Panic(String),
}

impl<R> Out<R> {
    pub fn name(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Injected => "injected",
            Out::Oom => "oom",
            Out::Panic(_) => "panic",
        }
    }
}

/// Runs code under test.
pub fn sut<R>(f: impl FnOnce() -> R) -> Out<R> {
    let old = heap::set_mode(3);
    let r = catch_unwind(AssertUnwindSafe(f));
    heap::set_mode(old & !3);
    match r {
        Ok(r) => Out::Ok(r),
        Err(p) => {
            if p.is::<Injected>() {
                Out::Injected
            } else if p.is::<Oom>() {
                sim().fired = true;
                Out::Oom
            } else {
                let m = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".into()
                };
                // Blocks allocated for the payload while tracking was on are freed here.
                drop(p);
                Out::Panic(m)
            }
        }
    }
}

/// Runs a call that must not panic (and has no user code to interrupt).
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match sut(f) {
        Out::Ok(r) => Some(r),
        Out::Panic(m) => {
            sim().violate("unexpected-panic", format!("{what}: {m}"));
            None
        }
        _ => None,
    }
}

/// Runs a call that is allowed to reject its arguments.
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    match sut(f) {
        Out::Ok(r) => Some(r),
        _ => None,
    }
}

pub fn install_hooks() {
    std::alloc::set_alloc_error_hook(|_| {
        heap::set_mode(0);
        resume_unwind(Box::new(Oom))
    });
    let debug = std::env::var_os("MDSIM_DEBUG").is_some();
    std::panic::set_hook(Box::new(move |i| {
        heap::set_mode(0);
        if debug {
            eprintln!("{i}");
        }
    }));
}
