//! Seeded scheduler: real threads, parked and released one at a time at element accesses.

use crate::heap;
use crate::rng::Rng;
use crate::sim::sim;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};

static ACTIVE: AtomicBool = AtomicBool::new(false);

struct State {
    current: usize, // running thread
    alive: Vec<bool>,
    started: usize,
    choices: Vec<u32>, // prescribed
    pos: usize,
    taken: Vec<u32>, // all choices made
    rng: Option<Rng>,
    switches: u64,
    stay: u64,
}

static STATE: Mutex<State> = Mutex::new(State {
    current: 0,
    alive: Vec::new(),
    started: 0,
    choices: Vec::new(),
    pos: 0,
    taken: Vec::new(),
    rng: None,
    switches: 0,
    stay: 1,
});
static CV: Condvar = Condvar::new();

thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

pub fn me() -> usize {
    ME.with(|m| m.get())
}

pub fn active() -> bool {
    ACTIVE.load(Relaxed)
}

impl State {
    /// Chooses who runs next among the living threads. 0: the current one if alive.
    fn choose(&mut self, me: usize) -> Option<usize> {
        let n = self.alive.len();
        let others: Vec<usize> = (1..n).map(|k| (me + k) % n).filter(|&t| self.alive[t]).collect();
        let can_stay = self.alive[me];
        let total = others.len() + can_stay as usize;
        if total == 0 {
            return None;
        }
        if total == 1 {
            return Some(if can_stay { me } else { others[0] });
        }
        let c = if self.pos < self.choices.len() {
            self.choices[self.pos]
        } else if let Some(r) = &mut self.rng {
            if can_stay && !r.chance(1, self.stay) { 0 } else { r.below(64) as u32 }
        } else {
            0
        };
        self.pos += 1;
        self.taken.push(c);
        let c = c as usize % total;
        Some(if can_stay {
            if c == 0 { me } else { others[c - 1] }
        } else {
            others[c]
        })
    }
}

/// A point at which the scheduler may run another thread.
pub fn yield_point() {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let me = me();
    if me == usize::MAX {
        return;
    }
    let mut st = STATE.lock().unwrap_or_else(|e| e.into_inner());
    let Some(next) = st.choose(me) else { return };
    if next != me {
        st.switches += 1;
        st.current = next;
        sim().log(0x5c4ed, ((me as u64) << 8) | next as u64);
        CV.notify_all();
        while st.current != me {
            st = CV.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
}

pub struct Outcome {
    pub taken: Vec<u32>,
    pub switches: u64,
}

/// Runs the bodies as threads of one simulated process.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send + '_>>, choices: &[u32], tail_seed: u64, stay: u64) -> Outcome {
    let n = bodies.len();
    {
        let mut st = STATE.lock().unwrap_or_else(|e| e.into_inner());
        st.alive = vec![true; n];
        st.started = 0;
        st.current = usize::MAX;
        st.choices = choices.to_vec();
        st.pos = 0;
        st.taken = Vec::new();
        st.rng = if tail_seed == 0 { None } else { Some(Rng::new(tail_seed)) };
        st.switches = 0;
        st.stay = stay.max(1);
    }
    ACTIVE.store(true, Relaxed);
    std::thread::scope(|sc| {
        for (i, b) in bodies.into_iter().enumerate() {
            sc.spawn(move || {
                heap::set_mode(0);
                ME.with(|m| m.set(i));
                {
                    let mut st = STATE.lock().unwrap_or_else(|e| e.into_inner());
                    st.started += 1;
                    CV.notify_all();
                    while st.current != i {
                        st = CV.wait(st).unwrap_or_else(|e| e.into_inner());
                    }
                }
                b();
                heap::set_mode(0);
                let mut st = STATE.lock().unwrap_or_else(|e| e.into_inner());
                st.alive[i] = false;
                let next = st.choose(i);
                sim().log(0xdead, i as u64);
                st.current = next.unwrap_or(usize::MAX - 1);
                CV.notify_all();
                drop(st);
                ME.with(|m| m.set(usize::MAX));
            });
        }
        let mut st = STATE.lock().unwrap_or_else(|e| e.into_inner());
        while st.started < n {
            st = CV.wait(st).unwrap_or_else(|e| e.into_inner());
        }
        // The first thread to run is a choice as well.
        let first = if n > 0 {
            let c = if let Some(&c) = st.choices.first() {
                c
            } else if let Some(r) = &mut st.rng {
                r.below(64) as u32
            } else {
                0
            };
            st.pos = 1;
            st.taken.push(c);
            c as usize % n
        } else {
            0
        };
        st.current = first;
        CV.notify_all();
    });
    ACTIVE.store(false, Relaxed);
    let st = STATE.lock().unwrap_or_else(|e| e.into_inner());
    Outcome { taken: st.taken.clone(), switches: st.switches }
}
