//! Plans: the complete description of one simulated run, and its text form (the replay file).

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Op {
    pub code: u16,
    pub a: [u64; 6],
    pub fault: Option<(u8, u64)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub prop: String,
    pub cfg: Vec<u64>,
    pub ops: Vec<Op>,
    pub sched: Vec<u32>,
    /// Seed of the scheduler once `sched` is used up (0: keep running the current thread).
    pub tail_seed: u64,
    /// What the heap does when a block is resized (see `heap`).
    pub heap: u64,
}

impl Plan {
    pub fn cfg(&self, i: usize) -> u64 {
        self.cfg.get(i).copied().unwrap_or(0)
    }

    pub fn to_text(&self, world: &str, names: &dyn Fn(u16) -> &'static str) -> String {
        let mut s = format!("mdsim-replay 1\nworld {world}\nproperty {}\n", self.prop);
        s += "cfg";
        for c in &self.cfg {
            s += &format!(" {c}");
        }
        s += "\n";
        for o in &self.ops {
            s += &format!("op {} {}", o.code, names(o.code));
            for a in &o.a {
                s += &format!(" {a}");
            }
            if let Some((k, n)) = o.fault {
                s += &format!(" fault {k} {n} {}", crate::sim::FNAMES[k as usize]);
            }
            s += "\n";
        }
        s += "sched";
        for c in &self.sched {
            s += &format!(" {c}");
        }
        s += &format!("\ntail {}\nheap {}\n", self.tail_seed, self.heap);
        s
    }

    pub fn from_text(t: &str) -> Option<(String, Plan)> {
        let mut p = Plan::default();
        let mut world = String::new();
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first().copied() {
                Some("world") => world = w.get(1)?.to_string(),
                Some("property") => p.prop = w.get(1)?.to_string(),
                Some("cfg") => p.cfg = w[1..].iter().filter_map(|x| x.parse().ok()).collect(),
                Some("op") => {
                    let mut o = Op { code: w.get(1)?.parse().ok()?, ..Default::default() };
                    for i in 0..6 {
                        o.a[i] = w.get(3 + i)?.parse().ok()?;
                    }
                    if w.get(9) == Some(&"fault") {
                        o.fault = Some((w.get(10)?.parse().ok()?, w.get(11)?.parse().ok()?));
                    }
                    p.ops.push(o);
                }
                Some("sched") => p.sched = w[1..].iter().filter_map(|x| x.parse().ok()).collect(),
                Some("heap") => p.heap = w.get(1)?.parse().ok()?,
                Some("tail") => p.tail_seed = w.get(1)?.parse().ok()?,
                _ => {}
            }
        }
        Some((world, p))
    }
}

/// Raw argument: small numbers are favoured, since they are reduced modulo sizes.
pub fn arg(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.below(4),
        1 => r.below(16),
        _ => r.below(1 << 20),
    }
}

pub fn op(r: &mut Rng, code: u16) -> Op {
    Op { code, a: [arg(r), arg(r), arg(r), arg(r), arg(r), arg(r)], fault: None }
}
