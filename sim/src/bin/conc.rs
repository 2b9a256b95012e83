//! World "conc": an array divided into mutable parts that threads work on, arrays read by
//! several threads, and arrays handed from thread to thread. The scheduler decides at every
//! element access, closure call, clone, comparison and destructor which thread goes on.

use mdarray::expr::{self, Expression};
use mdarray::{DynRank, Layout, Shape, Slice, Strided, Tensor, View, ViewMut};
use mdsim::arrs::*;
use mdsim::by_shape_all;
use mdsim::driver::{self, RunOut, World, place_faults};
use mdsim::elem::*;
use mdsim::heap;
use mdsim::model::*;
use mdsim::plan::{self, Plan};
use mdsim::rng::{Rng, mix2};
use mdsim::sched;
use mdsim::sim::*;
use std::borrow::Borrow;
use std::collections::VecDeque;

#[path = "../views.rs"]
mod views;
use views::{Arena, Args, Pos, muts, refs};

const NEW: u16 = 1;
const STEP: u16 = 2;
const WORK: u16 = 3;
const RUN: u16 = 4;

fn op_name(c: u16) -> &'static str {
    match c {
        NEW => "new",
        STEP => "divide",
        WORK => "work",
        RUN => "run_threads",
        _ => "end",
    }
}

/// Moves things between threads without asking whether the library allows it (that is for
/// the compiler to decide).
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(self) -> T {
        self.0
    }
}

fn gval(seed: u64, k: usize) -> u64 {
    mix2(seed, k as u64 + 11)
}

fn modified(v: u64, seed: u64) -> u64 {
    mix2(v, seed ^ 0x77)
}

/// What one piece of work is about, and what it expects to see.
pub struct Job<E> {
    kind: u64,
    a: Args,
    p: Pos,
    base: *const E,
    exp: Vec<Ent>,
    /// Expected values afterwards.
    new: Vec<u64>,
}

impl<E: Elem> Job<E> {
    /// User code looks at element `k`.
    fn look(&self, k: usize, x: &E, what: &str) -> u64 {
        if sim().viol.is_some() {
            return 0;
        }
        if k >= self.p.len() {
            sim().violate("visit-extra", format!("{what}: more than {k} elements visited"));
            return 0;
        }
        if x as *const E != self.base.wrapping_add(self.p.at[k]) {
            let off = (x as *const E as isize - self.base as isize) / std::mem::size_of::<E>() as isize;
            sim().violate("visit-order", format!("{what}: visit {k} got the element at offset {off} instead of {}", self.p.at[k]));
            return 0;
        }
        let v = x.val();
        if v != self.exp[k].val && sim().viol.is_none() {
            sim().violate("foreign-write", format!("{what}: thread {} sees a value it did not write in element {k} of its part {:?}", sched::me(), self.p.dims));
        }
        v
    }

    fn touch(&self, k: usize, x: &mut E, seed: u64, what: &str) {
        let v = self.look(k, x, what);
        point(K::Closure, v, || x.set(modified(v, seed)));
    }

    fn done(&self, n: usize, what: &str) {
        if n != self.p.len() && sim().viol.is_none() {
            sim().violate("visit-count", format!("{what}: {n} of {} elements visited", self.p.len()));
        }
    }
}

pub trait ActMut<'a, E> {
    fn work(&mut self, j: &mut Job<E>, src: Option<&refs::V<'a, E>>) -> Out<()>;
}

pub trait Act<'a, E> {
    fn dynamic(&self) -> View<'_, E, DynRank, Strided>;
    fn read(&self, j: &mut Job<E>) -> Out<()>;
}

/// Evaluates into the type the expression chooses.
fn owned<X: Expression<Item: Clone>>(e: X) -> Vec<X::Item> {
    let t = e.eval();
    let s: &Slice<X::Item, X::Shape> = t.borrow();
    s.to_vec()
}

const NMUT: u64 = 18;
const NREAD: u64 = 14;

impl<'a, E: Elem, S: Shape, L: Layout> ActMut<'a, E> for ViewMut<'a, E, S, L> {
    fn work(&mut self, j: &mut Job<E>, src: Option<&refs::V<'a, E>>) -> Out<()> {
        let seed = j.a[5];
        let n = j.p.len();
        let p = j.p.clone();
        let old: Vec<u64> = j.exp.iter().map(|e| e.val).collect();
        let modv: Vec<u64> = old.iter().map(|&v| modified(v, seed)).collect();
        let gv: Vec<u64> = (0..n).map(|k| gval(seed, k)).collect();
        let sv: Vec<u64> = p.at.iter().map(|&x| gval(SRC, x)).collect();
        macro_rules! go {
            ($new:expr, $f:expr) => {{
                j.new = $new;
                let j = &*j;
                let _ = &j;
                sut($f)
            }};
        }
        let jj: *const Job<E> = j;
        // The closures only read the job.
        let q: &Job<E> = unsafe { &*jj };
        let rank = p.dims.len();
        let kind = match (j.kind % NMUT, src) {
            (10 | 11 | 13, None) => 0,
            (6 | 14, _) if rank == 0 => 1,
            (k, _) => k,
        };
        let mut c = 0;
        match kind {
            0 => go!(modv, || {
                expr::for_each(&mut *self, |x| {
                    q.touch(c, x, seed, "for_each");
                    c += 1;
                });
                q.done(c, "for_each");
            }),
            1 => go!(modv, || {
                for x in self.iter_mut() {
                    q.touch(c, x, seed, "iter_mut");
                    c += 1;
                }
                q.done(c, "iter_mut");
            }),
            2 => go!(gv, || self.fill_with(|| {
                let k = c;
                c += 1;
                point(K::Closure, k as u64, || E::make(gval(seed, k)))
            })),
            3 => go!(gv, || {
                let t = Tensor::<E, DynRank>::from_fn(&p.dims[..], |i| point(K::Closure, 3, || E::make(gval(seed, p.flat(i)))));
                self.assign(&t)
            }),
            4 => {
                let v = gval(seed, 7);
                go!(old.iter().map(|&x| opval(16, x, v)).collect(), || *self += expr::fill(E::make(v)))
            }
            5 => go!(old, || {
                for x in self.iter() {
                    q.look(c, x, "iter");
                    point(K::Access, c as u64, || ());
                    q.look(c, x, "iter");
                    c += 1;
                }
                q.done(c, "iter");
            }),
            6 => go!(modv, || {
                for mut r in self.outer_expr_mut() {
                    for x in r.iter_mut() {
                        q.touch(c, x, seed, "outer_expr_mut");
                        c += 1;
                    }
                }
                q.done(c, "outer_expr_mut");
            }),
            7 => go!(gv, || self.assign(expr::from_fn(&p.dims[..], |i: &[usize]| {
                let k = p.flat(i);
                point(K::Closure, k as u64, || E::make(gval(seed, k)))
            }))),
            8 => go!(old.clone(), || {
                let t = self.to_tensor();
                let got: Vec<u64> = t.iter().map(|x| x.val()).collect();
                if got != old {
                    sim().violate("foreign-write", format!("to_tensor: thread {} gets other values than it wrote", sched::me()));
                }
            }),
            9 => {
                let v = gval(seed, 7);
                go!(vec![v; n], || self.fill(E::make(v)))
            }
            10 => go!(sv, || self.assign(src.unwrap().dynamic())),
            11 => go!(old.iter().zip(&sv).map(|(&x, &y)| opval(17, x, y)).collect(), || *self -= src.unwrap().dynamic()),
            12 => {
                // All elements held at the same time.
                let mut new = old.clone();
                let mut pairs = vec![];
                for k in 0..n as u64 {
                    let (x, y) = ((mix2(seed, k) % n as u64) as usize, (mix2(seed, k + 999) % n as u64) as usize);
                    new.swap(x, y);
                    pairs.push((x, y));
                }
                go!(new, || {
                    let mut v: Vec<&mut E> = self.iter_mut().collect();
                    for (x, y) in pairs {
                        point(K::Access, x as u64, || ());
                        if x != y {
                            let (lo, hi) = v.split_at_mut(x.max(y));
                            std::mem::swap(lo[x.min(y)], hi[0]);
                        }
                    }
                })
            }
            13 => go!(modv, || {
                self.expr_mut().zip(src.unwrap().dynamic()).for_each(|(x, y)| {
                    if y.val() != gval(SRC, p.at[c.min(n - 1)]) {
                        sim().violate("visit-operand", "zip: wrong operand".into());
                    }
                    q.touch(c, x, seed, "zip");
                    c += 1;
                });
                q.done(c, "zip");
            }),
            14 => {
                let ax = (j.a[3] % rank as u64) as usize;
                let mut ord: Vec<usize> = vec![];
                let by: std::collections::BTreeMap<usize, usize> = p.at.iter().enumerate().map(|(k, &x)| (x, k)).collect();
                for l in p.lanes(ax) {
                    ord.extend(l.at.iter().map(|x| by[x]));
                }
                go!(modv, || {
                    for mut r in self.lanes_mut(ax) {
                        for x in r.iter_mut() {
                            if c >= n {
                                sim().violate("visit-extra", "lanes_mut: too many elements".into());
                                return;
                            }
                            q.touch(ord[c], x, seed, "lanes_mut");
                            c += 1;
                        }
                    }
                    q.done(c, "lanes_mut");
                })
            }
            15 => go!(old, || {
                let t = self.expr().map(|x| {
                    let v = q.look(c, x, "map");
                    c += 1;
                    point(K::Closure, v, || E::make(v))
                }).eval();
                q.done(c, "map");
                let t: &Slice<E, S> = t.borrow();
                for (k, x) in t.iter().enumerate() {
                    if x.val() != q.exp[k].val {
                        sim().violate("foreign-write", "map: wrong result".into());
                    }
                }
            }),
            16 => go!(modv, || {
                // Two iterators of the same part, one after the other element by element.
                let h = n / 2;
                let mut it = self.iter_mut();
                for _ in 0..h {
                    if let Some(x) = it.next() {
                        q.touch(c, x, seed, "iter_mut");
                        c += 1;
                    }
                }
                point(K::Access, 1, || ());
                it.for_each(|x| {
                    q.touch(c, x, seed, "iter_mut fold");
                    c += 1;
                });
                q.done(c, "iter_mut fold");
            }),
            _ => go!(gv, || {
                let t = Tensor::<E, S>::from_fn(self.shape().clone(), |i| point(K::Closure, 3, || E::make(gval(seed, p.flat(i)))));
                self.assign(t)
            }),
        }
    }
}

impl<'a, E: Elem, S: Shape, L: Layout> Act<'a, E> for View<'a, E, S, L> {
    fn dynamic(&self) -> View<'_, E, DynRank, Strided> {
        self.remap::<DynRank, Strided>()
    }

    fn read(&self, j: &mut Job<E>) -> Out<()> {
        let q: &Job<E> = j;
        let n = q.p.len();
        let rank = q.p.dims.len();
        let seed = q.a[5];
        let want: Vec<u64> = q.exp.iter().map(|e| e.val).collect();
        let same = |got: Vec<u64>, what: &str| {
            if got != want && sim().viol.is_none() {
                sim().violate("read-value", format!("{what} of {:?}: thread {} reads other values than the array holds", q.p.dims, sched::me()));
            }
        };
        let kind = match q.kind % NREAD {
            4 | 5 if rank == 0 => 0,
            k => k,
        };
        let mut c = 0;
        match kind {
            0 => sut(|| {
                for x in self.iter() {
                    q.look(c, x, "iter");
                    point(K::Access, c as u64, || ());
                    c += 1;
                }
                q.done(c, "iter")
            }),
            1 => sut(|| {
                expr::for_each(self, |x| {
                    q.look(c, x, "for_each");
                    point(K::Access, c as u64, || ());
                    c += 1;
                });
                q.done(c, "for_each")
            }),
            2 => sut(|| same(self.to_tensor().iter().map(|x| x.val()).collect(), "to_tensor")),
            3 => sut(|| same(self.to_vec().iter().map(|x| x.val()).collect(), "to_vec")),
            4 => sut(|| {
                for r in self.outer_expr() {
                    for x in r.iter() {
                        q.look(c, x, "outer_expr");
                        point(K::Access, c as u64, || ());
                        c += 1;
                    }
                }
                q.done(c, "outer_expr")
            }),
            5 => sut(|| {
                for r in self.rows() {
                    r.iter().for_each(|x| {
                        q.look(c, x, "rows");
                        point(K::Access, c as u64, || ());
                        c += 1;
                    });
                }
                q.done(c, "rows")
            }),
            6 => sut(|| {
                let mut k = 0;
                for x in owned(self.expr().zip(self.expr()).map(|(x, y)| x.clone() + y)) {
                    if x.val() != opval(0, want[k], want[k]) && sim().viol.is_none() {
                        sim().violate("read-value", format!("sum: wrong element {k}"));
                    }
                    k += 1;
                }
                q.done(k, "sum")
            }),
            7 => sut(|| {
                let mut it = self.iter();
                let mut other = it.clone();
                for _ in 0..n / 2 {
                    if let Some(x) = it.next() {
                        q.look(c, x, "iter");
                        c += 1;
                    }
                    point(K::Access, c as u64, || ());
                }
                it.for_each(|x| {
                    q.look(c, x, "fold");
                    c += 1;
                });
                let mut d = 0;
                while let Some(x) = other.next() {
                    q.look(d, x, "clone");
                    point(K::Access, d as u64, || ());
                    d += 1;
                }
                q.done(d, "clone")
            }),
            8 => sut(|| {
                if !(self == self) && n > 0 {
                    sim().violate("read-value", "a view differs from itself".into());
                }
            }),
            9 => sut(|| {
                let x = E::make(want.get(seed as usize % n.max(1)).copied().unwrap_or(3));
                if self.contains(&x) != (n > 0) {
                    sim().violate("read-value", "contains: wrong result".into());
                }
            }),
            10 => sut(|| {
                let s = self.iter().fold(0u64, |a, x| {
                    let v = q.look(c, x, "fold");
                    c += 1;
                    point(K::Access, v, || ());
                    mix2(a, v)
                });
                if s != want.iter().fold(0, |a, &v| mix2(a, v)) {
                    sim().violate("read-value", "fold: wrong result".into());
                }
            }),
            11 => sut(|| same(owned(self.expr().zip(self.expr()).map(|(x, y)| {
                point(K::Closure, 1, || ());
                if x.val() == y.val() { x.val() } else { 0 }
            })), "zip")),
            12 => sut(|| {
                let s = format!("{self:?}");
                let got: Vec<&str> = s.split(['[', ']', ',', ' ']).filter(|x| !x.is_empty()).collect();
                let exp: Vec<String> = want.iter().map(|v| format!("<{:x}>", v & 0xffff)).collect();
                if got != exp {
                    sim().violate("read-value", format!("Debug output {s}"));
                }
            }),
            _ => sut(|| {
                let mut k = 0;
                self.expr().enumerate().for_each(|(i, x)| {
                    if i != k {
                        sim().violate("read-value", format!("enumerate gives {i} instead of {k}"));
                    }
                    q.look(k, x, "enumerate");
                    point(K::Access, k as u64, || ());
                    k += 1;
                });
                q.done(k, "enumerate")
            }),
        }
    }
}

/// Seed of the shared source array.
const SRC: u64 = 0x5005;

struct Part<'a, E> {
    v: Option<muts::V<'a, E>>,
    src: Option<refs::V<'a, E>>,
    p: Pos,
    exp: Vec<Ent>,
}

fn peek_all<E: Elem>(base: *const E, p: &Pos, what: &str) -> Option<Vec<Ent>> {
    let mut out = vec![];
    for &i in &p.at {
        match unsafe { E::peek(base.add(i)) } {
            Ok((id, val)) => out.push(Ent { id, val }),
            Err(e) => {
                sim().violate(e, format!("{what}: element {i} of the array is not a live element"));
                return None;
            }
        }
    }
    Some(out)
}

/// One mutable worker. Returns its parts and whether it was interrupted.
fn mut_worker<'a, E: Elem>(mut parts: Vec<Part<'a, E>>, works: Vec<Args>, base: *const E) -> (Vec<(Pos, Vec<Ent>)>, bool, u64) {
    let mut ar = Arena::default();
    let mut stopped = false;
    let mut done = 0;
    for a in works {
        if sim().viol.is_some() {
            std::mem::forget(parts);
            return (vec![], true, done);
        }
        let live: Vec<usize> = (0..parts.len()).filter(|&k| parts[k].v.is_some()).collect();
        if live.is_empty() {
            break;
        }
        let k = live[(a[2] % live.len() as u64) as usize];
        if a[1] % (NMUT + 4) >= NMUT {
            // Divide the part further, inside the thread.
            let (v, src, p, exp) = {
                let x = &mut parts[k];
                (x.v.take().unwrap(), x.src.take(), x.p.clone(), x.exp.clone())
            };
            let s: Args = [a[3], mix2(a[5], 1), mix2(a[5], 2), mix2(a[5], 3), mix2(a[5], 4), mix2(a[5], 5)];
            let what = format!("dividing step {} in thread {} on {:?}", s[0] % views::NSTEPS, sched::me(), p.dims);
            let val: std::collections::BTreeMap<usize, Ent> = p.at.iter().copied().zip(exp.iter().copied()).collect();
            let f = std::mem::replace(&mut sim().fault, 0);
            let sub = must(&what, || muts::advance(v, p.clone(), &s, &mut ar)).unwrap_or_default();
            let ssub = src.map(|x| must(&what, || refs::advance(x, p.clone(), &s, &mut ar)).unwrap_or_default()).unwrap_or_default();
            sim().fault = f;
            if sub.is_empty() {
                continue;
            }
            for (x, q) in &sub {
                if !muts::check(x, q, base, &what) {
                    return (vec![], true, done);
                }
            }
            let mut ssub: Vec<Option<refs::V<'a, E>>> = if ssub.len() == sub.len() { ssub.into_iter().map(|x| Some(x.0)).collect() } else { sub.iter().map(|_| None).collect() };
            for (i, (x, q)) in sub.into_iter().enumerate() {
                let exp = q.at.iter().map(|y| val[y]).collect();
                parts.push(Part { v: Some(x), src: ssub[i].take(), p: q, exp });
            }
            // What the part still owns is compared at the end through its parts; the rest of
            // it must stay as it is.
            let covered: std::collections::BTreeSet<usize> = parts[parts.len() - ssub.len()..].iter().flat_map(|x| x.p.at.iter().copied()).collect();
            let rest: Vec<usize> = p.at.iter().copied().filter(|x| !covered.contains(x)).collect();
            parts[k].exp = rest.iter().map(|x| val[x]).collect();
            parts[k].p = Pos { dims: vec![rest.len()], at: rest };
            continue;
        }
        done += 1;
        let x = &mut parts[k];
        let what = format!("work {} of thread {} on {:?}", a[1] % (NMUT + 4), sched::me(), x.p.dims);
        let Some(now) = peek_all(base, &x.p, &what) else {
            break;
        };
        if now != x.exp {
            sim().violate("foreign-write", format!("before {what}: the part changed while other threads ran"));
            break;
        }
        let mut j = Job { kind: a[1] % (NMUT + 4), a, p: x.p.clone(), base, exp: x.exp.clone(), new: vec![] };
        let r = x.v.as_mut().unwrap().work(&mut j, x.src.as_ref());
        if sim().viol.is_some() {
            break;
        }
        let Some(now) = peek_all(base, &x.p, &what) else { break };
        match r {
            Out::Ok(()) => {
                let got: Vec<u64> = now.iter().map(|e| e.val).collect();
                if got != j.new {
                    sim().violate("wrong-result", format!("after {what}: the part does not hold what the thread wrote"));
                    break;
                }
                x.exp = now;
            }
            Out::Injected => {
                x.exp = now;
                stopped = true;
                break;
            }
            Out::Panic(m) => {
                sim().violate("unexpected-panic", format!("{what}: {m}"));
                break;
            }
            Out::Oom => break,
        }
    }
    let out = parts.iter().map(|x| (x.p.clone(), x.exp.clone())).collect();
    drop(parts);
    drop(ar);
    (out, stopped, done)
}

/// One reader of a shared array.
fn read_worker<'a, E: Elem>(whole: refs::V<'a, E>, again: &dyn Fn() -> refs::V<'a, E>, dims: &[usize], vals: &[Ent], works: Vec<Args>, base: *const E) -> (bool, u64) {
    let mut ar = Arena::default();
    let mut v = whole;
    let mut p = Pos::full(dims);
    let mut done = 0;
    for a in works {
        if sim().viol.is_some() {
            return (false, done);
        }
        if a[1] % (NREAD + 5) >= NREAD {
            let s: Args = [a[3], mix2(a[5], 1), mix2(a[5], 2), mix2(a[5], 3), mix2(a[5], 4), mix2(a[5], 5)];
            let what = format!("view step {} in thread {} on {:?}", s[0] % views::NSTEPS, sched::me(), p.dims);
            let f = std::mem::replace(&mut sim().fault, 0);
            let mut sub = must(&what, || refs::advance(v, p, &s, &mut ar)).unwrap_or_default();
            sim().fault = f;
            if sub.is_empty() {
                v = again();
                p = Pos::full(dims);
                continue;
            }
            for (x, q) in &sub {
                if !refs::check(x, q, base, &what) {
                    return (false, done);
                }
            }
            let n = sub.len() as u64;
            (v, p) = sub.swap_remove((a[2] % n) as usize);
            continue;
        }
        done += 1;
        let exp: Vec<Ent> = p.at.iter().map(|&i| vals[i]).collect();
        let what = format!("read {} of thread {} on {:?}", a[1] % (NREAD + 5), sched::me(), p.dims);
        let mut j = Job { kind: a[1] % (NREAD + 5), a, p: p.clone(), base, exp, new: vec![] };
        match v.read(&mut j) {
            Out::Panic(m) => {
                sim().violate("unexpected-panic", format!("{what}: {m}"));
                return (false, done);
            }
            Out::Injected => return (true, done),
            _ => {}
        }
    }
    (false, done)
}

/// Something owned that goes from thread to thread.
trait Own<E> {
    fn act(&mut self, kind: u64, seed: u64, m: &mut Model);
    fn turn(self: Box<Self>, kind: u64, seed: u64, m: &mut Model) -> Box<dyn Own<E>>;
}

struct Rest<I>(I);
struct Flat<E>(Vec<E>);

fn same<E: Elem>(x: &E, m: &Model, k: usize, what: &str) -> u64 {
    let v = x.val();
    if (k >= m.el.len() || v != m.el[k].val || (m.el[k].id != 0 && x.id() != m.el[k].id)) && sim().viol.is_none() {
        sim().violate("handoff", format!("{what}: thread {} receives another element {k} than was handed over ({:?})", sched::me(), m.dims));
    }
    v
}

impl<E: Elem, S: SimShape> Own<E> for Tensor<E, S> {
    fn act(&mut self, kind: u64, seed: u64, m: &mut Model) {
        let mut k = 0;
        match kind % 8 {
            0 => {
                for x in self.iter() {
                    same(x, m, k, "iter");
                    point(K::Access, k as u64, || ());
                    k += 1;
                }
            }
            1 => {
                self.expr_mut().for_each(|x| {
                    let v = same(x, m, k, "for_each");
                    point(K::Closure, v, || x.set(modified(v, seed)));
                    k += 1;
                });
                for e in &mut m.el {
                    e.val = modified(e.val, seed);
                }
            }
            2 => {
                let t = self.clone();
                let c = m.cloned();
                for x in t.iter() {
                    same(x, &c, k, "clone");
                    k += 1;
                }
            }
            3 => {
                let v = gval(seed, 1);
                *self += expr::fill(E::make(v));
                for e in &mut m.el {
                    e.val = opval(16, e.val, v);
                }
            }
            4 => self.reserve((seed % 40) as usize),
            5 => self.shrink_to_fit(),
            6 => {
                let v: Vec<u64> = owned(self.expr().map(|x| {
                    point(K::Closure, 1, || ());
                    x.val()
                }));
                if v != m.el.iter().map(|e| e.val).collect::<Vec<_>>() {
                    sim().violate("handoff", "map: wrong values".into());
                }
            }
            _ => {
                let d = m.dims.clone();
                self.assign(expr::from_fn(&d[..], |i: &[usize]| point(K::Closure, 0, || E::make(gval(seed, m.flat(i))))));
                for k in 0..m.len() {
                    m.el[k] = new(gval(seed, k));
                }
            }
        }
        match read(self, "handed over") {
            Some(now) if now.dims == m.dims && now.el.iter().zip(&m.el).all(|(x, y)| x.val == y.val) => m.el = now.el,
            Some(_) => sim().violate("handoff", format!("work {} on {:?}: wrong contents", kind % 8, m.dims)),
            None => {}
        }
    }

    fn turn(self: Box<Self>, kind: u64, seed: u64, m: &mut Model) -> Box<dyn Own<E>> {
        match kind % 5 {
            0 => Box::new(Rest((*self).into_iter())),
            1 => {
                let mut k = 0;
                let t = (*self).map(|mut x| {
                    let v = same(&x, m, k, "map");
                    k += 1;
                    point(K::Closure, v, || x.set(modified(v, seed)));
                    x
                });
                for e in &mut m.el {
                    e.val = modified(e.val, seed);
                }
                Box::new(t)
            }
            2 => Box::new((*self).into_dyn()),
            3 => {
                let n = m.len();
                m.dims = vec![n];
                Box::new(Flat((*self).into_vec()))
            }
            _ => {
                let v = E::make(seed);
                let t: Tensor<E, S> = (*self).map(|x| x + &v);
                for e in &mut m.el {
                    *e = new(opval(0, e.val, seed));
                }
                Box::new(t)
            }
        }
    }
}

impl<E: Elem> Own<E> for Flat<E> {
    fn act(&mut self, _: u64, _: u64, m: &mut Model) {
        for (k, x) in self.0.iter().enumerate() {
            same(x, m, k, "vector");
            point(K::Access, k as u64, || ());
        }
    }
    fn turn(self: Box<Self>, kind: u64, _: u64, m: &mut Model) -> Box<dyn Own<E>> {
        let t = Tensor::<E, (mdarray::Dyn,)>::from(self.0);
        if kind % 2 == 0 {
            m.dims = vec![m.el.len()];
            return Box::new(t);
        }
        let d = views::factor(m.el.len(), kind);
        m.dims = d.clone();
        Box::new(t.into_shape(&d[..]))
    }
}

impl<E: Elem, I: Iterator<Item = E> + ExactSizeIterator + 'static> Own<E> for Rest<I> {
    fn act(&mut self, _: u64, seed: u64, m: &mut Model) {
        if self.0.len() != m.el.len() {
            sim().violate("handoff", format!("iterator reports {} of {} elements", self.0.len(), m.el.len()));
            return;
        }
        for _ in 0..1 + seed % 3 {
            match self.0.next() {
                Some(x) => {
                    same(&x, m, 0, "by-value iteration");
                    if !m.el.is_empty() {
                        m.el.remove(0);
                    }
                    point(K::Access, 5, || ());
                }
                None => {
                    if !m.el.is_empty() {
                        sim().violate("handoff", "by-value iteration ended early".into());
                    }
                }
            }
        }
    }
    fn turn(self: Box<Self>, _: u64, _: u64, m: &mut Model) -> Box<dyn Own<E>> {
        let v: Vec<E> = self.0.collect();
        m.dims = vec![v.len()];
        Box::new(Flat(v))
    }
}

struct Item<E>(Box<dyn Own<E>>, Model);

fn create<E: Elem, S: SimShape>(dims: &[usize], seed: u64) -> Item<E> {
    let s: S = Shape::from_dims(dims);
    let p = Pos::full(dims);
    let t = Tensor::<E, S>::from_fn(s, |i: &[usize]| point(K::Make, 1, || E::make(gval(seed, p.flat(i)))));
    let m = Model { dims: dims.to_vec(), el: (0..p.len()).map(|k| new(gval(seed, k))).collect() };
    Item(Box::new(t), m)
}

struct Mail<E>(std::cell::UnsafeCell<Vec<VecDeque<Item<E>>>>);
unsafe impl<E> Sync for Mail<E> {}
impl<E> Mail<E> {
    // One thread runs at a time and no scheduling point lies within a use.
    #[allow(clippy::mut_from_ref)]
    fn at(&self, t: usize) -> &mut VecDeque<Item<E>> {
        unsafe { &mut (&mut *self.0.get())[t] }
    }
}

fn own_worker<E: Elem>(me: usize, nt: usize, works: Vec<Args>, mail: &Mail<E>, max: usize) -> (bool, u64, u64) {
    let mut mine: Vec<Item<E>> = vec![];
    let (mut done, mut moved) = (0, 0);
    for a in works {
        if sim().viol.is_some() {
            std::mem::forget(mine);
            return (false, done, moved);
        }
        // What has arrived.
        let got: Vec<Item<E>> = mail.at(me).drain(..).collect();
        mine.extend(got);
        done += 1;
        let seed = a[5];
        let pick = if mine.is_empty() { usize::MAX } else { (a[2] % mine.len() as u64) as usize };
        let kind = if mine.is_empty() { 0 } else { a[1] % 10 };
        let mut boom = false;
        let mut settle = |r: Out<()>, what: &str| match r {
            Out::Injected => boom = true,
            Out::Panic(m) => sim().violate("unexpected-panic", format!("{what}: {m}")),
            _ => {}
        };
        match kind {
            0 => {
                let sid = (a[3] % NSHAPES as u64) as u8;
                let dims = gen_dims(sid, &a[4..6], max);
                let r = sut(|| {
                    let it = by_shape_all!(sid, create, E, (&dims, seed));
                    let _p = heap::Pause::new();
                    mine.push(it);
                });
                settle(r, "creating an array");
            }
            1..=3 => {
                let it = &mut mine[pick];
                let r = sut(|| it.0.act(a[3], seed, &mut it.1));
                settle(r, "working on an array");
            }
            4 | 5 => {
                let mut it = mine.swap_remove(pick);
                let r = sut(|| {
                    let o = it.0.turn(a[3], seed, &mut it.1);
                    let _p = heap::Pause::new();
                    mine.push(Item(o, it.1));
                });
                settle(r, "converting an array");
            }
            6 => {
                let it = mine.swap_remove(pick);
                let r = sut(|| drop(it));
                settle(r, "dropping an array");
            }
            _ => {
                let to = (a[4] % nt as u64) as usize;
                let it = mine.swap_remove(pick);
                mail.at(to).push_back(it);
                moved += 1;
                sched::yield_point();
            }
        }
        if boom {
            // The thread ends; what it owned is destroyed by it.
            let r = sut(|| drop(mine));
            if let Out::Panic(m) = r {
                sim().violate("unexpected-panic", format!("dropping what an interrupted thread owned: {m}"));
            }
            return (true, done, moved);
        }
    }
    if sim().viol.is_some() {
        std::mem::forget(mine);
        return (false, done, moved);
    }
    let r = sut(|| drop(mine));
    (matches!(r, Out::Injected), done, moved)
}

trait Holder<E> {
    fn view_mut(&mut self) -> muts::V<'_, E>;
    fn view(&self) -> refs::V<'_, E>;
    fn base(&mut self) -> *mut E;
    fn addr(&self) -> *const E;
}

impl<E: Elem, S: SimShape> Holder<E> for Tensor<E, S> {
    fn view_mut(&mut self) -> muts::V<'_, E> {
        Box::new(self.expr_mut())
    }
    fn view(&self) -> refs::V<'_, E> {
        Box::new(self.expr())
    }
    fn base(&mut self) -> *mut E {
        self.as_mut_ptr()
    }
    fn addr(&self) -> *const E {
        self.as_ptr()
    }
}

fn make<E: Elem, S: SimShape>(dims: &[usize], seed: u64) -> Box<dyn Holder<E>> {
    let s: S = Shape::from_dims(dims);
    let p = Pos::full(dims);
    Box::new(Tensor::<E, S>::from_fn(s, |i: &[usize]| E::make(gval(seed, p.flat(i)))))
}

type E = Tok;

fn run(p: &Plan) -> RunOut {
    sim().reset();
    heap::reset_counts();
    let mut out = RunOut::default();
    let mode = p.cfg(0) % 4;
    let nt = 2 + (p.cfg(2) % 3) as usize;
    let max = [8, 16, 30, 60][(p.cfg(1) % 4) as usize];
    let stay = [1, 2, 4, 12][(p.cfg(3) % 4) as usize];
    let mut arr: Option<Box<dyn Holder<E>>> = None;
    let mut shared: Option<Box<dyn Holder<E>>> = None;
    let mut dims = vec![];
    let mut parts: Vec<Part<'static, E>> = vec![];
    let mut ar = Arena::default();
    let mut works: Vec<Vec<Args>> = vec![vec![]; nt];
    let mut base: *mut E = std::ptr::null_mut();
    let mut probes: [u64; 7] = [0; 7];
    let mut touched = 0;
    for (k, op) in p.ops.iter().enumerate() {
        sim().note(|| format!("op {k} {} {:?} fault {:?}", op_name(op.code), op.a, op.fault));
        sim().log(1000 + op.code as u64, k as u64);
        sim().begin_op(op.fault);
        match op.code {
            NEW if arr.is_none() => {
                let sid = (op.a[0] % NSHAPES as u64) as u8;
                dims = gen_dims(sid, &op.a[1..3], max);
                sim().fault = 0;
                arr = Some(by_shape_all!(sid, make, E, (&dims, 1 + op.a[5])));
                shared = Some(by_shape_all!(sid, make, E, (&dims, SRC)));
                // Safe: the parts are dropped before the arrays.
                let a: &'static mut dyn Holder<E> = unsafe { &mut *(&mut **arr.as_mut().unwrap() as *mut dyn Holder<E>) };
                let s: &'static dyn Holder<E> = unsafe { &*(&**shared.as_ref().unwrap() as *const dyn Holder<E>) };
                base = a.base();
                let q = Pos::full(&dims);
                let exp = peek_all(base, &q, "new").unwrap_or_default();
                if mode < 2 {
                    parts.push(Part { v: Some(a.view_mut()), src: Some(s.view()), p: q, exp });
                }
            }
            STEP if !parts.is_empty() => {
                sim().fault = 0;
                let i = (mix2(op.a[2], 5) % parts.len() as u64) as usize;
                let Part { v, src, p, .. } = parts.swap_remove(i);
                let what = format!("dividing step {} on {:?}", op.a[0] % views::NSTEPS, p.dims);
                let sub = must(&what, || muts::advance(v.unwrap(), p.clone(), &op.a, &mut ar)).unwrap_or_default();
                let mut ssub: Vec<Option<refs::V<'static, E>>> =
                    src.map(|x| must(&what, || refs::advance(x, p.clone(), &op.a, &mut ar)).unwrap_or_default()).unwrap_or_default().into_iter().map(|x| Some(x.0)).collect();
                ssub.resize_with(sub.len(), || None);
                for (i, (x, q)) in sub.into_iter().enumerate() {
                    if !muts::check(&x, &q, base, &what) {
                        break;
                    }
                    let exp = peek_all(base, &q, &what).unwrap_or_default();
                    parts.push(Part { v: Some(x), src: ssub[i].take(), p: q, exp });
                }
                // Each element belongs to one part.
                let mut seen = std::collections::BTreeSet::new();
                for x in parts.iter().flat_map(|x| &x.p.at) {
                    if !seen.insert(*x) {
                        sim().violate("overlap", format!("{what}: element {x} belongs to two parts"));
                    }
                }
            }
            WORK => works[(op.a[0] % nt as u64) as usize].push(op.a),
            RUN if arr.is_some() => {
                touched += 1;
                let q = Pos::full(&dims);
                let Some(before) = peek_all(base, &q, "start") else { break };
                let basep = Force(base as *const E);
                probes[0] += parts.len() as u64;
                let mut given: Vec<Vec<Part<'static, E>>> = (0..nt).map(|_| vec![]).collect();
                let n = parts.len();
                for (i, x) in parts.drain(..).enumerate() {
                    let t = match op.a[2] % 3 {
                        0 => i % nt,
                        1 => i * nt / n.max(1),
                        _ => (mix2(op.a[3], i as u64) % nt as u64) as usize,
                    };
                    given[t].push(x);
                }
                let mail: Mail<E> = Mail(std::cell::UnsafeCell::new((0..nt).map(|_| VecDeque::new()).collect()));
                let mut results: Vec<Option<(Vec<(Pos, Vec<Ent>)>, bool, u64, u64)>> = (0..nt).map(|_| None).collect();
                let sh: Option<&dyn Holder<E>> = shared.as_deref();
                let sbase = sh.unwrap().addr();
                let vals = peek_all(sbase, &q, "shared").unwrap_or_default();
                let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
                for (t, (slot, parts)) in results.iter_mut().zip(given).enumerate() {
                    let f = Force((parts, std::mem::take(&mut works[t]), basep.0, sbase, slot, sh.unwrap()));
                    let mail = &mail;
                    let (dims, vals) = (&dims, &vals);
                    bodies.push(Box::new(move || {
                        let (parts, works, base, sbase, slot, sh) = f.get();
                        // Modes: mutable parts; the same with one reader; readers; owners.
                        let reads = mode == 2 || (mode == 1 && t == 0);
                        *slot = Some(if mode == 3 {
                            let (b, d, m) = own_worker(t, nt, works, mail, max);
                            (vec![], b, d, m)
                        } else if reads {
                            let left: Vec<(Pos, Vec<Ent>)> = parts.iter().map(|x| (x.p.clone(), x.exp.clone())).collect();
                            drop(parts);
                            let (b, d) = read_worker(sh.view(), &|| sh.view(), dims, vals, works, sbase);
                            (left, b, d, 0)
                        } else {
                            let (r, b, d) = mut_worker(parts, works, base);
                            (r, b, d, 0)
                        });
                    }));
                }
                let o = sched::run(bodies, &p.sched, p.tail_seed, stay);
                sim().fault = 0;
                out.sched = o.taken;
                probes[1] += o.switches;
                let mut active = 0;
                for r in results.iter().flatten() {
                    probes[2] += r.1 as u64;
                    probes[3] += r.2;
                    probes[4] += r.3;
                    active += (r.2 > 0) as u64;
                }
                probes[5] += (active > 1) as u64;
                if sim().viol.is_some() {
                    std::mem::forget(mail);
                    break;
                }
                // Mail that nobody picked up is intact.
                for t in 0..nt {
                    while let Some(it) = mail.at(t).pop_front() {
                        probes[6] += 1;
                        let Item(mut o, mut m) = it;
                        must("mail left over", || o.act(0, 0, &mut m));
                        must("mail left over", || drop(o));
                    }
                }
                let Some(after) = peek_all(base, &q, "end") else { break };
                let mut exp = before.clone();
                for (p, e) in results.iter().flatten().flat_map(|r| &r.0) {
                    for (k, &i) in p.at.iter().enumerate() {
                        exp[i] = e[k];
                    }
                }
                if let Some(i) = (0..exp.len()).find(|&i| exp[i] != after[i]) {
                    sim().violate("not-sequential", format!("element {i} of {dims:?} is not what its owner left there"));
                }
                if let Some(now) = peek_all(sbase, &q, "shared array") {
                    if now != vals {
                        sim().violate("shared-changed", "the shared array changed although it was only read".into());
                    }
                }
            }
            _ => {}
        }
        sim().end_op();
        out.counts.push((if op.code == RUN { sim().cb } else { 0 }, 0));
        out.op_index = k;
        out.steps += 1;
        if sim().viol.is_none() {
            if let Some((c, d)) = heap::take_violation() {
                sim().violate(&c, d);
            }
        }
        if sim().viol.is_some() {
            break;
        }
    }
    sim().fault = 0;
    heap::disarm();
    if sim().viol.is_none() {
        drop(parts);
        drop(ar);
        drop(arr);
        drop(shared);
        if probes[2] == 0 && sim().live != 0 {
            let live = sim().live;
            sim().violate("elem-leak", format!("at the end: {live} elements alive"));
        }
        if let Some((c, d)) = heap::take_violation() {
            sim().violate(&c, d);
        }
        out.op_index = p.ops.len();
    } else {
        std::mem::forget((parts, ar, arr, shared));
    }
    let s = sim();
    out.viol = s.viol.take();
    if let Some(v) = &out.viol {
        out.key = v.class.clone();
    }
    out.hash = s.hash;
    out.nontrivial = touched > 0 && probes[5] > 0 && probes[1] > 1;
    out.probes = vec![
        ("parts_handed_out", probes[0]),
        ("context_switches", probes[1]),
        ("threads_interrupted", probes[2]),
        ("works_done", probes[3]),
        ("ownership_transfers", probes[4]),
        ("unclaimed_transfers", probes[6]),
    ];
    heap::flush();
    out
}

fn generate(_: &str, r: &mut Rng) -> Plan {
    let mode = *r.pick(&[0, 0, 0, 1, 2, 3]);
    let mut p = Plan { cfg: vec![mode, r.below(4), r.below(3), r.below(4)], tail_seed: 1 + r.below(1 << 40), ..Default::default() };
    let mut o = plan::op(r, NEW);
    o.a[0] = match r.below(4) {
        0 => r.below(NSHAPES as u64),
        1 => 2,
        2 => 3,
        _ => *r.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 10, 11]),
    };
    o.a[1] = r.below(1 << 30);
    o.a[5] = 1 + r.below(1 << 30);
    p.ops.push(o);
    let big = |r: &mut Rng| r.below(1 << 30);
    if mode < 2 {
        for k in 0..1 + r.below(4) {
            let mut s = plan::op(r, STEP);
            // The first step is most often one that divides.
            let c = if k == 0 || r.chance(1, 2) { *r.pick(&[2, 3, 11, 12, 13, 14, 15, 2, 12]) } else { r.below(views::NSTEPS) };
            s.a = [c, big(r), big(r), big(r), big(r), big(r)];
            p.ops.push(s);
        }
    }
    for _ in 0..3 + r.below(12) {
        let mut w = plan::op(r, WORK);
        w.a = [r.below(4), big(r), big(r), big(r), big(r), 1 + big(r)];
        p.ops.push(w);
    }
    p.ops.push(plan::op(r, RUN));
    p
}

fn place(_: &str, base: &Plan, counts: &[(u64, u64)], r: &mut Rng) -> Plan {
    let n = r.below(3).min(1);
    let mut p = place_faults(base, counts, r, &[F_PANIC, F_LATE], n, &|o| o.code == RUN);
    // Another schedule.
    p.tail_seed = 1 + r.below(1 << 40);
    p.cfg[3] = r.below(4);
    p
}

static WORLD: World = World {
    name: "conc",
    props: &["C09"],
    op_name,
    generate,
    place: Some(place),
    run,
    budget: |_, thorough| if thorough { 40_000_000 } else { 60_000 },
    variants: |_| 3,
    relevant: |_, v| v.class != "block-leak",
    rule: |_| "one array (14 tensor shape types) divided by 1-4 seeded steps into mutable parts for 2-4 threads, or shared by readers, or arrays handed from thread to thread; every call of user code and every element access is a scheduling point; schedule variants with and without a panic in one thread; non-trivial: at least two threads worked and at least two context switches happened",
    level: "exploration",
    real: &["mdarray (all of it, compiled from /repo, unmodified)", "std threads (one runs at a time)"],
    stub: &["thread scheduler (seeded baton)", "global allocator (simulated heap)", "element type and closures of the user"],
};

fn main() {
    driver::main(&WORLD)
}
