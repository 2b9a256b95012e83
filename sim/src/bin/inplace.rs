//! World "inplace": chains of mutable views on an array, in-place updates through them, and
//! user panics at chosen elements. The reference is the list of positions a view selects.

use mdarray::expr::{self, Apply, Expression};
use mdarray::{Array, Const, DynRank, Layout, Shape, Tensor, View, ViewMut};
use mdsim::arrs::*;
use mdsim::driver::{self, RunOut, World, place_faults};
use mdsim::elem::*;
use mdsim::heap;
use mdsim::model::*;
use mdsim::plan::{self, Plan};
use mdsim::rng::{Rng, mix2};
use mdsim::sim::*;
use mdsim::by_shape_all;

#[path = "../views.rs"]
mod views;
use views::{Arena, Args, Pos, muts};

const NEW: u16 = 1;
const STEP: u16 = 2;
const RESET: u16 = 3;
const UPDATE: u16 = 4;
const ARRAY: u16 = 5;

fn op_name(c: u16) -> &'static str {
    match c {
        NEW => "new",
        STEP => "view_step",
        RESET => "whole_array",
        UPDATE => "update",
        ARRAY => "array",
        _ => "end",
    }
}

pub trait Act<'a, E> {}
impl<'a, E, S: Shape, L: Layout> Act<'a, E> for View<'a, E, S, L> {}

/// One update: what to do and what is expected.
pub struct Ctx<E> {
    kind: u64,
    a: Args,
    p: Pos,
    base: *mut E,
    old: Vec<Ent>,
    new: Vec<u64>,
    src: Tensor<E, DynRank>,
    low: Tensor<E, DynRank>,
    rev: Tensor<E, DynRank>,
    scalar: Option<E>,
    calls: usize,
    what: &'static str,
    out: Option<Out<()>>,
}

pub trait ActMut<'a, E> {
    fn update(&mut self, c: &mut Ctx<E>);
}

const NUPD: u64 = 36;

fn gval(seed: u64, k: usize) -> u64 {
    mix2(seed, k as u64 + 11)
}

fn modified(v: u64, seed: u64) -> u64 {
    mix2(v, seed ^ 0x77)
}

/// User closure on an element of the view: must be called in row-major order.
fn visit<E: Elem>(x: &mut E, calls: &mut usize, p: &Pos, base: *mut E, seed: u64) {
    let k = *calls;
    *calls += 1;
    if k >= p.len() {
        sim().violate("visit-extra", format!("closure called {} times for {} elements", k + 1, p.len()));
        return;
    }
    if x as *mut E != base.wrapping_add(p.at[k]) {
        let off = (x as *mut E as isize - base as isize) / std::mem::size_of::<E>() as isize;
        sim().violate("visit-order", format!("call {k} got the element at offset {off} instead of {}", p.at[k]));
        return;
    }
    let v = x.val();
    point(K::Closure, v, || x.set(modified(v, seed)));
}

impl<'a, E: Elem, S: Shape, L: Layout> ActMut<'a, E> for ViewMut<'a, E, S, L> {
    fn update(&mut self, c: &mut Ctx<E>) {
        let seed = c.a[5];
        let p = c.p.clone();
        let base = c.base;
        let n = p.len();
        let oldv: Vec<u64> = c.old.iter().map(|e| e.val).collect();
        let srcv: Vec<u64> = (0..n).map(|k| gval(seed, k)).collect();
        let lown = c.low.len().max(1);
        let lowv: Vec<u64> = (0..n).map(|k| gval(seed ^ 1, k % lown)).collect();
        let src = &c.src;
        let low = &c.low;
        let calls = &mut c.calls;
        let sval = c.scalar.as_ref().map_or(0, |x| x.val());
        macro_rules! opv {
            ($o:expr, $r:expr) => {
                (0..n).map(|k| opval($o + 16, oldv[k], $r[k])).collect()
            };
        }
        let all_s = vec![sval; n];
        let modv: Vec<u64> = oldv.iter().map(|&v| modified(v, seed)).collect();
        let dims = &p.dims;
        macro_rules! go {
            ($what:expr, $new:expr, $f:expr) => {{
                c.what = $what;
                c.new = $new;
                c.out = Some(sut($f));
            }};
        }
        match c.kind {
            0 => {
                let x = c.scalar.take().unwrap();
                go!("fill", all_s, || self.fill(x))
            }
            1 => go!("fill_with", srcv, || self.fill_with(|| {
                let k = *calls;
                *calls += 1;
                point(K::Closure, k as u64, || E::make(gval(seed, k)))
            })),
            2 => go!("assign_ref", srcv, || self.assign(src)),
            3 => {
                let s = std::mem::take(&mut c.src);
                go!("assign_value", srcv, || self.assign(s))
            }
            4 => {
                let x = c.scalar.take().unwrap();
                go!("assign_fill", all_s, || self.assign(expr::fill(x)))
            }
            5 => go!("assign_fill_with", srcv, || self.assign(expr::fill_with(|| {
                let k = *calls;
                *calls += 1;
                point(K::Closure, k as u64, || E::make(gval(seed, k)))
            }))),
            6 => go!("assign_from_fn", srcv, || self.assign(expr::from_fn(&dims[..], |i: &[usize]| {
                let k = p.flat(i);
                if k != *calls {
                    sim().violate("visit-order", format!("call {calls} got index {i:?} of {dims:?}"));
                }
                *calls += 1;
                point(K::Closure, k as u64, || E::make(gval(seed, k)))
            }))),
            7 => go!("assign_broadcast", lowv, || self.assign(low)),
            8 => {
                let r = &c.rev;
                go!("assign_strided", srcv, || self.assign(r.reorder()))
            }
            9 => go!("add_assign_ref", opv!(0, srcv), || *self += src),
            10 => go!("slice_add_assign_ref", opv!(0, srcv), || **self += src),
            11 => {
                let x = c.scalar.take().unwrap();
                go!("sub_assign_fill", opv!(1, all_s), || *self -= expr::fill(x))
            }
            12 => {
                let s = std::mem::take(&mut c.src);
                go!("rem_assign_value", opv!(4, srcv), || **self %= s)
            }
            13 => go!("shr_assign_broadcast", opv!(9, lowv), || *self >>= low),
            14 => {
                let r = &c.rev;
                go!("bitor_assign_strided", opv!(6, srcv), || *self |= r.reorder())
            }
            15 => go!("expr_for_each", modv, || self.expr_mut().for_each(|x| visit(x, calls, &p, base, seed))),
            16 => go!("iter_loop", modv, || {
                for x in self.iter_mut() {
                    visit(x, calls, &p, base, seed)
                }
            }),
            17 => go!("iter_for_each", modv, || self.iter_mut().for_each(|x| visit(x, calls, &p, base, seed))),
            18 => go!("iter_mixed", modv, || {
                let mut it = self.iter_mut();
                for _ in 0..n / 2 {
                    if let Some(x) = it.next() {
                        visit(x, calls, &p, base, seed)
                    }
                }
                it.for_each(|x| visit(x, calls, &p, base, seed))
            }),
            19 => go!("zip_for_each", modv, || self.expr_mut().zip(src).for_each(|(x, y)| {
                if y.val() != gval(seed, *calls) {
                    sim().violate("visit-operand", format!("call {calls}: wrong operand"));
                }
                visit(x, calls, &p, base, seed)
            })),
            20 => go!("zip_right", srcv, || src.expr().zip(self.expr_mut()).for_each(|(y, x)| x.clone_from(y))),
            21 => go!("enumerate", modv, || self.expr_mut().enumerate().for_each(|(i, x)| {
                if i != *calls {
                    sim().violate("visit-order", format!("count {i} at call {calls}"));
                }
                visit(x, calls, &p, base, seed)
            })),
            22 => go!("outer_nested", modv, || {
                if self.rank() > 0 {
                    self.outer_expr_mut().for_each(|mut o| o.iter_mut().for_each(|x| visit(x, calls, &p, base, seed)))
                } else {
                    self.iter_mut().for_each(|x| visit(x, calls, &p, base, seed))
                }
            }),
            23 => go!("rows_nested", modv, || {
                if self.rank() > 0 {
                    self.rows_mut().for_each(|mut o| o.expr_mut().for_each(|x| visit(x, calls, &p, base, seed)))
                } else {
                    self.iter_mut().for_each(|x| visit(x, calls, &p, base, seed))
                }
            }),
            24 => go!("lanes_assign", srcv, || {
                // Row by row, with rows of another array.
                if self.rank() > 0 {
                    for (mut x, y) in self.rows_mut().into_iter().zip(src.rows()) {
                        x.assign(y)
                    }
                } else {
                    self.assign(src)
                }
            }),
            25 => go!("index", srcv, || {
                let mut i = vec![0; dims.len()];
                for k in 0..n {
                    self[&i[..]].clone_from(&src[k]);
                    bump(&mut i, dims);
                }
            }),
            26 => go!("linear_index", srcv, || {
                for k in 0..n {
                    self[k].clone_from(&src[k]);
                }
            }),
            27 => go!("apply", modv, || {
                let e = (&mut *self).apply(|x: &mut E| visit(x, calls, &p, base, seed));
                e.for_each(|()| ())
            }),
            28 => go!("zip_with", modv, || {
                let e = (&mut *self).zip_with(src, |(x, y): (&mut E, &E)| {
                    if y.val() != gval(seed, *calls) {
                        sim().violate("visit-operand", format!("call {calls}: wrong operand"));
                    }
                    visit(x, calls, &p, base, seed)
                });
                e.for_each(|()| ())
            }),
            29 => {
                let x = c.scalar.take().unwrap();
                go!("assign_from_elem", all_s, || self.assign(expr::from_elem(&dims[..], x)))
            }
            30 => {
                // A source of the same static type.
                let t = Tensor::<E, S>::from_fn(self.shape().clone(), |i| E::make(gval(seed, p.flat(i))));
                go!("assign_same_type", srcv, || self.assign(&t));
                sim().fault = 0;
            }
            31 => go!("map_assign", modv, || {
                // The source is computed from operands while assigning.
                self.assign(expr::map(src, |y: &E| {
                    let k = *calls;
                    *calls += 1;
                    if y.val() != gval(seed, k) {
                        sim().violate("visit-operand", format!("call {k}: wrong operand"));
                    }
                    let v = modified(oldv[k.min(oldv.len() - 1)], seed);
                    point(K::Closure, v, || E::make(v))
                }))
            }),
            32 => {
                let x = c.scalar.take().unwrap();
                go!("add_assign_broadcast_zip", (0..n).map(|k| opval(16, oldv[k], opval(0, lowv[k], sval))).collect(), || {
                    *self += low.expr().zip(expr::fill(x)).map(|(y, z)| y.clone() + z)
                })
            }
            33 => {
                let t = Tensor::<E, S>::from_fn(self.shape().clone(), |i| E::make(gval(seed, p.flat(i))));
                go!("sub_assign_same_type", opv!(1, srcv), || *self -= t);
            }
            34 => go!("for_each_fn", modv, || expr::for_each(&mut *self, |x| visit(x, calls, &p, base, seed))),
            _ => {
                // Reading does not change anything.
                let mut seen: Vec<u64> = vec![];
                go!("read", oldv.clone(), || {
                    let t = self.to_tensor();
                    seen.extend(t.iter().map(|x| x.val()));
                    let v = self.to_vec();
                    seen.extend(v.iter().map(|x| x.val()));
                });
                if matches!(c.out, Some(Out::Ok(()))) && seen != [&oldv[..], &oldv[..]].concat() {
                    sim().violate("read-value", format!("copies of the view {dims:?} have other contents"));
                }
            }
        }
    }
}

enum Base<E> {
    T(Box<dyn Holder<E>>),
}

trait Holder<E> {
    fn view(&mut self) -> muts::V<'_, E>;
    fn base(&mut self) -> *mut E;
}

impl<E: Elem, S: SimShape> Holder<E> for Tensor<E, S> {
    fn view(&mut self) -> muts::V<'_, E> {
        Box::new(self.expr_mut())
    }
    fn base(&mut self) -> *mut E {
        self.as_mut_ptr()
    }
}

impl<E: Elem, const A: usize, const B: usize> Holder<E> for Array<E, (Const<A>, Const<B>)> {
    fn view(&mut self) -> muts::V<'_, E> {
        Box::new(self.expr_mut())
    }
    fn base(&mut self) -> *mut E {
        self.as_mut_ptr()
    }
}

fn make<E: Elem, S: SimShape>(dims: &[usize], seed: u64) -> Base<E> {
    let d = dims.to_vec();
    let s: S = Shape::from_dims(&d);
    let p = Pos::full(&d);
    Base::T(Box::new(Tensor::<E, S>::from_fn(s, |i: &[usize]| E::make(mix2(seed, p.flat(i) as u64)))))
}

struct W<E> {
    base: Option<(Base<E>, Vec<usize>)>,
    steps: Vec<Args>,
    interrupted: u64,
    updates: u64,
    max_depth: u64,
    strided: u64,
}

fn snapshot<E: Elem>(base: *mut E, n: usize, what: &str) -> Option<Vec<Ent>> {
    let mut out = vec![];
    for i in 0..n {
        match unsafe { E::peek(base.add(i)) } {
            Ok((id, val)) => out.push(Ent { id, val }),
            Err(e) => {
                sim().violate(e, format!("{what}: element {i} of the array is not a live element"));
                return None;
            }
        }
    }
    Some(out)
}

fn do_update<E: Elem>(w: &mut W<E>, a: &Args) {
    let Some((b, dims)) = &mut w.base else { return };
    let Base::T(h) = b;
    let total = product(dims);
    let base = h.base();
    let Some(before) = snapshot(base, total, "before update") else { return };
    let mut ar = Arena::default();
    let mut p = Pos::full(dims);
    let hp: *mut dyn Holder<E> = h.as_mut();
    // Only one view is in use at any time.
    let mut v = unsafe { (*hp).view() };
    let mut depth = 0;
    for s in &w.steps {
        let what = format!("view step {} on {:?}", s[0] % views::NSTEPS, p.dims);
        let mut parts = must(&what, || muts::advance(v, p, s, &mut ar)).unwrap_or_default();
        if sim().viol.is_some() {
            return;
        }
        if parts.is_empty() {
            // Nothing to select, or not possible for this layout: go on with the whole.
            drop(parts);
            v = unsafe { (*hp).view() };
            p = Pos::full(dims);
            continue;
        }
        depth += 1;
        let n = parts.len();
        for (x, q) in &parts {
            if !muts::check(x, q, base, &what) {
                return;
            }
        }
        let (x, q) = parts.swap_remove((s[4] % n as u64) as usize);
        v = x;
        p = q;
    }
    w.max_depth = w.max_depth.max(depth);
    w.updates += 1;
    let old: Vec<Ent> = p.at.iter().map(|&i| before[i]).collect();
    let n = p.len();
    if (1..n).any(|k| p.at[k] != p.at[k - 1] + 1) {
        w.strided += 1;
    }
    let seed = a[5];
    // Sources, created without faults.
    let f = std::mem::replace(&mut sim().fault, 0);
    let pq = p.clone();
    let src = Tensor::<E, DynRank>::from_fn(&p.dims[..], |i| E::make(gval(seed, pq.flat(i))));
    let skip = if p.dims.is_empty() { 0 } else { (a[1] % (p.dims.len() as u64 + 1)) as usize };
    let ld = p.dims[skip..].to_vec();
    let lp = Pos { dims: ld.clone(), at: vec![] };
    let low = Tensor::<E, DynRank>::from_fn(&ld[..], |i| E::make(gval(seed ^ 1, lp.flat(i))));
    let mut rd = p.dims.clone();
    rd.reverse();
    let rev = Tensor::<E, DynRank>::from_fn(&rd[..], |i: &[usize]| {
        let mut j = i.to_vec();
        j.reverse();
        E::make(gval(seed, pq.flat(&j)))
    });
    let scalar = E::make(gval(seed, 1 << 20));
    sim().fault = f;
    let mut c = Ctx { kind: a[0] % NUPD, a: *a, p: p.clone(), base, old, new: vec![], src, low, rev, scalar: Some(scalar), calls: 0, what: "", out: None };
    sim().cb = 0;
    let kinds = sim().kinds;
    let (reads, twice) = (c.kind >= 35, c.kind == 32);
    v.update(&mut c);
    let fired = sim().fired;
    // Each of these is called once per element, so the failing call tells the failing element.
    let failed_call = match sim().fired_in {
        Some(k @ (K::Clone | K::Op | K::OpAssign)) if fired && !reads && !(twice && k == K::Clone) => (sim().kinds[k as usize] - kinds[k as usize]) as usize,
        _ => 0,
    };
    sim().fault = 0;
    sim().note(|| format!("update {} through view {:?} at {:?}: {}", c.what, p.dims, p.at, c.out.as_ref().map_or("none", |o| o.name())));
    drop(v);
    drop(ar);
    let what = c.what;
    let out = c.out.take().unwrap();
    let (new, old) = (std::mem::take(&mut c.new), std::mem::take(&mut c.old));
    let calls = c.calls;
    drop(c);
    if sim().viol.is_some() {
        return;
    }
    let Some(after) = snapshot(base, total, what) else { return };
    let mut inside = vec![false; total];
    for &i in &p.at {
        inside[i] = true;
    }
    if let Some(i) = (0..total).find(|&i| !inside[i] && after[i] != before[i]) {
        sim().violate("outside-changed", format!("{what}: element {i} outside the view {:?} changed", p.dims));
        return;
    }
    match out {
        Out::Ok(()) => {
            if fired {
                sim().violate("panic-swallowed", format!("{what}: a user panic did not reach the caller"));
            } else if let Some(k) = (0..n).find(|&k| after[p.at[k]].val != new[k]) {
                sim().violate("not-updated", format!("{what}: element {k} of {n} of the view {:?} does not have its new value", p.dims));
            } else if calls != 0 && calls != n {
                sim().violate("visit-count", format!("{what}: closure called {calls} times for {n} elements"));
            }
        }
        Out::Injected => {
            w.interrupted += 1;
            let done = |k: usize| after[p.at[k]].val == new[k];
            let kept = |k: usize| after[p.at[k]] == old[k];
            let first = (0..n).find(|&k| !done(k)).unwrap_or(n);
            // Everything behind the failing element is old. With equal values before and after
            // an element can count as both.
            let last_touched = (0..n).rev().find(|&k| !kept(k));
            if let Some(l) = last_touched {
                if l > first {
                    sim().violate("not-a-prefix", format!("{what}: interrupted; element {first} of {n} is not updated but element {l} is"));
                }
            }
            if sim().viol.is_none() && first + 1 < failed_call {
                sim().violate("not-a-prefix", format!("{what}: interrupted at element {} but only {first} are updated", failed_call - 1));
            }
            if sim().viol.is_none() && calls > 0 {
                // The closure saw `calls` elements: all but the last one are done.
                if first + 1 < calls {
                    sim().violate("not-a-prefix", format!("{what}: interrupted at element {} but only {first} are updated", calls - 1));
                }
            }
        }
        Out::Oom => {}
        Out::Panic(m) => {
            sim().violate("unexpected-panic", format!("{what} on view {:?}: {m}", p.dims));
        }
    }
}

fn run_elem<E: Elem>(p: &Plan) -> RunOut {
    sim().reset();
    heap::reset_counts();
    let mut w: W<E> = W { base: None, steps: vec![], interrupted: 0, updates: 0, max_depth: 0, strided: 0 };
    let mut out = RunOut::default();
    for (k, op) in p.ops.iter().enumerate() {
        sim().note(|| format!("op {k} {} {:?} fault {:?}", op_name(op.code), op.a, op.fault));
        sim().log(1000 + op.code as u64, k as u64);
        sim().begin_op(op.fault);
        match op.code {
            NEW => {
                let sid = (op.a[0] % NSHAPES as u64) as u8;
                let dims = gen_dims(sid, &op.a[1..3], [12, 30, 60, 120][(p.cfg(1) % 4) as usize]);
                w.steps.clear();
                w.base = None;
                let seed = op.a[5];
                w.base = Some((by_shape_all!(sid, make, E, (&dims, seed)), dims));
            }
            ARRAY => {
                w.steps.clear();
                w.base = None;
                let seed = op.a[5];
                macro_rules! arr {
                    ($a:expr, $b:expr) => {{
                        let q = Pos::full(&[$a, $b]);
                        let x = Array::<E, (Const<$a>, Const<$b>)>::from_fn(|i: &[usize]| E::make(mix2(seed, q.flat(i) as u64)));
                        (Base::T(Box::new(x)), vec![$a, $b])
                    }};
                }
                w.base = Some(match op.a[0] % 4 {
                    0 => arr!(2, 3),
                    1 => arr!(1, 4),
                    2 => arr!(3, 3),
                    _ => arr!(4, 2),
                });
            }
            STEP => w.steps.push(op.a),
            RESET => w.steps.clear(),
            _ => do_update(&mut w, &op.a),
        }
        sim().end_op();
        out.counts.push((if op.code == UPDATE { sim().cb } else { 0 }, 0));
        out.op_index = k;
        out.steps += 1;
        if sim().viol.is_none() {
            if let Some((c, d)) = heap::take_violation() {
                sim().violate(&c, d);
            }
        }
        if sim().viol.is_some() {
            break;
        }
    }
    if sim().viol.is_none() {
        w.base = None;
        let live = sim().live;
        if live != 0 {
            sim().violate("elem-leak", format!("at the end: {live} elements alive"));
        }
        heap::flush();
        if let Some((c, d)) = heap::take_violation() {
            sim().violate(&c, d);
        }
        out.op_index = p.ops.len();
    } else {
        std::mem::forget(w.base.take());
    }
    let s = sim();
    out.viol = s.viol.take();
    if let Some(v) = &out.viol {
        out.key = v.class.clone();
    }
    out.hash = s.hash;
    out.nontrivial = w.updates > 0 && (w.interrupted > 0 || p.ops.iter().all(|o| o.fault.is_none()));
    out.probes = vec![("interrupted_updates", w.interrupted), ("updates", w.updates), ("updates_through_strided_views", w.strided), ("view_steps_max", w.max_depth)];
    heap::flush();
    out
}

fn run(p: &Plan) -> RunOut {
    run_elem::<Tok>(p)
}

fn generate(_: &str, r: &mut Rng) -> Plan {
    let mut p = Plan { cfg: vec![0, r.below(4)], ..Default::default() };
    let rounds = 1 + r.below(3);
    for _ in 0..rounds {
        let code = if r.chance(1, 8) { ARRAY } else { NEW };
        let mut o = plan::op(r, code);
        o.a[0] = match r.below(4) {
            0 => r.below(NSHAPES as u64),
            1 => 2,
            2 => 3,
            _ => *r.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 10, 11]),
        };
        o.a[1] = r.below(1 << 30);
        o.a[5] = 1 + r.below(1 << 30);
        p.ops.push(o);
        for _ in 0..1 + r.below(3) {
            if r.chance(1, 3) {
                p.ops.push(plan::op(r, RESET));
            }
            for _ in 0..r.below(4) {
                let mut s = plan::op(r, STEP);
                s.a = [r.below(views::NSTEPS), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20)];
                p.ops.push(s);
            }
            for _ in 0..1 + r.below(3) {
                let mut u = plan::op(r, UPDATE);
                u.a[0] = r.below(NUPD);
                u.a[5] = 1 + r.below(1 << 30);
                p.ops.push(u);
            }
        }
    }
    p
}

fn place(_: &str, base: &Plan, counts: &[(u64, u64)], r: &mut Rng) -> Plan {
    let n = 1 + r.below(3);
    place_faults(base, counts, r, &[F_PANIC, F_LATE], n, &|o| o.code == UPDATE)
}

static WORLD: World = World {
    name: "inplace",
    props: &["C13"],
    op_name,
    generate,
    place: Some(place),
    run,
    budget: |_, thorough| if thorough { 40_000_000 } else { 100_000 },
    variants: |_| 3,
    relevant: |_, v| v.class != "block-leak",
    rule: |_| "1-3 arrays (14 tensor shape types, 4 array types), chains of 0-9 view steps (28 step kinds on 15 statically typed sources), 36 kinds of update; a run without faults fixes the callback counts, then variants with 1-3 user panics; non-trivial: at least one update, and one interrupted if faults were planned",
    level: "exploration",
    real: &["mdarray (all of it, compiled from /repo, unmodified)"],
    stub: &["global allocator (simulated heap)", "element type and closures of the user"],
};

fn main() {
    driver::main(&WORLD)
}
