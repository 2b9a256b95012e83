//! World "hist": histories of owning-array operations with user panics, allocation failures,
//! cancellation and leaking, against a reference array, an element ledger and a checked heap.

use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, DenseMapping, Dense, Dyn, DynRank, Owned, Rank, Shape, Slice, Tensor, View};
use mdsim::arrs::*;
use mdsim::by_shape;
use mdsim::driver::{self, RunOut, World, place_faults};
use mdsim::elem::*;
use mdsim::heap;
use mdsim::model::*;
use mdsim::plan::{self, Op, Plan};
use mdsim::rng::{Rng, mix2};
use mdsim::sim::*;
use std::any::Any;
use std::collections::HashSet;
use std::mem;
use std::ops::Bound;

#[path = "../large.rs"]
#[allow(dead_code)]
mod large;

type T<E, S> = Tensor<E, S>;

struct Slot {
    sid: u8,
    any: Box<dyn Any>,
    m: Model,
}

struct W<E> {
    slots: Vec<Option<Slot>>,
    leaked: i64,
    block_slack: usize,
    max: usize,
    fired_any: bool,
    rejected: u64,
    rejecting: bool,
    memory_faults: u64,
    interrupted: u64,
    cancelled: u64,
    forgotten: u64,
    kept: u64,
    blackout_ok: u64,
    key: String,
    e: std::marker::PhantomData<E>,
}

const NEW: u16 = 1;
const FROM_FN: u16 = 2;
const CLONE: u16 = 3;
const FROM_LIST: u16 = 4;
const APPEND: u16 = 10;
const EXPAND: u16 = 11;
const DRAIN: u16 = 12;
const TRUNCATE: u16 = 13;
const CLEAR: u16 = 14;
const RESIZE: u16 = 15;
const RESERVE: u16 = 17;
const SHRINK: u16 = 18;
const CLONE_FROM: u16 = 19;
const ASSIGN: u16 = 21;
const OP_ASSIGN: u16 = 22;
const ROUNDTRIP: u16 = 23;
const CONVERT: u16 = 24;
const MAP: u16 = 25;
const BINOP: u16 = 26;
const INTO_ITER: u16 = 27;
const INTO_SCALAR: u16 = 28;
const ITER_MUT: u16 = 29;
const SPARE: u16 = 30;
const EXTEND: u16 = 31;
const COMPARE: u16 = 32;
const ARRAY: u16 = 33;
const STRIDED: u16 = 34;
const DROP: u16 = 35;
const TAKE: u16 = 36;
const INTO_EXPR: u16 = 37;
const REF_OP: u16 = 38;
const INVALID: u16 = 39;
const TRY_NESTED: u16 = 40;
const LARGE: u16 = 41;

fn op_name(c: u16) -> &'static str {
    match c {
        NEW => "new",
        FROM_FN => "from_fn",
        CLONE => "clone",
        FROM_LIST => "from_list",
        APPEND => "append",
        EXPAND => "expand",
        DRAIN => "drain",
        TRUNCATE => "truncate",
        CLEAR => "clear",
        RESIZE => "resize",
        RESERVE => "reserve",
        SHRINK => "shrink",
        CLONE_FROM => "clone_from",
        ASSIGN => "assign",
        OP_ASSIGN => "op_assign",
        ROUNDTRIP => "roundtrip",
        CONVERT => "convert",
        MAP => "map",
        BINOP => "binop",
        INTO_ITER => "into_iter",
        INTO_SCALAR => "into_scalar",
        ITER_MUT => "iter_mut",
        SPARE => "spare_capacity",
        EXTEND => "extend",
        COMPARE => "compare",
        ARRAY => "array",
        STRIDED => "strided_copy",
        DROP => "drop",
        TAKE => "mem_take",
        INTO_EXPR => "into_expr",
        REF_OP => "ref_op",
        INVALID => "invalid_view",
        LARGE => "large_array",
        TRY_NESTED => "try_nested",
        _ => "end",
    }
}

// ---------------------------------------------------------------------------------------------
// Infrastructure

impl<E: Elem> W<E> {
    fn free(&mut self) -> usize {
        match self.slots.iter().position(|s| s.is_none()) {
            Some(i) => i,
            None => {
                // Drop the first array, as a user would, without faults.
                let f = mem::replace(&mut sim().fault, 0);
                self.slots[0] = None;
                sim().fault = f;
                0
            }
        }
    }

    fn put<S: SimShape>(&mut self, t: T<E, S>, m: Model) {
        let i = self.free();
        self.put_at(i, t, m);
    }

    fn put_at<S: SimShape>(&mut self, i: usize, t: T<E, S>, m: Model) {
        let s = if E::FULL || matches!(S::SID, 1 | 2 | 7) {
            Slot { sid: S::SID, any: Box::new(t), m }
        } else {
            let old = heap::set_mode(1);
            let t = t.into_dyn();
            heap::set_mode(old);
            Slot { sid: 7, any: Box::new(t), m }
        };
        self.slots[i] = Some(s);
    }

    fn pick(&self, a: u64) -> Option<usize> {
        let n = self.slots.len();
        (0..n).map(|k| (a as usize + k) % n).find(|&i| self.slots[i].is_some())
    }

    fn pick_other(&self, a: u64, not: usize, sid: Option<u8>) -> Option<usize> {
        let n = self.slots.len();
        (0..n)
            .map(|k| (a as usize + k) % n)
            .find(|&i| i != not && self.slots[i].as_ref().is_some_and(|s| sid.is_none_or(|x| x == s.sid)))
    }

    /// Takes note of a result that must be `Ok` unless a fault was injected.
    fn expect_ok<R>(&mut self, out: Out<R>, what: &str) -> Option<R> {
        match out {
            Out::Ok(r) => Some(r),
            Out::Injected => {
                self.interrupted += 1;
                None
            }
            Out::Oom => {
                self.check_oom(what);
                None
            }
            Out::Panic(m) => {
                sim().violate("unexpected-panic", format!("{what}: panicked: {m}"));
                None
            }
        }
    }

    fn check_oom(&mut self, what: &str) {
        let s = sim();
        self.interrupted += 1;
        match s.armed {
            F_OOM | F_OOM_ALL => {}
            F_BLACKOUT => s.violate("needs-memory", format!("{what}: asked for memory although it works in place or within capacity")),
            _ => s.violate("absurd-request", format!("{what}: asked for an absurd amount of memory")),
        }
    }

    fn check_rejected<R>(&mut self, out: Out<R>, what: &str) -> Option<R> {
        let s = sim();
        self.rejecting = true;
        match out {
            Out::Panic(_) => {
                self.rejected += 1;
                let bad: u64 = [K::Clone, K::Op, K::OpAssign, K::Unary, K::Closure, K::Eq, K::Iter].iter().map(|&k| s.kinds[k as usize]).sum();
                if bad > 0 {
                    s.violate("rejected-late", format!("{what}: rejected after {bad} calls of user code"));
                }
                None
            }
            Out::Ok(r) => {
                s.violate("accepted-invalid", format!("{what}: invalid call was accepted"));
                Some(r)
            }
            Out::Injected => {
                self.interrupted += 1;
                // A destructor of a consumed operand panicked, or the call went ahead.
                None
            }
            Out::Oom => {
                self.check_oom(what);
                None
            }
        }
    }

    /// Lifts a blackout for operations that may ask for memory.
    fn needs_memory(&self, yes: bool) {
        if sim().fault == F_BLACKOUT && yes {
            heap::disarm();
            sim().fault = 0;
            sim().armed = 0;
        }
    }

    fn total(&self) -> i64 {
        self.slots.iter().flatten().map(|s| s.m.len() as i64).sum::<i64>() + self.leaked
    }

    fn audit(&mut self, what: &str) {
        let mut ids = HashSet::new();
        for i in 0..self.slots.len() {
            let Some(sl) = &mut self.slots[i] else { continue };
            let w = format!("after {what}, array {i}");
            by_shape!(sl.sid, audit_one, E, (sl, &w));
            if sim().viol.is_some() {
                return;
            }
            if !E::ZST {
                for e in &sl.m.el {
                    if !ids.insert(e.id) {
                        sim().violate("elem-shared", format!("{w}: element {} is in two places", e.id));
                        return;
                    }
                }
            }
        }
        let live = if E::ZST { sim().zst_live } else { sim().live };
        let total = self.total();
        if !E::DROPS {
            // Nothing to be seen.
        } else if live > total {
            sim().violate("elem-leak", format!("after {what}: {} elements are neither in an array nor destroyed", live - total));
        } else if live < total {
            sim().violate("elem-lost", format!("after {what}: {} elements of arrays are already destroyed", total - live));
        }
        if let Some((c, d)) = heap::take_violation() {
            sim().violate(&c, format!("after {what}: {d}"));
        }
    }
}

fn audit_one<E: Elem, S: SimShape>(sl: &mut Slot, what: &str) {
    let t = sl.any.downcast_ref::<T<E, S>>().unwrap();
    if let Some(r) = read(t, what) {
        compare::<E>(&mut sl.m, &r, what);
    }
}

/// Compares with the expectation and adopts the identities of new elements.
fn compare<E: Elem>(m: &mut Model, r: &Model, what: &str) {
    let s = sim();
    if m.dims != r.dims {
        s.violate("dims-mismatch", format!("{what}: dimensions are {:?}, expected {:?}", r.dims, m.dims));
        return;
    }
    if E::ZST {
        return;
    }
    for (k, (a, b)) in m.el.iter_mut().zip(&r.el).enumerate() {
        if a.val != b.val {
            s.violate("content-mismatch", format!("{what}: element {k} of {:?} has value {:x}, expected {:x}", m.dims, b.val, a.val));
            return;
        }
        if a.id != 0 && a.id != b.id {
            s.violate("identity-mismatch", format!("{what}: element {k} of {:?} was replaced by another one", m.dims));
            return;
        }
        a.id = b.id;
    }
}

/// After an interruption: any valid state made of old elements and elements created meanwhile.
fn adopt<E: Elem, S: SimShape>(t: &T<E, S>, old: &[&Model], mutates: bool, what: &str) -> Model {
    let Some(r) = read(t, what) else { return Model { dims: S::default_dims(), el: vec![] } };
    if !E::ZST {
        let first = sim().op_first;
        for (k, e) in r.el.iter().enumerate() {
            if e.id >= first {
                continue;
            }
            let o = old.iter().flat_map(|m| &m.el).find(|o| o.id == e.id);
            match o {
                None => {
                    sim().violate("foreign-element", format!("{what}: element {k} comes from nowhere"));
                    break;
                }
                Some(o) if o.val != e.val && !mutates => {
                    sim().violate("content-mismatch", format!("{what}: element {k} changed its value"));
                    break;
                }
                _ => {}
            }
        }
    }
    r
}

struct Call<'a> {
    what: &'a str,
    /// Expected state, or `None` if the call has to be rejected.
    exp: Option<Model>,
    /// State required even if interrupted by a user panic (by default any valid state).
    on_panic: Option<Model>,
    on_oom: Option<Model>,
    mutates: bool,
    keep: bool,
    sources: Vec<Model>,
}

impl<'a> Call<'a> {
    fn new(what: &'a str, exp: Option<Model>) -> Self {
        Call { what, exp, on_panic: None, on_oom: None, mutates: false, keep: false, sources: vec![] }
    }
}

/// Runs an operation that borrows the array in slot `i` mutably.
fn mut_op<E: Elem, S: SimShape, R>(w: &mut W<E>, i: usize, c: Call, f: impl FnOnce(&mut T<E, S>, &mut W<E>) -> R) -> Option<R> {
    let mut sl = w.slots[i].take().unwrap();
    let t = sl.any.downcast_mut::<T<E, S>>().unwrap();
    let (ptr, cap) = (t.as_ptr() as usize, t.capacity());
    w.needs_memory(!(c.keep && c.exp.is_some() && S::DIMS.is_some()));
    let blackout = sim().fault == F_BLACKOUT;
    let out = sut(|| f(t, w));
    sim().log(7, out.name().len() as u64);
    sim().note(|| format!("  {} -> {}{}", c.what, out.name(), if let Out::Panic(m) = &out { format!(" ({m})") } else { String::new() }));
    let mut res = None;
    match (&c.exp, &out) {
        (Some(m), Out::Ok(_)) => {
            sl.m = m.clone();
            if c.keep {
                w.kept += 1;
                if blackout {
                    w.blackout_ok += 1;
                }
                if !E::ZST && cap > 0 && (t.as_ptr() as usize != ptr || t.capacity() != cap) {
                    sim().violate("buffer-moved", format!("{}: capacity {cap} became {}, or the buffer moved", c.what, t.capacity()));
                }
            }
            res = w.expect_ok(out, c.what);
        }
        (Some(_), Out::Injected) if c.on_panic.is_some() => {
            sl.m = c.on_panic.clone().unwrap();
            w.expect_ok(out, c.what);
        }
        (Some(_), Out::Oom) if c.on_oom.is_some() => {
            sl.m = c.on_oom.clone().unwrap();
            w.expect_ok(out, c.what);
        }
        (Some(_), Out::Injected | Out::Oom) => {
            let mut old: Vec<&Model> = vec![&sl.m];
            old.extend(c.sources.iter());
            let n = adopt::<E, S>(t, &old, c.mutates, c.what);
            sl.m = n;
            w.expect_ok(out, c.what);
        }
        (Some(_), Out::Panic(_)) => {
            w.expect_ok(out, c.what);
        }
        (None, _) => {
            // Rejected: everything stays as it was.
            w.check_rejected(out, c.what);
        }
    }
    w.slots[i] = Some(sl);
    res
}

fn take_t<E: Elem, S: SimShape>(w: &mut W<E>, i: usize) -> (T<E, S>, Model) {
    let sl = w.slots[i].take().unwrap();
    (*sl.any.downcast::<T<E, S>>().unwrap(), sl.m)
}

fn dyn_view<E: Elem>(sl: &Slot) -> View<'_, E, DynRank, Dense> {
    fn go<E: Elem, S: SimShape>(sl: &Slot) -> View<'_, E, DynRank, Dense> {
        sl.any.downcast_ref::<T<E, S>>().unwrap().remap::<DynRank, Dense>()
    }
    by_shape!(sl.sid, go, E, (sl))
}

/// Takes an array out as one of dynamic rank (outside the operation under test).
fn take_dyn<E: Elem>(w: &mut W<E>, i: usize) -> (T<E, DynRank>, Model) {
    fn go<E: Elem, S: SimShape>(w: &mut W<E>, i: usize) -> (T<E, DynRank>, Model) {
        let (t, m) = take_t::<E, S>(w, i);
        // The harness converts in tracked mode, so that the block accounting stays exact.
        let old = heap::set_mode(1);
        let t = t.into_dyn();
        heap::set_mode(old);
        (t, m)
    }
    let sid = w.slots[i].as_ref().unwrap().sid;
    by_shape!(sid, go, E, (w, i))
}

fn mk<E: Elem>(kind: K, tag: u64, val: u64) -> E {
    point(kind, tag, || E::make(val))
}

fn idx_val(seed: u64, idx: &[usize]) -> u64 {
    idx.iter().fold(mix2(seed, 0x1dc5), |h, &x| mix2(h, x as u64))
}

/// Generator closure: checks that it is called in row-major order.
fn generator<E: Elem>(seed: u64, dims: Vec<usize>) -> impl FnMut(&[usize]) -> E {
    let mut next = vec![0; dims.len()];
    let mut left = product(&dims);
    move |i: &[usize]| {
        let _p = heap::Pause::new();
        if left == 0 || i != &next[..] {
            sim().violate("generator-order", format!("generator called with {i:?}, expected {next:?} of {dims:?}"));
        }
        left = left.saturating_sub(1);
        bump(&mut next, &dims);
        mk(K::Closure, 3, idx_val(seed, i))
    }
}

fn gen_model(seed: u64, dims: &[usize]) -> Model {
    Model::from_fn(dims, |i| new(idx_val(seed, i)))
}

/// Element of `src` for each element of `dst` (broadcast over outer dimensions), or None.
fn broadcast(dst: &[usize], src: &Model) -> Option<Vec<u64>> {
    if src.dims.len() > dst.len() || dst[dst.len() - src.dims.len()..] != src.dims[..] {
        return None;
    }
    let n = product(dst);
    Some((0..n).map(|i| src.el[i % src.len().max(1)].val).collect())
}

struct SimIter<E> {
    n: usize,
    seed: u64,
    k: usize,
    lo: usize,
    hi: Option<usize>,
    e: std::marker::PhantomData<E>,
}

impl<E: Elem> Iterator for SimIter<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        let k = self.k;
        if k >= self.n {
            point(K::Iter, k as u64, || ());
            return None;
        }
        self.k += 1;
        Some(mk(K::Iter, k as u64, mix2(self.seed, k as u64)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo.saturating_sub(self.k), self.hi.map(|h| h.saturating_sub(self.k)))
    }
}

fn sim_iter<E: Elem>(a: u64, b: u64, seed: u64) -> SimIter<E> {
    let n = if a % 29 == 28 { 20 + (a / 29) % 60 } else { a % 12 } as usize;
    let (lo, hi) = match b % 6 {
        0 | 1 => (n, Some(n)),
        2 => (0, None),
        3 => (n / 2, Some(n + 7)),
        4 => (n + 9, None),    // lies: too large
        _ => (0, Some(n / 2)), // lies: too small
    };
    SimIter { n, seed, k: 0, lo, hi, e: std::marker::PhantomData }
}

// ---------------------------------------------------------------------------------------------
// Operations

fn op_new<E: Elem, S: SimShape>(w: &mut W<E>, op: &Op) {
    let dims = S::default_dims();
    let reject = product(&dims) != 0;
    let cap = (op.a[2] % if op.a[3] % 9 == 0 { 400 } else { 40 }) as usize;
    let v = op.a[1] % 3;
    w.needs_memory(v == 2 && cap > 0);
    let out = sut(|| match v {
        0 => T::<E, S>::new(),
        1 => T::<E, S>::default(),
        _ => T::<E, S>::with_capacity(cap),
    });
    let r = if reject { w.check_rejected(out, "new") } else { w.expect_ok(out, "new") };
    if let Some(t) = r {
        if v == 2 && t.capacity() < cap {
            sim().violate("capacity", format!("with_capacity({cap}) has capacity {}", t.capacity()));
        }
        w.put(t, Model { dims, el: vec![] });
    }
}

fn op_from_fn<E: Elem, S: SimShape>(w: &mut W<E>, op: &Op) {
    let dims = gen_dims(S::SID, &op.a[2..], w.max);
    let seed = op.a[5];
    w.needs_memory(true);
    let v = op.a[1] % 4;
    let g = generator::<E>(seed, dims.clone());
    let m = match v {
        0 | 1 => gen_model(seed, &dims),
        _ => Model::from_fn(&dims, |_| new(seed)),
    };
    let out = sut(|| match v {
        0 => T::<E, S>::from_fn(S::from_dims(&dims), g),
        1 => <T<E, S> as FromExpression<E, S>>::from_expr(expr::from_fn(S::from_dims(&dims), g)),
        2 => T::<E, S>::from_elem(S::from_dims(&dims), mk(K::Make, 0, seed)),
        _ => <T<E, S> as FromExpression<E, S>>::from_expr(expr::from_elem(S::from_dims(&dims), mk(K::Make, 0, seed))),
    });
    if let Some(t) = w.expect_ok(out, "from_fn") {
        w.put(t, m);
    }
}

fn op_clone<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    w.needs_memory(true);
    let sl = w.slots[i].take().unwrap();
    let t = sl.any.downcast_ref::<T<E, S>>().unwrap();
    let m = sl.m.cloned();
    if op.a[1] % 6 == 5 {
        let out = sut(|| ToOwned::to_owned(&**t));
        w.slots[i] = Some(sl);
        if let Some(mut r) = w.expect_ok(out, "to_owned") {
            let b: &mut Slice<E, S> = std::borrow::BorrowMut::borrow_mut(&mut r);
            let dims: Vec<usize> = (0..b.rank()).map(|i| b.dim(i)).collect();
            if dims != m.dims {
                sim().violate("dims-mismatch", format!("to_owned: dimensions {dims:?}, expected {:?}", m.dims));
            } else {
                for (k, e) in m.el.iter().enumerate() {
                    match unsafe { E::peek(b.as_ptr().add(k)) } {
                        Ok((_, x)) if E::ZST || x == e.val => {}
                        Ok(_) => sim().violate("content-mismatch", format!("to_owned: element {k} has the wrong value")),
                        Err(e) => sim().violate(e, format!("to_owned: element {k}")),
                    }
                }
            }
            sim().fault = 0;
            drop(r);
        }
        return;
    }
    let mut vec = None;
    let out = sut(|| match op.a[1] % 6 {
        0 | 1 => Some(t.clone()),
        2 => Some(t.to_tensor()),
        3 => Some(T::<E, S>::from(t)),
        _ => {
            vec = Some(t.to_vec());
            None
        }
    });
    w.slots[i] = Some(sl);
    if let Some(r) = w.expect_ok(out, "clone") {
        match r {
            Some(t) => w.put(t, m),
            None => {
                let n = m.len();
                w.put(T::<E, Rank<1>>::from(vec.unwrap()), Model { dims: vec![n], el: m.el });
            }
        }
    }
}

fn op_from_list<E: Elem>(w: &mut W<E>, op: &Op) {
    let seed = op.a[5];
    let v = op.a[1] % 8;
    w.needs_memory(v != 0);
    let it = sim_iter::<E>(op.a[2], op.a[3], seed);
    let n = it.n;
    let e = |k: usize| mk::<E>(K::Make, k as u64, mix2(seed, k as u64));
    let model = |dims: Vec<usize>| {
        let n = product(&dims);
        Model { dims, el: (0..n).map(|k| new(mix2(seed, k as u64))).collect() }
    };
    match v {
        0 => {
            let mut vec: Vec<E> = Vec::new();
            let old = heap::set_mode(1);
            vec.reserve(n + (op.a[4] % 5) as usize);
            heap::set_mode(old);
            for k in 0..n {
                vec.push(E::make(mix2(seed, k as u64)));
            }
            let out = sut(|| T::<E, Rank<1>>::from(vec));
            if let Some(t) = w.expect_ok(out, "from vec") {
                w.put(t, model(vec![n]));
            }
        }
        1 | 2 => {
            let out = sut(|| it.collect::<T<E, Rank<1>>>());
            if let Some(t) = w.expect_ok(out, "from_iter") {
                w.put(t, model(vec![n]));
            }
        }
        3 => {
            let src: Vec<E> = (0..n).map(e_quiet::<E>(seed)).collect();
            let out = sut(|| T::<E, Rank<1>>::from(&src[..]));
            if let Some(t) = w.expect_ok(out, "from slice") {
                w.put(t, model(vec![n]));
            }
            sim().fault = 0;
            drop(src);
        }
        4 => {
            let out = sut(|| T::<E, Rank<2>>::from([[e(0), e(1), e(2)], [e(3), e(4), e(5)]]));
            if let Some(t) = w.expect_ok(out, "from nested") {
                w.put(t, model(vec![2, 3]));
            }
        }
        5 => {
            let out = sut(|| T::<E, (Const<2>, Const<3>)>::from([[e(0), e(1), e(2)], [e(3), e(4), e(5)]]));
            if let Some(t) = w.expect_ok(out, "from nested") {
                w.put(t, model(vec![2, 3]));
            }
        }
        6 => {
            let src = [[[E::make(mix2(seed, 0)), E::make(mix2(seed, 1))]], [[E::make(mix2(seed, 2)), E::make(mix2(seed, 3))]]];
            let out = sut(|| T::<E, Rank<3>>::from(&src));
            if let Some(t) = w.expect_ok(out, "from nested ref") {
                w.put(t, model(vec![2, 1, 2]));
            }
            sim().fault = 0;
            drop(src);
        }
        _ => {
            let out = sut(|| T::<E, Rank<2>>::from([const { [const { None::<E> }; 0] }; 3].map(|x: [Option<E>; 0]| x.map(|y| y.unwrap()))));
            if let Some(t) = w.expect_ok(out, "from empty nested") {
                w.put(t, model(vec![3, 0]));
            }
        }
    }
}

fn e_quiet<E: Elem>(seed: u64) -> impl Fn(usize) -> E {
    move |k| E::make(mix2(seed, k as u64))
}

/// What `expand` does to the dimensions, or None if it has to be rejected.
fn expanded<S: SimShape>(m: &Model, src: &Model) -> Option<Model> {
    if m.dims.is_empty() || !S::head_dyn() {
        return None;
    }
    if src.is_empty() {
        return Some(m.clone());
    }
    let mut el = m.el.clone();
    el.extend(src.el.iter().copied());
    if m.is_empty() {
        if !S::dims_ok(&src.dims) {
            return None;
        }
        return Some(Model { dims: src.dims.clone(), el });
    }
    if src.dims.len() != m.dims.len() || src.dims[1..] != m.dims[1..] {
        return None;
    }
    let mut dims = m.dims.clone();
    dims[0] += src.dims[0];
    Some(Model { dims, el })
}

fn op_append<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let Some(j) = w.pick_other(op.a[1], i, Some(S::SID)) else { return };
    let mut osl = w.slots[j].take().unwrap();
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let ok = !osl.m.dims.is_empty();
    let exp = if ok { expanded::<S>(&m, &osl.m) } else { None };
    let reject = exp.is_none();
    let o = osl.any.downcast_mut::<T<E, S>>().unwrap();
    let mut c = Call::new("append", exp);
    let t = w.slots[i].as_ref().unwrap().any.downcast_ref::<T<E, S>>().unwrap();
    c.keep = m.len() + osl.m.len() <= t.capacity() && (!m.is_empty() || S::DIMS.is_some());
    c.sources = vec![osl.m.clone()];
    let (optr, ocap) = (o.as_ptr() as usize, o.capacity());
    let oom_armed = matches!(sim().fault, F_OOM | F_OOM_ALL);
    mut_op::<E, S, ()>(w, i, c, |t, _| t.append(o));
    if !reject {
        if oom_armed && sim().fired {
            // The failing request may be one of the drain or one of the growing array.
            let mm = adopt::<E, S>(o, &[&osl.m], false, "append (other)");
            let mut emptied = osl.m.clone();
            emptied.dims[0] = 0;
            emptied.el.clear();
            if mm.dims != osl.m.dims && mm.dims != emptied.dims {
                sim().violate("dims-mismatch", format!("append (other) after allocation failure: {:?}", mm.dims));
            }
            osl.m = mm;
        } else {
            osl.m.dims[0] = 0;
            osl.m.el.clear();
        }
        if !E::ZST && (o.as_ptr() as usize, o.capacity()) != (optr, ocap) {
            sim().violate("buffer-moved", "append: the drained array lost its allocation".into());
        }
    }
    w.slots[j] = Some(osl);
}

fn op_expand<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let cap = w.slots[i].as_ref().unwrap().any.downcast_ref::<T<E, S>>().unwrap().capacity();
    let seed = op.a[5];
    // Dimensions for generated sources: mostly fitting.
    let mut gd = m.dims.clone();
    if gd.is_empty() || m.is_empty() || op.a[3] % 7 == 0 {
        gd = gen_dims(S::SID, &op.a[2..], w.max / 2);
    } else {
        gd[0] = (op.a[2] % 4) as usize;
    }
    let keep_for = |n: usize| m.len() + n <= cap && S::DIMS.is_some();
    match op.a[1] % 8 {
        0 | 1 => {
            // By reference, any shape.
            let same = op.a[1] % 8 == 1;
            let Some(j) = w.pick_other(op.a[2], i, same.then_some(S::SID)) else { return };
            let src = w.slots[j].as_ref().unwrap().m.cloned();
            let osl = w.slots[j].take().unwrap();
            let mut c = Call::new("expand(&array)", expanded::<S>(&m, &src));
            c.keep = same && keep_for(src.len());
            if same {
                let o = osl.any.downcast_ref::<T<E, S>>().unwrap();
                mut_op::<E, S, ()>(w, i, c, |t, _| t.expand(o));
            } else {
                let v = dyn_view::<E>(&osl);
                mut_op::<E, S, ()>(w, i, c, |t, _| t.expand(v));
            }
            w.slots[j] = Some(osl);
        }
        2 => {
            let Some(j) = w.pick_other(op.a[2], i, None) else { return };
            let (o, src) = take_dyn(w, j);
            let mut c = Call::new("expand(array)", expanded::<S>(&m, &src));
            c.sources = vec![src];
            mut_op::<E, S, ()>(w, i, c, |t, _| t.expand(o));
        }
        3 => {
            let Some(j) = w.pick_other(op.a[2], i, Some(S::SID)) else { return };
            let (o, src) = take_t::<E, S>(w, j);
            let mut c = Call::new("expand(array)", expanded::<S>(&m, &src));
            c.keep = keep_for(src.len());
            c.sources = vec![src];
            mut_op::<E, S, ()>(w, i, c, |t, _| t.expand(o));
        }
        4 => {
            // Part of another array is moved over.
            let Some(j) = w.pick_other(op.a[2], i, Some(S::SID)) else { return };
            let om = w.slots[j].as_ref().unwrap().m.clone();
            if om.dims.is_empty() || !S::head_dyn() {
                return;
            }
            let d0 = om.dims[0];
            let (mut s, mut e) = ((op.a[3] as usize) % (d0 + 1), (op.a[4] as usize) % (d0 + 1));
            if s > e {
                mem::swap(&mut s, &mut e);
            }
            let row = om.row();
            let mut dims = om.dims.clone();
            dims[0] = e - s;
            let src = Model { dims, el: om.el[s * row..e * row].to_vec() };
            let mut rest = om.clone();
            rest.dims[0] = d0 - (e - s);
            rest.el.drain(s * row..e * row);
            let mut osl = w.slots[j].take().unwrap();
            let o = osl.any.downcast_mut::<T<E, S>>().unwrap();
            let exp = expanded::<S>(&m, &src);
            let mut c = Call::new("expand(drain)", exp);
            c.keep = keep_for(src.len());
            c.sources = vec![om.clone()];
            // The drain is created by the caller: a rejected expansion still ends it.
            let oom = matches!(sim().fault, F_OOM | F_OOM_ALL);
            let fired0 = sim().fired;
            mut_op::<E, S, ()>(w, i, c, |t, _| t.expand(o.drain(s..e)));
            if oom && sim().fired && !fired0 {
                let mm = adopt::<E, S>(o, &[&om], false, "expand(drain) source");
                if mm.dims != om.dims && mm.dims != rest.dims {
                    sim().violate("dims-mismatch", format!("drained array after allocation failure: {:?}", mm.dims));
                }
                osl.m = mm;
            } else {
                osl.m = rest;
            }
            w.slots[j] = Some(osl);
        }
        5 | 6 => {
            let src = gen_model(seed, &gd);
            let g = generator::<E>(seed, gd.clone());
            let fits = S::rank_ok(gd.len()) && S::dims_ok(&gd);
            let mut c = Call::new("expand(from_fn)", expanded::<S>(&m, &src));
            if fits && op.a[1] % 8 == 5 {
                c.keep = keep_for(src.len());
                mut_op::<E, S, ()>(w, i, c, |t, _| t.expand(expr::from_fn(S::from_dims(&gd), g)));
            } else {
                mut_op::<E, S, ()>(w, i, c, |t, _| {
                    let _ = expr::from_fn(&gd[..], g).eval_into(t);
                });
            }
        }
        _ => {
            let src = Model::from_fn(&gd, |_| new(seed));
            let c = Call::new("expand(from_elem)", expanded::<S>(&m, &src));
            mut_op::<E, S, ()>(w, i, c, |t, _| t.expand(expr::from_elem(&gd[..], mk::<E>(K::Make, 0, seed))));
        }
    }
}

/// Consumes a by-value iterator: some single steps, then an ending.
fn consume<E: Elem, I: ExactSizeIterator<Item = E>>(mut it: I, total: usize, n: usize, ending: u64, got: &mut Vec<E>) {
    let mut yielded = 0;
    let push = |got: &mut Vec<E>, x: E| {
        let _p = heap::Pause::new();
        got.push(x);
    };
    let mut want = n;
    if ending % 6 == 5 {
        want = n + 2; // also past the end
    }
    for _ in 0..want {
        if it.len() != total - yielded {
            sim().violate("iter-len", format!("{} elements reported after {yielded} of {total}", it.len()));
        }
        point(K::Closure, 11, || ());
        match it.next() {
            Some(x) => {
                yielded += 1;
                push(got, x);
            }
            None => {
                if yielded != total {
                    sim().violate("iter-end", format!("iteration ended after {yielded} of {total}"));
                }
            }
        }
        if yielded > total {
            sim().violate("iter-end", format!("iteration yielded more than {total} elements"));
            return;
        }
    }
    match ending % 6 {
        0 => match ending / 6 % 4 {
            0 => drop(it),
            1 => {
                let k = (ending / 24 % 5) as usize;
                let x = it.nth(k);
                let left = it.len();
                if left != (total - yielded).saturating_sub(k + 1) || x.is_some() != (k < total - yielded) {
                    sim().violate("iter-len", format!("{left} elements reported after nth({k}) at {yielded} of {total}"));
                }
                drop(x);
                drop(it);
            }
            2 => {
                let k = it.count();
                if k + yielded != total {
                    sim().violate("iter-end", format!("count {k} after {yielded} of {total}"));
                }
            }
            // The default method leaks an element itself if a destructor panics (rust-lang/rust#47949).
            3 if sim().fault != 0 => drop(it),
            _ => {
                let x = it.last();
                if x.is_some() != (yielded < total) {
                    sim().violate("iter-end", format!("wrong last element after {yielded} of {total}"));
                }
                drop(x);
            }
        },
        5 => drop(it),
        1 => mem::forget(it),
        2 => {
            let k = it.fold(0usize, |k, x| {
                push(got, x);
                point(K::Closure, 12, || k + 1)
            });
            if k + yielded != total {
                sim().violate("iter-end", format!("fold yielded {k} after {yielded} of {total}"));
            }
        }
        3 => it.for_each(|x| {
            // Consumer that destroys what it gets.
            push(got, x);
            point(K::Closure, 13, || ());
        }),
        _ => {
            let v: Vec<E> = it.collect();
            let _p = heap::Pause::new();
            for x in v {
                push(got, x);
            }
        }
    }
}

fn check_got<E: Elem>(got: &[E], exp: &[Ent], what: &str) {
    if got.len() > exp.len() {
        sim().violate("prefix", format!("{what}: {} elements obtained of {}", got.len(), exp.len()));
        return;
    }
    if E::ZST {
        return;
    }
    for (k, (g, e)) in got.iter().zip(exp).enumerate() {
        match unsafe { E::peek(g) } {
            Ok((id, _)) if id == e.id => {}
            Ok(_) => sim().violate("prefix", format!("{what}: element {k} obtained is not the {k}-th of the range")),
            Err(x) => sim().violate(x, format!("{what}: element {k} obtained is not alive")),
        }
    }
}

/// Destroys elements held by the harness, without faults.
fn discard<E>(v: Vec<E>) {
    sim().fault = 0;
    drop(v);
}

fn op_drain<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let d0 = m.dims.first().copied().unwrap_or(0);
    let (mut s, mut e) = ((op.a[2] as usize) % (d0 + 1), (op.a[3] as usize) % (d0 + 1));
    let mut bad = m.dims.is_empty() || !S::head_dyn();
    let kind = op.a[1] % 16;
    if s > e && kind != 9 {
        mem::swap(&mut s, &mut e);
    }
    match kind {
        0 => (s, e) = (0, d0),
        1 => e = d0,
        2 => s = 0,
        8 => {
            e = d0 + 1 + (op.a[3] as usize) % 3;
        }
        10 => (s, e) = (d0 + 1, d0 + 1),
        _ => {}
    }
    bad |= s > e || e > d0;
    if kind == 13 && op.a[4] % 4 == 0 {
        // Ends that cannot be met at all.
        let c = Call::new("drain (invalid)", None);
        mut_op::<E, S, ()>(w, i, c, |t, _| match op.a[5] % 4 {
            0 => drop(t.drain(s..=usize::MAX)),
            1 => drop(t.drain((Bound::Excluded(usize::MAX), Bound::Unbounded))),
            2 => drop(t.drain(..=d0)),
            _ => drop(t.drain((Bound::Excluded(d0), Bound::Unbounded))),
        });
        return;
    }
    if bad {
        let c = Call::new("drain (invalid)", None);
        mut_op::<E, S, ()>(w, i, c, |t, _| drop(t.drain(s..e)));
        return;
    }
    let row = m.row();
    let range: Vec<Ent> = m.el[s * row..e * row].to_vec();
    let mut rest = m.clone();
    rest.dims[0] = d0 - (e - s);
    rest.el.drain(s * row..e * row);
    let mut before = m.clone();
    before.dims[0] = s;
    before.el.truncate(s * row);
    let total = range.len();
    let n = (op.a[4] as usize) % (total + 1);
    let ending = op.a[5];
    if kind == 11 {
        // Into a new array.
        let mut c = Call::new("from_expr(drain)", Some(rest.clone()));
        c.on_panic = Some(rest);
        let mut dims = m.dims.clone();
        dims[0] = e - s;
        let r = mut_op::<E, S, T<E, S>>(w, i, c, |t, _| <T<E, S> as FromExpression<E, S>>::from_expr(t.drain(s..e)));
        if let Some(t) = r {
            w.put(t, Model { dims, el: range });
        }
        return;
    }
    if kind == 12 {
        // Zipped with a generator that may panic.
        let mut c = Call::new("drain zipped", Some(rest.clone()));
        c.on_panic = Some(rest);
        let mut k = 0u64;
        let seed = op.a[5];
        let mut got = vec![];
        mut_op::<E, S, ()>(w, i, c, |t, _| {
            let z = t.drain(s..e).zip(expr::fill_with(|| {
                k += 1;
                mk::<E>(K::Closure, k, seed)
            }));
            z.for_each(|(x, y)| {
                let _p = heap::Pause::new();
                got.push(x);
                drop(y);
            })
        });
        check_got(&got, &range, "drain zipped");
        discard(got);
        return;
    }
    let forget = ending % 6 == 1;
    let mut c = Call::new(if forget { "drain, leaked" } else { "drain" }, Some(if forget { before } else { rest.clone() }));
    c.on_panic = Some(rest.clone());
    c.keep = !matches!(ending % 6, 4) || total == n;
    if ending % 6 == 4 {
        c.keep = false;
    }
    let mut got = vec![];
    let blocks = heap::live_blocks();
    let done = mut_op::<E, S, ()>(w, i, c, |t, _| match kind {
        0 => consume(t.drain(..).into_iter(), total, n, ending, &mut got),
        1 => consume(t.drain(s..).into_iter(), total, n, ending, &mut got),
        2 => consume(t.drain(..e).into_iter(), total, n, ending, &mut got),
        3 if e > s => consume(t.drain(s..=e - 1).into_iter(), total, n, ending, &mut got),
        4 if s > 0 => consume(t.drain((Bound::Excluded(s - 1), Bound::Excluded(e))).into_iter(), total, n, ending, &mut got),
        _ => consume(t.drain(s..e).into_iter(), total, n, ending, &mut got),
    });
    if done.is_some() && n < total {
        w.cancelled += 1;
    }
    check_got(&got, &range, "drain");
    if done.is_some() && forget {
        w.forgotten += 1;
        let tail = m.len() - e * row;
        w.leaked += (total - got.len() + tail) as i64;
        if S::DIMS.is_none() {
            w.block_slack += heap::live_blocks().saturating_sub(blocks);
        }
    }
    discard(got);
}

fn op_truncate<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let d0 = m.dims.first().copied().unwrap_or(0);
    let n = (op.a[1] as usize) % (d0 + 3);
    let exp = if m.dims.is_empty() || !S::head_dyn() {
        None
    } else {
        let mut r = m.clone();
        if n < d0 {
            r.dims[0] = n;
            r.el.truncate(n * m.row());
        }
        Some(r)
    };
    let mut c = Call::new("truncate", exp);
    c.keep = true;
    mut_op::<E, S, ()>(w, i, c, |t, _| t.truncate(n));
}

fn op_clear<E: Elem, S: SimShape>(w: &mut W<E>, i: usize) {
    let dims = S::default_dims();
    let exp = if product(&dims) == 0 { Some(Model { dims, el: vec![] }) } else { None };
    let mut c = Call::new("clear", exp);
    c.keep = true;
    mut_op::<E, S, ()>(w, i, c, |t, _| t.clear());
}

fn op_resize<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let cap = w.slots[i].as_ref().unwrap().any.downcast_ref::<T<E, S>>().unwrap().capacity();
    let mut nd = gen_dims(S::SID, &op.a[2..], w.max);
    if S::DIMS.is_none() {
        nd.resize(m.dims.len(), 2);
    }
    match op.a[1] % 16 {
        // First dimension only.
        0..=5 => {
            let k = nd.first().copied();
            nd.clone_from(&m.dims);
            if let (Some(k), Some(x)) = (k, nd.first_mut()) {
                if S::head_dyn() {
                    *x = if op.a[1] % 16 < 3 { *x + k % 4 } else { k };
                }
            }
        }
        // One dimension only.
        6..=8 if !nd.is_empty() => {
            let k = (op.a[3] as usize) % nd.len();
            let x = nd[k];
            nd.clone_from(&m.dims);
            nd[k] = x;
        }
        13 => nd.push(1),
        14 => {
            nd.pop();
        }
        15 => nd.iter_mut().for_each(|x| *x += 1),
        _ => {}
    }
    while product(&nd) > w.max * 4 {
        nd.iter_mut().for_each(|x| *x = (*x).min(3).max(1).min(*x));
        if product(&nd) > w.max * 4 {
            return;
        }
    }
    let ok = nd.len() == m.dims.len() && S::dims_ok(&nd);
    let seed = op.a[5];
    let exp = ok.then(|| {
        let el = m.resized(&nd).into_iter().map(|x| x.unwrap_or(new(seed))).collect();
        Model { dims: nd.clone(), el }
    });
    let mut c = Call::new("resize", exp);
    c.keep = nd.is_empty() || product(&nd) == 0 || (ok && nd[1..] == m.dims[1..] && product(&nd) <= cap);
    if op.a[4] % 2 == 0 {
        mut_op::<E, S, ()>(w, i, c, |t, _| t.resize(&nd, mk::<E>(K::Make, 0, seed)));
    } else {
        mut_op::<E, S, ()>(w, i, c, |t, _| t.resize_with(&nd, || mk::<E>(K::Closure, 1, seed)));
    }
}

fn op_reserve<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let (cap, ptr) = {
        let t = w.slots[i].as_ref().unwrap().any.downcast_ref::<T<E, S>>().unwrap();
        (t.capacity(), t.as_ptr() as usize)
    };
    let huge = op.a[2] % 9 == 0 && mem::size_of::<E>() > 0;
    let n = if huge { usize::MAX / 2 - (op.a[3] as usize) } else { (op.a[3] % if op.a[4] % 9 == 0 { 400 } else { 40 }) as usize };
    let v = op.a[1] % 4;
    let mut c = Call::new(["reserve", "reserve_exact", "try_reserve", "try_reserve_exact"][v as usize], Some(m.clone()));
    c.keep = !huge && m.len() + n <= cap;
    c.on_oom = Some(m.clone());
    if huge && v < 2 {
        c.exp = None;
    }
    let r = mut_op::<E, S, Result<(), std::collections::TryReserveError>>(w, i, c, |t, _| match v {
        0 => {
            t.reserve(n);
            Ok(())
        }
        1 => {
            t.reserve_exact(n);
            Ok(())
        }
        2 => t.try_reserve(n),
        _ => t.try_reserve_exact(n),
    });
    let t = w.slots[i].as_ref().unwrap().any.downcast_ref::<T<E, S>>().unwrap();
    match r {
        Some(Ok(())) => {
            if huge {
                sim().violate("accepted-invalid", format!("reservation of {n} elements was accepted"));
            } else if t.capacity() - m.len() < n {
                sim().violate("capacity", format!("reserved {n}, but capacity is {} for {}", t.capacity(), m.len()));
            }
        }
        Some(Err(_)) => {
            w.memory_faults += 1;
            if !huge && !matches!(sim().armed, F_OOM | F_OOM_ALL) {
                sim().violate("unexpected-error", format!("reservation of {n} elements failed with memory available"));
            }
            if t.capacity() != cap || t.as_ptr() as usize != ptr {
                sim().violate("content-mismatch", "failed reservation changed the capacity".into());
            }
        }
        None => {
            if v >= 2 {
                sim().violate("panic-not-error", format!("fallible reservation of {n} elements did not return an error"));
            }
        }
    }
}

fn op_shrink<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let cap = w.slots[i].as_ref().unwrap().any.downcast_ref::<T<E, S>>().unwrap().capacity();
    let n = (op.a[2] as usize) % (cap.min(64) + 2);
    let mut c = Call::new("shrink", Some(m.clone()));
    c.on_oom = Some(m.clone());
    mut_op::<E, S, ()>(w, i, c, |t, _| if op.a[1] % 2 == 0 { t.shrink_to_fit() } else { t.shrink_to(n) });
    let t = w.slots[i].as_ref().unwrap().any.downcast_ref::<T<E, S>>().unwrap();
    if t.capacity() > cap {
        sim().violate("capacity", "shrinking grew the array".into());
    }
}

fn op_clone_from<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let Some(j) = w.pick_other(op.a[1], i, Some(S::SID)) else { return };
    let cap = w.slots[i].as_ref().unwrap().any.downcast_ref::<T<E, S>>().unwrap().capacity();
    let osl = w.slots[j].take().unwrap();
    let o = osl.any.downcast_ref::<T<E, S>>().unwrap();
    let mut c = Call::new("clone_from", Some(osl.m.cloned()));
    c.keep = osl.m.len() <= cap;
    if op.a[2] % 3 == 0 {
        mut_op::<E, S, ()>(w, i, c, |t, _| Owned::clone_from_slice(t, o));
    } else {
        mut_op::<E, S, ()>(w, i, c, |t, _| t.clone_from(o));
    }
    w.slots[j] = Some(osl);
}

fn op_assign<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let seed = op.a[5];
    let assigned = |vals: Option<Vec<u64>>| vals.map(|v| Model { dims: m.dims.clone(), el: v.into_iter().map(new).collect() });
    match op.a[1] % 6 {
        0 => {
            let Some(j) = w.pick_other(op.a[2], i, None) else { return };
            let osl = w.slots[j].take().unwrap();
            let mut c = Call::new("assign(&array)", assigned(broadcast(&m.dims, &osl.m)));
            c.mutates = true;
            let v = dyn_view::<E>(&osl);
            mut_op::<E, S, ()>(w, i, c, |t, _| t.assign(v));
            w.slots[j] = Some(osl);
        }
        1 => {
            let Some(j) = w.pick_other(op.a[2], i, Some(S::SID)) else { return };
            let osl = w.slots[j].take().unwrap();
            let o = osl.any.downcast_ref::<T<E, S>>().unwrap();
            let mut c = Call::new("assign(&array)", assigned(broadcast(&m.dims, &osl.m)));
            c.keep = true;
            mut_op::<E, S, ()>(w, i, c, |t, _| t.assign(o));
            w.slots[j] = Some(osl);
        }
        2 => {
            // By value: not repeatable, so no broadcasting.
            let Some(j) = w.pick_other(op.a[2], i, None) else { return };
            let (o, om) = take_dyn(w, j);
            let exp = if om.dims == m.dims { Some(Model { dims: m.dims.clone(), el: om.el.clone() }) } else { None };
            let mut c = Call::new("assign(array)", exp);
            c.sources = vec![om];
            mut_op::<E, S, ()>(w, i, c, |t, _| t.assign(o));
        }
        3 => {
            let mut c = Call::new("assign(from_fn)", Some(gen_model(seed, &m.dims)));
            c.keep = true;
            let g = generator::<E>(seed, m.dims.clone());
            let d = m.dims.clone();
            mut_op::<E, S, ()>(w, i, c, |t, _| t.assign(expr::from_fn(S::from_dims(&d), g)));
        }
        4 => {
            let mut c = Call::new("fill", Some(Model::from_fn(&m.dims, |_| new(seed))));
            c.keep = true;
            mut_op::<E, S, ()>(w, i, c, |t, _| t.fill(mk::<E>(K::Make, 0, seed)));
        }
        _ => {
            let mut c = Call::new("fill_with", Some(Model::from_fn(&m.dims, |_| new(seed))));
            c.keep = true;
            mut_op::<E, S, ()>(w, i, c, |t, _| t.fill_with(|| mk::<E>(K::Closure, 2, seed)));
        }
    }
}

fn op_op_assign<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let seed = op.a[5];
    let k = op.a[3] % 5;
    let code = [0u8, 1, 4, 9, 6][k as usize] + 16;
    let res = |vals: Option<Vec<u64>>| {
        vals.map(|v| Model { dims: m.dims.clone(), el: m.el.iter().zip(v).map(|(a, b)| Ent { id: a.id, val: opval(code, a.val, b) }).collect() })
    };
    macro_rules! apply {
        ($t:expr, $x:expr) => {
            match k {
                0 => *$t += $x,
                1 => *$t -= $x,
                2 => *$t %= $x,
                3 => *$t >>= $x,
                _ => *$t |= $x,
            }
        };
    }
    match op.a[1] % 4 {
        0 => {
            let Some(j) = w.pick_other(op.a[2], i, None) else { return };
            let osl = w.slots[j].take().unwrap();
            let mut c = Call::new("op_assign(&array)", res(broadcast(&m.dims, &osl.m)));
            c.mutates = true;
            let v = dyn_view::<E>(&osl);
            mut_op::<E, S, ()>(w, i, c, |t, _| apply!(t, v));
            w.slots[j] = Some(osl);
        }
        1 => {
            let Some(j) = w.pick_other(op.a[2], i, Some(S::SID)) else { return };
            let (o, om) = take_t::<E, S>(w, j);
            let exp = if om.dims == m.dims { res(broadcast(&m.dims, &om)) } else { None };
            let mut c = Call::new("op_assign(array)", exp);
            c.mutates = true;
            c.keep = true;
            mut_op::<E, S, ()>(w, i, c, |t, _| apply!(t, o));
        }
        2 => {
            let mut c = Call::new("op_assign(fill)", res(Some(vec![seed; m.len()])));
            c.mutates = true;
            c.keep = true;
            mut_op::<E, S, ()>(w, i, c, |t, _| apply!(t, expr::fill(mk::<E>(K::Make, 0, seed))));
        }
        _ => {
            let g = generator::<E>(seed, m.dims.clone());
            let d = m.dims.clone();
            let mut c = Call::new("op_assign(from_fn)", res(Some(gen_model(seed, &d).el.iter().map(|e| e.val).collect())));
            c.mutates = true;
            c.keep = true;
            mut_op::<E, S, ()>(w, i, c, |t, _| apply!(t, expr::from_fn(S::from_dims(&d), g)));
        }
    }
}

/// Runs an operation that consumes the array in slot `i` and gives another one.
#[allow(clippy::too_many_arguments)]
fn val_op<E: Elem, S: SimShape, R: SimShape>(w: &mut W<E>, i: usize, what: &str, exp: Option<Model>, keep: bool, f: impl FnOnce(T<E, S>) -> T<E, R>) {
    let (t, _) = take_t::<E, S>(w, i);
    let (ptr, cap) = (t.as_ptr() as usize, t.capacity());
    w.needs_memory(!(keep && exp.is_some() && S::DIMS.is_some() && R::DIMS.is_some()));
    let blackout = sim().fault == F_BLACKOUT;
    let out = sut(|| f(t));
    sim().log(8, out.name().len() as u64);
    sim().note(|| format!("  {what} -> {}{}", out.name(), if let Out::Panic(m) = &out { format!(" ({m})") } else { String::new() }));
    match exp {
        None => {
            if let Some(t) = w.check_rejected(out, what) {
                mem::forget(t);
            }
        }
        Some(m) => {
            if let Some(t) = w.expect_ok(out, what) {
                if keep {
                    w.kept += 1;
                    if blackout {
                        w.blackout_ok += 1;
                    }
                    if !E::ZST && cap > 0 && (t.as_ptr() as usize != ptr || t.capacity() != cap) {
                        sim().violate("buffer-moved", format!("{what}: capacity {cap} became {}, or the buffer moved", t.capacity()));
                    }
                }
                w.put_at(i, t, m);
            }
        }
    }
}

fn op_roundtrip<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let d = m.dims.clone();
    match op.a[1] % 4 {
        0 => val_op::<E, S, S>(w, i, "into_vec, from, into_shape", Some(m), true, |t| {
            let v = t.into_vec();
            T::<E, Rank<1>>::from(v).into_shape(S::from_dims(&d))
        }),
        1 => val_op::<E, S, S>(w, i, "into_raw_parts, from_raw_parts", Some(m), true, |t| {
            let (p, map, cap) = t.into_raw_parts();
            unsafe { T::<E, S>::from_raw_parts(p, map, cap) }
        }),
        2 => val_op::<E, S, S>(w, i, "into_expr, from_expr", Some(m), false, |t| <T<E, S> as FromExpression<E, S>>::from_expr(t)),
        _ => {
            let n = m.len();
            val_op::<E, S, Rank<1>>(w, i, "into_vec, from", Some(Model { dims: vec![n], el: m.el }), true, |t| {
                if op.a[2] % 2 == 0 { T::from(t.into_vec()) } else { T::from(Vec::from(t.into_flat())) }
            })
        }
    }
}

fn op_convert<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    fn map<E: Elem, S: SimShape, R: SimShape>(w: &mut W<E>, i: usize, m: Model) {
        let exp = R::dims_ok(&m.dims).then(|| m.clone());
        val_op::<E, S, R>(w, i, "into_mapping", exp, true, |t| t.into_mapping::<R>());
    }
    fn reshape<E: Elem, S: SimShape, R: SimShape>(w: &mut W<E>, i: usize, m: Model, op: &Op, f: impl FnOnce(T<E, S>, &[usize]) -> T<E, R>) {
        let n = m.len();
        // A shape that mostly fits: distribute the length.
        let pat = R::DIMS.map(|d| d.to_vec()).unwrap_or(vec![None; (op.a[3] % 5) as usize]);
        let mut left = n;
        let mut dims: Vec<usize> = vec![];
        for (k, c) in pat.iter().enumerate() {
            let x = c.unwrap_or_else(|| {
                if pat[k + 1..].iter().all(|c| c.is_some()) {
                    left.checked_div(product(&pat[k + 1..].iter().map(|c| c.unwrap()).collect::<Vec<_>>())).unwrap_or(0)
                } else {
                    *[1, 2, 3, 1].get((op.a[4] as usize + k) % 4).unwrap()
                }
            });
            if x > 0 && left % x == 0 {
                left /= x;
            }
            dims.push(x);
        }
        let mut arg = dims.clone();
        let dynpos: Vec<usize> = pat.iter().enumerate().filter(|x| x.1.is_none()).map(|x| x.0).collect();
        let mut exp_dims = Some(dims.clone());
        if op.a[2] % 3 == 0 && !dynpos.is_empty() {
            // One dimension is inferred.
            let k = dynpos[(op.a[4] as usize) % dynpos.len()];
            arg[k] = usize::MAX;
            let others: usize = dims.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).product();
            exp_dims = if others == 0 || n % others != 0 {
                None
            } else {
                let mut d = dims.clone();
                d[k] = n / others;
                Some(d)
            };
        } else if product(&dims) != n {
            exp_dims = None;
        }
        let exp = exp_dims.map(|dims| Model { dims, el: m.el.clone() });
        val_op::<E, S, R>(w, i, "into_shape", exp, true, |t| f(t, &arg));
    }
    fn by_shape<E: Elem, S: SimShape, R: SimShape>(t: T<E, S>, d: &[usize]) -> T<E, R> {
        t.into_shape(R::from_dims(d))
    }
    // A list of dimensions in any of its forms.
    let by_list = |t: T<E, S>, d: &[usize]| match op.a[5] % 4 {
        0 => t.into_shape(d),
        1 => t.into_shape(d.to_vec()),
        2 => t.into_shape(Box::<[usize]>::from(d)),
        _ => by_shape::<E, S, DynRank>(t, d),
    };
    let by_len = |t: T<E, S>, d: &[usize]| if op.a[5] % 2 == 0 { t.into_shape(d[0]) } else { t.into_shape([d[0]]) };
    if const { !E::FULL } {
        match op.a[1] % 8 {
            0 => val_op::<E, S, DynRank>(w, i, "into_dyn", Some(m), true, |t| t.into_dyn()),
            1 => map::<E, S, Rank<1>>(w, i, m),
            2 => map::<E, S, Rank<2>>(w, i, m),
            3 | 4 => reshape::<E, S, Rank<1>>(w, i, m, op, by_len),
            5 => reshape::<E, S, Rank<2>>(w, i, m, op, |t, d| t.into_shape([d[0], d[1]])),
            6 => reshape::<E, S, DynRank>(w, i, m, op, by_list),
            _ => map::<E, S, DynRank>(w, i, m),
        }
        return;
    }
    match op.a[1] % 16 {
        0 | 1 => val_op::<E, S, DynRank>(w, i, "into_dyn", Some(m), true, |t| t.into_dyn()),
        2 => {
            let n = m.len();
            val_op::<E, S, Rank<1>>(w, i, "into_flat", Some(Model { dims: vec![n], el: m.el }), true, |t| t.into_flat())
        }
        3 => map::<E, S, Rank<1>>(w, i, m),
        4 => map::<E, S, Rank<2>>(w, i, m),
        5 => map::<E, S, Rank<3>>(w, i, m),
        6 => map::<E, S, (Dyn, Const<3>)>(w, i, m),
        7 => map::<E, S, (Const<2>, Const<3>)>(w, i, m),
        8 => map::<E, S, DynRank>(w, i, m),
        9 => reshape::<E, S, Rank<1>>(w, i, m, op, by_len),
        10 => reshape::<E, S, Rank<2>>(w, i, m, op, |t, d| t.into_shape([d[0], d[1]])),
        11 => reshape::<E, S, Rank<3>>(w, i, m, op, by_shape::<E, S, Rank<3>>),
        12 => reshape::<E, S, (Dyn, Const<3>)>(w, i, m, op, by_shape::<E, S, (Dyn, Const<3>)>),
        13 => reshape::<E, S, (Const<2>, Const<3>)>(w, i, m, op, by_shape::<E, S, (Const<2>, Const<3>)>),
        14 => reshape::<E, S, DynRank>(w, i, m, op, by_list),
        // Back to the fitting static rank.
        _ => match m.dims.len() {
            1 => map::<E, S, Rank<1>>(w, i, m),
            2 => map::<E, S, Rank<2>>(w, i, m),
            3 => map::<E, S, Rank<3>>(w, i, m),
            _ => map::<E, S, DynRank>(w, i, m),
        },
    }
}

fn transform<E: Elem>(tag: u64, mut x: E) -> E {
    let v = mix2(x.val(), 0x3a9);
    if tag % 2 == 0 {
        // In place.
        point(K::Closure, v, || x.set(v));
        x
    } else {
        let y = mk(K::Closure, v, v);
        drop(x);
        y
    }
}

fn op_map<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let f = |g: &dyn Fn(u64) -> u64| Some(Model { dims: m.dims.clone(), el: m.el.iter().map(|e| new(g(e.val))).collect() });
    match op.a[1] % 5 {
        0 | 1 => val_op::<E, S, S>(w, i, "map", f(&|v| mix2(v, 0x3a9)), true, |t| t.map(|x| transform(op.a[2], x))),
        2 => val_op::<E, S, S>(w, i, "apply", f(&|v| mix2(v, 0x3a9)), true, |t| t.apply(|x| transform(op.a[2], x))),
        3 => val_op::<E, S, S>(w, i, "neg", f(&|v| unval(0, v)), true, |t| -t),
        _ => val_op::<E, S, S>(w, i, "not", f(&|v| unval(1, v)), true, |t| !t),
    }
}

fn op_binop<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op)
where
    for<'a> &'a E: std::ops::Add<E, Output = E>
        + std::ops::Add<&'a E, Output = E>
        + std::ops::Sub<E, Output = E>
        + std::ops::Mul<E, Output = E>
        + std::ops::Shl<E, Output = E>
        + std::ops::BitXor<E, Output = E>
        + std::ops::Not<Output = E>,
{
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let seed = op.a[5];
    let k = op.a[3] % 5;
    let code = [0u8, 1, 2, 8, 7][k as usize];
    macro_rules! apply {
        ($t:expr, $x:expr) => {
            match k {
                0 => $t + $x,
                1 => $t - $x,
                2 => $t * $x,
                3 => $t << $x,
                _ => $t ^ $x,
            }
        };
    }
    let res = |vals: Option<Vec<u64>>| vals.map(|v| Model { dims: m.dims.clone(), el: m.el.iter().zip(v).map(|(a, b)| new(opval(code, a.val, b))).collect() });
    match op.a[1] % 6 {
        0 => {
            let Some(j) = w.pick_other(op.a[2], i, None) else { return };
            let osl = w.slots[j].take().unwrap();
            let v = dyn_view::<E>(&osl);
            val_op::<E, S, S>(w, i, "array op &array", res(broadcast(&m.dims, &osl.m)), false, |t| apply!(t, v));
            w.slots[j] = Some(osl);
        }
        1 => {
            let Some(j) = w.pick_other(op.a[2], i, Some(S::SID)) else { return };
            let (o, om) = take_t::<E, S>(w, j);
            let exp = if om.dims == m.dims { res(broadcast(&m.dims, &om)) } else { None };
            val_op::<E, S, S>(w, i, "array op array", exp, true, |t| apply!(t, o));
        }
        2 => val_op::<E, S, S>(w, i, "array op fill", res(Some(vec![seed; m.len()])), true, |t| apply!(t, expr::fill(mk::<E>(K::Make, 0, seed)))),
        3 => {
            let d = m.dims.clone();
            let g = generator::<E>(seed, d.clone());
            val_op::<E, S, S>(w, i, "array op from_fn", res(Some(gen_model(seed, &d).el.iter().map(|e| e.val).collect())), true, |t| {
                apply!(t, expr::from_fn(S::from_dims(&d), g))
            });
        }
        4 => {
            // The other way round: a view operated with an owned array gives the owned array.
            let Some(j) = w.pick_other(op.a[2], i, Some(S::SID)) else { return };
            let osl = w.slots[j].take().unwrap();
            let o = osl.any.downcast_ref::<T<E, S>>().unwrap();
            let exp = broadcast(&m.dims, &osl.m).map(|v| Model {
                dims: m.dims.clone(),
                el: m.el.iter().zip(v).map(|(a, b)| new(opval(code, b, a.val))).collect(),
            });
            val_op::<E, S, S>(w, i, "&array op array", exp, true, |t| apply!(o, t));
            w.slots[j] = Some(osl);
        }
        _ => {
            let mut n = 0u64;
            let vals = (0..m.len() as u64).map(|x| mix2(seed, x)).collect::<Vec<_>>();
            let exp = Some(Model { dims: m.dims.clone(), el: m.el.iter().zip(&vals).map(|(a, b)| new(opval(3, a.val, *b))).collect() });
            val_op::<E, S, S>(w, i, "zip_with", exp, true, |t| {
                Apply::zip_with(
                    t,
                    expr::fill_with(|| {
                        n += 1;
                        mk::<E>(K::Closure, n, mix2(seed, n - 1))
                    }),
                    |(x, y): (E, E)| {
                        let v = opval(3, x.val(), y.val());
                        let r = mk::<E>(K::Closure, v, v);
                        drop((x, y));
                        r
                    },
                )
            });
        }
    }
}

fn op_into_iter<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let (t, m) = take_t::<E, S>(w, i);
    let total = m.len();
    let n = (op.a[2] as usize) % (total + 1);
    let ending = op.a[3];
    w.needs_memory(S::DIMS.is_none() || ending % 6 == 4);
    let mut got = vec![];
    // Blocks of the array itself; a dynamic rank adds one for the dimensions.
    let held = (t.capacity() > 0 && !E::ZST) as usize + S::DIMS.is_none() as usize;
    let blocks = heap::live_blocks();
    let out = sut(|| consume(t.into_iter(), total, n, ending, &mut got));
    sim().log(9, out.name().len() as u64);
    sim().note(|| format!("  into_iter {n} of {total}, ending {} -> {}", ending % 6, out.name()));
    let done = w.expect_ok(out, "into_iter");
    check_got(&got, &m.el, "into_iter");
    if n < total {
        w.cancelled += 1;
    }
    if done.is_some() && ending % 6 == 1 {
        w.forgotten += 1;
        w.leaked += (total - got.len()) as i64;
        // A forgotten iteration keeps its buffer, and the dimensions if the rank is dynamic.
        w.block_slack += (heap::live_blocks() + held).saturating_sub(blocks);
    }
    discard(got);
}

fn op_into_scalar<E: Elem, S: SimShape>(w: &mut W<E>, i: usize) {
    let (t, m) = take_t::<E, S>(w, i);
    w.needs_memory(false);
    let out = sut(|| t.into_scalar());
    let r = if m.len() == 1 { w.expect_ok(out, "into_scalar") } else { w.check_rejected(out, "into_scalar") };
    if let Some(x) = r {
        if m.len() == 1 {
            check_got(std::slice::from_ref(&x), &m.el, "into_scalar");
        }
        discard(vec![x]);
    }
}

fn op_iter_mut<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let n = m.len();
    let seed = op.a[5];
    match op.a[1] % 3 {
        0 => {
            // Swap neighbours, stopping early.
            let k = (op.a[2] as usize) % (n / 2 + 1);
            let mut r = m.clone();
            for x in 0..k {
                r.el.swap(2 * x, 2 * x + 1);
            }
            let mut c = Call::new("iter_mut", Some(r));
            c.keep = true;
            mut_op::<E, S, ()>(w, i, c, |t, _| {
                let mut it = t.iter_mut();
                for _ in 0..k {
                    let (a, b) = (it.next().unwrap(), it.next().unwrap());
                    mem::swap(a, b);
                }
            });
        }
        1 => {
            if n == 0 {
                let c = Call::new("index_mut (invalid)", None);
                mut_op::<E, S, ()>(w, i, c, |t, _| t[0] = E::make(1));
                return;
            }
            if op.a[3] % 8 == 0 {
                let c = Call::new("index_mut (invalid)", None);
                mut_op::<E, S, ()>(w, i, c, |t, _| {
                    let r = &mut t[n];
                    r.set(5)
                });
                return;
            }
            let k = (op.a[2] as usize) % n;
            let mut r = m.clone();
            r.el[k] = new(seed);
            let mut c = Call::new("index_mut", Some(r));
            c.keep = true;
            mut_op::<E, S, ()>(w, i, c, |t, _| t[k] = mk(K::Make, 0, seed));
        }
        _ => {
            let r = Model { dims: m.dims.clone(), el: m.el.iter().map(|e| Ent { id: e.id, val: mix2(e.val, 5) }).collect() };
            let mut c = Call::new("expr_mut().for_each", Some(r));
            c.keep = true;
            c.mutates = true;
            mut_op::<E, S, ()>(w, i, c, |t, _| {
                t.expr_mut().for_each(|x| {
                    let v = mix2(x.val(), 5);
                    point(K::Closure, v, || x.set(v))
                })
            });
        }
    }
}

fn op_spare<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    if m.dims.is_empty() || !S::head_dyn() {
        return;
    }
    let cap = w.slots[i].as_ref().unwrap().any.downcast_ref::<T<E, S>>().unwrap().capacity();
    let row = m.row();
    let rows = if row == 0 { 0 } else { ((cap - m.len()) / row).min((op.a[1] % 4) as usize) };
    let seed = op.a[5];
    let mut r = m.clone();
    r.dims[0] += rows;
    r.el.extend((0..rows * row).map(|_| new(seed)));
    let mut c = Call::new("spare_capacity_mut, set_mapping", Some(r.clone()));
    c.keep = true;
    // Elements written but not yet part of the array are the caller's to clean up.
    if sim().fault != F_BLACKOUT {
        heap::disarm();
        sim().fault = 0;
    }
    mut_op::<E, S, ()>(w, i, c, |t, _| {
        let len = t.len();
        let sp = t.spare_capacity_mut();
        if sp.len() != cap - len {
            sim().violate("capacity", format!("spare capacity {} of {cap} with {len} elements", sp.len()));
        }
        for x in sp.iter_mut().take(rows * row) {
            x.write(mk(K::Make, 0, seed));
        }
        unsafe { t.set_mapping(DenseMapping::new(S::from_dims(&r.dims))) };
    });
}

fn op_extend<E: Elem>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let cap = w.slots[i].as_ref().unwrap().any.downcast_ref::<T<E, Rank<1>>>().unwrap().capacity();
    let it = sim_iter::<E>(op.a[1], op.a[2], op.a[5]);
    let mut r = m.clone();
    r.dims[0] += it.n;
    r.el.extend((0..it.n).map(|k| new(mix2(op.a[5], k as u64))));
    let mut c = Call::new("extend", Some(r));
    c.keep = m.len() + it.n.max(it.lo) <= cap;
    mut_op::<E, Rank<1>, ()>(w, i, c, |t, _| t.extend(it));
}

fn op_compare<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let v = op.a[1] % 4;
    let sl = w.slots[i].take().unwrap();
    let t = sl.any.downcast_ref::<T<E, S>>().unwrap();
    w.needs_memory(true);
    match v {
        0 | 1 => {
            let j = w.pick_other(op.a[2], usize::MAX, (v == 0).then_some(S::SID));
            let exp = match j {
                None => true,
                Some(j) => {
                    let o = &w.slots[j].as_ref().unwrap().m;
                    o.dims == sl.m.dims && (E::ZST || o.el.iter().zip(&sl.m.el).all(|(a, b)| a.val == b.val))
                }
            };
            let out = match j {
                None => sut(|| t == t),
                Some(j) => {
                    let osl = w.slots[j].as_ref().unwrap();
                    if v == 0 {
                        let o = osl.any.downcast_ref::<T<E, S>>().unwrap();
                        sut(|| t == o)
                    } else {
                        let o = dyn_view::<E>(osl);
                        let p = sl.m.dims.len() > 1 && op.a[3] % 2 == 0;
                        if p {
                            // Both as strided views.
                            let a = t.remap::<DynRank, mdarray::Strided>();
                            let b = o.remap::<DynRank, mdarray::Strided>();
                            sut(|| a == b)
                        } else {
                            sut(|| *t == o)
                        }
                    }
                }
            };
            if let Some(r) = w.expect_ok(out, "eq") {
                if r != exp {
                    sim().violate("eq-result", format!("comparison gave {r}, expected {exp}"));
                }
            }
        }
        2 => {
            let k = if sl.m.is_empty() { 0 } else { sl.m.el[(op.a[2] as usize) % sl.m.len()].val };
            let val = if op.a[3] % 2 == 0 { k } else { op.a[5] };
            let x = E::make(val);
            let exp = if E::ZST { !sl.m.is_empty() } else { sl.m.el.iter().any(|e| e.val == val) };
            let out = sut(|| t.contains(&x));
            discard(vec![x]);
            if let Some(r) = w.expect_ok(out, "contains") {
                if r != exp {
                    sim().violate("eq-result", format!("contains gave {r}, expected {exp}"));
                }
            }
        }
        _ => {
            let out = sut(|| format!("{t:?}").len());
            w.expect_ok(out, "debug");
        }
    }
    w.slots[i] = Some(sl);
}

/// Inline arrays: created, operated on and gone within one operation.
fn op_array<E: Elem>(w: &mut W<E>, op: &Op)
where
    for<'a> &'a E: std::ops::Add<E, Output = E>
        + std::ops::Add<&'a E, Output = E>
        + std::ops::Sub<E, Output = E>
        + std::ops::Mul<E, Output = E>
        + std::ops::Shl<E, Output = E>
        + std::ops::BitXor<E, Output = E>
        + std::ops::Not<Output = E>,
{
    type A<E> = Array<E, (Const<2>, Const<3>)>;
    type B<E> = Array<E, (Const<3>,)>;
    type Z<E> = Array<E, (Const<2>, Const<0>)>;
    type B2<E> = Array<E, (Const<2>,)>;
    let seed = op.a[5];
    let v = op.a[1] % 25;
    let quiet = || -> A<E> {
        Array(std::array::from_fn(|i| std::array::from_fn(|j| E::make(idx_val(seed, &[i, j])))))
    };
    let quiet_b = || -> B<E> { Array(std::array::from_fn(|j| E::make(mix2(seed, j as u64)))) };
    let base = gen_model(seed, &[2, 3]);
    let vals: Vec<u64> = base.el.iter().map(|e| e.val).collect();
    let ids = |a: &A<E>| -> Vec<Ent> { a.0.iter().flatten().map(|x| Ent { id: x.id(), val: x.val() }).collect() };
    // Result of an operation as a flat list.
    let check = |p: *const E, n: usize, exp: &[u64], what: &str| {
        if n != exp.len() {
            sim().violate("dims-mismatch", format!("{what}: {n} elements, expected {}", exp.len()));
            return;
        }
        for k in 0..n {
            match unsafe { E::peek(p.add(k)) } {
                Ok((_, x)) if E::ZST || x == exp[k] => {}
                Ok(_) => sim().violate("content-mismatch", format!("{what}: element {k} has the wrong value")),
                Err(e) => sim().violate(e, format!("{what}: element {k}")),
            }
        }
    };
    let needs = matches!(v, 13 | 14 | 16);
    w.needs_memory(needs);
    let blackout = sim().fault == F_BLACKOUT;
    macro_rules! go {
        ($what:expr, $exp:expr, $f:expr) => {{
            let out = sut($f);
            sim().log(10, out.name().len() as u64);
            sim().note(|| format!("  array {} -> {}", $what, out.name()));
            if let Some(r) = w.expect_ok(out, $what) {
                if blackout {
                    w.blackout_ok += 1;
                }
                check(r.as_ptr(), r.len(), $exp, $what);
                sim().fault = 0;
                drop(r);
            }
        }};
    }
    let map1 = |f: &dyn Fn(u64) -> u64| vals.iter().map(|&x| f(x)).collect::<Vec<_>>();
    match v {
        0 => {
            let g = generator::<E>(seed, vec![2, 3]);
            go!("Array::from_fn", &vals, || A::<E>::from_fn(g));
        }
        1 => go!("Array::from_elem", &vec![seed; 6], || A::<E>::from_elem(mk(K::Make, 0, seed))),
        2 => {
            let a = quiet();
            go!("Array::map", &map1(&|x| mix2(x, 0x3a9)), || a.map(|x| transform(op.a[2], x)));
        }
        3 => {
            let a = quiet();
            go!("-Array", &map1(&|x| unval(0, x)), || -a);
        }
        4 => {
            let (a, b) = (quiet(), quiet());
            go!("Array + Array", &map1(&|x| opval(0, x, x)), || a + b);
        }
        5 => {
            let (a, b) = (quiet(), quiet_b());
            let e: Vec<u64> = vals.iter().enumerate().map(|(k, &x)| opval(1, x, mix2(seed, (k % 3) as u64))).collect();
            go!("Array - &row", &e, || a - &b);
            sim().fault = 0;
            drop(b);
        }
        6 => {
            let a = quiet();
            go!("Array * fill", &map1(&|x| opval(2, x, 9)), || a * expr::fill(mk::<E>(K::Make, 0, 9)));
        }
        7 => {
            let a = quiet();
            let m = ids(&a);
            let n = (op.a[2] as usize) % 7;
            let mut got = vec![];
            let ending = if op.a[3] % 6 == 4 { 2 } else { op.a[3] };
            let out = sut(|| consume(a.into_iter(), 6, n, ending, &mut got));
            let done = w.expect_ok(out, "Array::into_iter");
            check_got(&got, &m, "Array::into_iter");
            if done.is_some() && ending % 6 == 1 {
                w.forgotten += 1;
                w.leaked += (6 - got.len()) as i64;
            }
            w.cancelled += 1;
            discard(got);
        }
        8 => {
            let a = quiet();
            go!("Array::clone", &vals, || a.clone());
            sim().fault = 0;
            drop(a);
        }
        9 => {
            let mut a = quiet();
            let b = quiet_b();
            let e: Vec<u64> = (0..6).map(|k| mix2(seed, k % 3)).collect();
            let out = sut(|| a.assign(&b));
            if w.expect_ok(out, "Array::assign").is_some() {
                check(a.as_ptr(), a.len(), &e, "Array::assign");
            } else {
                for k in 0..6 {
                    if let Err(x) = unsafe { E::peek(a.as_ptr().add(k)) } {
                        sim().violate(x, format!("Array::assign interrupted: element {k}"));
                    }
                }
            }
            sim().fault = 0;
            drop((a, b));
        }
        10 => {
            let mut a = quiet();
            let out = sut(|| a += expr::fill(mk::<E>(K::Make, 0, 9)));
            if w.expect_ok(out, "Array += fill").is_some() {
                check(a.as_ptr(), a.len(), &map1(&|x| opval(16, x, 9)), "Array += fill");
            }
            sim().fault = 0;
            drop(a);
        }
        11 => {
            let a = quiet();
            go!("Array::into_shape", &vals, || a.into_shape::<(Const<3>, Const<2>)>());
        }
        12 => {
            let a: Array<E, (Const<1>, Const<1>)> = Array([[E::make(7)]]);
            let out = sut(|| a.into_scalar());
            if let Some(x) = w.expect_ok(out, "Array::into_scalar") {
                check(&x, 1, &[7], "Array::into_scalar");
                discard(vec![x]);
            }
        }
        13 => {
            // Inline to heap.
            let a = quiet();
            let out = sut(|| Tensor::<E, (Const<2>, Const<3>)>::from(a));
            if let Some(t) = w.expect_ok(out, "Tensor::from(Array)") {
                w.put(t, base.clone());
            }
        }
        14 => {
            // Heap to inline, from whatever fitting array there is.
            if let Some(i) = w.pick_other(op.a[2], usize::MAX, Some(11)) {
                let (t, m) = take_t::<E, (Const<2>, Const<3>)>(w, i);
                let e: Vec<u64> = m.el.iter().map(|e| e.val).collect();
                go!("Array::from(Tensor)", &e, || A::<E>::from(t));
            }
        }
        15 => {
            let a = quiet();
            let b = quiet();
            go!("Array::zip_with", &map1(&|x| opval(3, x, x)), || {
                Apply::zip_with(a, &b, |(x, y): (E, &E)| {
                    let v = opval(3, x.val(), y.val());
                    let r = mk::<E>(K::Closure, v, v);
                    drop(x);
                    r
                })
            });
            sim().fault = 0;
            drop(b);
        }
        16 => {
            let a = quiet();
            let g = generator::<E>(seed + 1, vec![2, 3]);
            go!("&Array - from_fn, evaluated", &vals.iter().enumerate().map(|(k, &x)| opval(1, x, idx_val(seed + 1, &[k / 3, k % 3]))).collect::<Vec<_>>(), || {
                (&a - expr::from_fn([2, 3], g)).eval()
            });
            sim().fault = 0;
            drop(a);
        }
        17 => {
            let g = generator::<E>(seed, vec![2, 0]);
            go!("empty Array", &[], || Z::<E>::from_fn(g));
        }
        18 => {
            let a = quiet();
            let out = sut(|| a.into_shape::<(Const<5>,)>());
            if let Some(r) = w.check_rejected(out, "Array::into_shape (invalid)") {
                mem::forget(r);
            }
        }
        19 => {
            let a = quiet();
            let k = (op.a[2] % 3) as usize;
            match op.a[3] % 4 {
                0 => go!("Array::to_array", &vals, || a.to_array()),
                1 => go!("Array::to_owned", &vals, || ToOwned::to_owned(&*a)),
                2 => go!("column to_array", &[vals[k], vals[k + 3]], || a.col(k).to_array()),
                _ => go!("Array::from(&view)", &[vals[k], vals[k + 3]], || B2::<E>::from(a.view(.., k))),
            }
            sim().fault = 0;
            drop(a);
        }
        20 => {
            let a = quiet();
            let (i, k) = ((op.a[2] % 2) as usize, (op.a[2] % 3) as usize);
            match op.a[3] % 3 {
                0 => go!("Array::array(.., k)", &[vals[k], vals[k + 3]], || a.array(.., k)),
                1 => go!("Array::array(i, ..)", &vals[3 * i..3 * i + 3], || a.array(i, ..)),
                _ => go!("reordered to_array", &(0..6).map(|j| vals[j % 2 * 3 + j / 2]).collect::<Vec<_>>(), || a.reorder().to_array()),
            }
            sim().fault = 0;
            drop(a);
        }
        21 => {
            // Nested arrays and back.
            let a = quiet();
            let m = ids(&a);
            let out = sut(|| <[[E; 3]; 2]>::from(a));
            if let Some(n) = w.expect_ok(out, "nested from Array") {
                if op.a[2] % 2 == 0 {
                    go!("Array::from(&nested)", &vals, || A::<E>::from(&n));
                    sim().fault = 0;
                    drop(n);
                } else {
                    let out = sut(|| A::<E>::from(n));
                    if let Some(a) = w.expect_ok(out, "Array from nested") {
                        if !E::ZST && ids(&a) != m {
                            sim().violate("identity-mismatch", "nested array and back: other elements".into());
                        }
                        sim().fault = 0;
                        drop(a);
                    }
                }
            }
        }
        22 => {
            // References to the same elements.
            let mut a = quiet();
            let p = a.as_ptr();
            let out = sut(|| {
                let n: &[[E; 3]; 2] = (*a).as_ref();
                let x = n.as_ptr() as *const E;
                let b: &A<E> = n.as_ref();
                let y = b.as_ptr();
                let n: &mut [[E; 3]; 2] = (*a).as_mut();
                let b: &mut A<E> = n.as_mut();
                (x, y, b.as_ptr())
            });
            if let Some(q) = w.expect_ok(out, "references") {
                if q != (p, p, p) {
                    sim().violate("content-mismatch", "a reference conversion refers to something else".into());
                }
            }
            sim().fault = 0;
            drop(a);
        }
        23 => {
            let mut a = quiet();
            let b: A<E> = Array(std::array::from_fn(|i| std::array::from_fn(|j| E::make(idx_val(seed + 3, &[i, j])))));
            let out = sut(|| (*b).clone_into(&mut a));
            let e = gen_model(seed + 3, &[2, 3]).el.iter().map(|e| e.val).collect::<Vec<_>>();
            if w.expect_ok(out, "Array::clone_into").is_some() {
                check(a.as_ptr(), a.len(), &e, "Array::clone_into");
            }
            sim().fault = 0;
            drop((a, b));
        }
        _ => {
            let a = quiet();
            let b = quiet();
            // By value on both sides, one lower rank by reference.
            let e: Vec<u64> = vals.iter().map(|&x| opval(0, x, unval(1, x))).collect();
            go!("Array + (!&Array)", &e, || a + (!&b));
            sim().fault = 0;
            drop(b);
        }
    }
}

fn op_strided<E: Elem>(w: &mut W<E>, i: usize, op: &Op) {
    let sl = w.slots[i].take().unwrap();
    w.needs_memory(true);
    let m = &sl.m;
    let v = dyn_view::<E>(&sl);
    let rank = m.dims.len();
    let mut perm: Vec<usize> = (0..rank).collect();
    let mut r = Rng::new(op.a[2]);
    for k in (1..rank).rev() {
        perm.swap(k, r.below(k as u64 + 1) as usize);
    }
    let pd: Vec<usize> = perm.iter().map(|&k| m.dims[k]).collect();
    let mut exp = Model::from_fn(&pd, |i| {
        let mut o = vec![0; rank];
        for (k, &p) in perm.iter().enumerate() {
            o[p] = i[k];
        }
        new(m.el[m.flat(&o)].val)
    });
    let out = match op.a[1] % 3 {
        0 => sut(|| v.permute(&perm[..]).to_tensor()),
        1 => sut(|| Tensor::from(v.permute(&perm[..]))),
        _ => sut(|| {
            let mut t = Tensor::<E, DynRank>::new();
            let _ = v.permute(&perm[..]).cloned().eval_into(&mut t);
            t
        }),
    };
    if op.a[1] % 3 == 2 && exp.is_empty() {
        exp = Model { dims: vec![0], el: vec![] };
    }
    let mut exp2 = exp.clone();
    if op.a[1] % 3 == 2 && rank == 0 {
        // Growing an array of dynamic rank by a scalar expression.
        exp2 = Model { dims: vec![], el: exp.el.clone() };
    }
    w.slots[i] = Some(sl);
    if let Some(t) = w.expect_ok(out, "copy of a permuted view") {
        w.put(t, exp2);
    }
}

fn op_drop<E: Elem, S: SimShape>(w: &mut W<E>, i: usize) {
    let (t, _) = take_t::<E, S>(w, i);
    w.needs_memory(false);
    let out = sut(|| drop(t));
    w.expect_ok(out, "drop");
}

fn op_take<E: Elem, S: SimShape>(w: &mut W<E>, i: usize) {
    let dims = S::default_dims();
    if product(&dims) != 0 {
        return;
    }
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let c = Call::new("mem::take", Some(Model { dims, el: vec![] }));
    let r = mut_op::<E, S, T<E, S>>(w, i, c, |t, _| mem::take(t));
    if let Some(t) = r {
        w.put(t, m);
    }
}

/// Formatting and cloning a by-value iterator at any point must not touch what was moved out.
fn in_use<E: Elem, I: ExactSizeIterator + Clone + std::fmt::Debug>(w: &mut W<E>, mut it: I, m: &Model, op: &Op, f: impl Fn(I::Item) -> E) {
    let n = (op.a[2] as usize) % (m.len() + 2);
    let mut got = vec![];
    let out = sut(|| {
        for _ in 0..n {
            if let Some(x) = it.next() {
                let x = f(x);
                let _p = heap::Pause::new();
                got.push(x);
            }
        }
    });
    w.expect_ok(out, "by-value iterator");
    check_got(&got, &m.el, "by-value iterator");
    let done = got.len();
    let fresh = n == 0 || m.len() == 0;
    discard(got);
    heap::disarm();
    sim().armed = 0;
    if op.a[3] % 2 == 0 {
        let mut len = 0;
        let out = sut(|| len = format!("{it:?}").len());
        match out {
            Out::Panic(_) if !fresh => w.rejected += 1,
            out => {
                w.expect_ok(out, "formatting a by-value iterator");
            }
        }
    } else {
        let out = sut(|| it.clone());
        match out {
            Out::Panic(_) if !fresh => w.rejected += 1,
            Out::Ok(mut c) => {
                for (k, e) in m.el[done..].iter().enumerate() {
                    match c.next() {
                        Some(x) => {
                            let x = f(x);
                            if !E::ZST && x.val() != e.val {
                                sim().violate("content-mismatch", format!("clone of a by-value iterator: wrong element {k}"));
                            }
                        }
                        None => sim().violate("iter-end", format!("clone of a by-value iterator ended after {k} of {}", m.len() - done)),
                    }
                }
                if c.next().is_some() {
                    sim().violate("iter-end", "clone of a by-value iterator has too many elements".into());
                }
            }
            out => {
                w.expect_ok(out, "clone of a by-value iterator");
            }
        }
    }
    let out = sut(|| drop(it));
    w.expect_ok(out, "by-value iterator dropped");
}

fn op_into_expr<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let (t, m) = take_t::<E, S>(w, i);
    let v = op.a[1] % 7;
    w.needs_memory(S::DIMS.is_none() || v != 3);
    match v {
        5 => {
            let it = t.into_iter();
            in_use(w, it, &m, op, |x| x);
        }
        6 => {
            let mut d = m.dims.clone();
            d.reverse();
            let u = Tensor::<u64, DynRank>::from_fn(&d[..], |_| 1);
            let it = expr::zip(t, u.reorder()).into_iter();
            in_use(w, it, &m, op, |(x, _)| x);
        }
        0 => {
            let mut cl = None;
            let mut orig = None;
            let mut in_clone = false;
            let out = sut(|| {
                let e = t.into_expr();
                in_clone = true;
                let c = e.clone();
                in_clone = false;
                cl = Some(<T<E, S> as FromExpression<E, S>>::from_expr(c));
                orig = Some(<T<E, S> as FromExpression<E, S>>::from_expr(e));
            });
            if in_clone && matches!(out, Out::Injected | Out::Oom) {
                w.key = "into_expr_clone_panic".into();
            }
            w.expect_ok(out, "IntoExpr::clone");
            if let Some(t) = cl {
                w.put(t, m.cloned());
            }
            if let Some(t) = orig {
                w.put(t, m);
            }
        }
        1 => {
            let Some(j) = w.pick_other(op.a[2], i, Some(S::SID)) else {
                w.put(t, m);
                return;
            };
            let (o, om) = take_t::<E, S>(w, j);
            let mut a = None;
            let mut b = None;
            let mut in_clone = false;
            let out = sut(|| {
                let mut e = t.into_expr();
                let f = o.into_expr();
                in_clone = true;
                e.clone_from(&f);
                in_clone = false;
                a = Some(<T<E, S> as FromExpression<E, S>>::from_expr(e));
                b = Some(<T<E, S> as FromExpression<E, S>>::from_expr(f));
            });
            if in_clone && matches!(out, Out::Injected | Out::Oom) {
                w.key = "into_expr_clone_panic".into();
            }
            w.expect_ok(out, "IntoExpr::clone_from");
            if let Some(t) = a {
                w.put(t, om.cloned());
            }
            if let Some(t) = b {
                w.put(t, om);
            }
        }
        2 => {
            let out = sut(|| {
                let mut e = t.into_expr();
                let n = e.as_ref().len();
                let _ = format!("{e:?}");
                e.as_mut().iter_mut().for_each(|x| point(K::Closure, 4, || x.set(4)));
                drop(e);
                n
            });
            if let Some(n) = w.expect_ok(out, "IntoExpr::as_ref") {
                if n != m.len() {
                    sim().violate("dims-mismatch", "by-value expression exposes the wrong length".into());
                }
            }
        }
        3 => {
            // Never evaluated.
            let out = sut(|| {
                let mut e = t.into_expr();
                if S::DIMS.is_none() && op.a[2] % 2 == 0 {
                    let _old = mem::take(&mut e);
                    if e.len() != 0 {
                        sim().violate("dims-mismatch", "default by-value expression is not empty".into());
                    }
                    drop(e);
                }
            });
            w.expect_ok(out, "IntoExpr dropped");
        }
        _ => {
            let seed = op.a[5];
            let mut got = vec![];
            let out = sut(|| {
                let e = t.into_expr().map(|x| transform(1, x)).zip(expr::fill(mk::<E>(K::Make, 0, seed)));
                e.for_each(|(x, y)| {
                    drop(y);
                    let _p = heap::Pause::new();
                    got.push(x);
                })
            });
            let ok = w.expect_ok(out, "IntoExpr mapped and zipped").is_some();
            if ok && got.len() != m.len() {
                sim().violate("iter-end", format!("{} of {} elements evaluated", got.len(), m.len()));
            }
            if !E::ZST {
                for (g, e) in got.iter().zip(&m.el) {
                    if g.val() != mix2(e.val, 0x3a9) {
                        sim().violate("content-mismatch", "mapped by-value expression gave a wrong value".into());
                        break;
                    }
                }
            }
            discard(got);
        }
    }
}

fn op_ref_op<E: Elem>(w: &mut W<E>, i: usize, op: &Op)
where
    for<'a> &'a E: std::ops::Add<E, Output = E>
        + std::ops::Add<&'a E, Output = E>
        + std::ops::Sub<E, Output = E>
        + std::ops::Mul<E, Output = E>
        + std::ops::Shl<E, Output = E>
        + std::ops::BitXor<E, Output = E>
        + std::ops::Not<Output = E>,
{
    w.needs_memory(true);
    let v = op.a[1] % 5;
    let j = w.pick_other(op.a[2], i, None);
    let sl = w.slots[i].take().unwrap();
    let m = sl.m.clone();
    let a = dyn_view::<E>(&sl);
    let (out, exp): (Out<Tensor<E, DynRank>>, Option<Model>) = match v {
        0 if j.is_some() => {
            let osl = w.slots[j.unwrap()].as_ref().unwrap();
            let b = dyn_view::<E>(osl);
            let om = &osl.m;
            let exp = if m.dims.len() >= om.dims.len() {
                broadcast(&m.dims, om).map(|v| Model { dims: m.dims.clone(), el: m.el.iter().zip(v).map(|(x, y)| new(opval(0, x.val, y))).collect() })
            } else {
                broadcast(&om.dims, &m).map(|v| Model { dims: om.dims.clone(), el: v.into_iter().zip(&om.el).map(|(x, y)| new(opval(0, x, y.val))).collect() })
            };
            (sut(|| (&a + b).eval()), exp)
        }
        1 if j.is_some() => {
            let (b, om) = take_dyn(w, j.unwrap());
            // `&a - b` with an owned right hand side is evaluated into its buffer.
            let exp = if om.dims.len() >= m.dims.len() {
                broadcast(&om.dims, &m).map(|v| Model { dims: om.dims.clone(), el: v.into_iter().zip(&om.el).map(|(x, y)| new(opval(1, x, y.val))).collect() })
            } else {
                None
            };
            (sut(|| &a - b), exp)
        }
        2 => {
            let exp = Some(Model { dims: m.dims.clone(), el: m.el.iter().map(|x| new(opval(2, 9, x.val))).collect() });
            (sut(|| (expr::fill(mk::<E>(K::Make, 0, 9)) * a.clone()).eval()), exp)
        }
        3 => {
            let exp = Some(Model { dims: m.dims.clone(), el: m.el.iter().map(|x| new(unval(1, x.val))).collect() });
            (sut(|| (!&a).eval()), exp)
        }
        _ => {
            let exp = Some(Model { dims: m.dims.clone(), el: m.el.iter().map(|x| new(mix2(opval(4, x.val, x.val), 0x3a9))).collect() });
            (sut(|| a.expr().zip(&a).map(|(x, y)| transform(1, mk::<E>(K::Closure, 1, opval(4, x.val(), y.val())))).eval()), exp)
        }
    };
    drop(a);
    w.slots[i] = Some(sl);
    sim().note(|| format!("  ref_op {v} -> {}", out.name()));
    match exp {
        Some(mm) => {
            if let Some(t) = w.expect_ok(out, "operator on views") {
                w.put(t, mm);
            }
        }
        None => {
            if let Some(t) = w.check_rejected(out, "operator on mismatching views") {
                mem::forget(t);
            }
        }
    }
}

/// View calls with invalid arguments.
fn op_invalid<E: Elem, S: SimShape>(w: &mut W<E>, i: usize, op: &Op) {
    let m = w.slots[i].as_ref().unwrap().m.clone();
    let rank = m.dims.len();
    let ax = (op.a[2] as usize) % (rank + 1);
    let size = m.dims.get(ax).copied().unwrap_or(0);
    let v = op.a[1] % 9;
    let bad_axis = ax >= rank;
    let c = Call::new("invalid view", None);
    let over = size + 1 + (op.a[3] % 3) as usize;
    match v {
        0 => {
            mut_op::<E, S, ()>(w, i, c, |t, _| {
                t.remap_mut::<DynRank, mdarray::Strided>().axis_at_mut(ax, if bad_axis { 0 } else { over - 1 }).fill_with(|| mk(K::Closure, 1, 1));
            });
        }
        1 => {
            mut_op::<E, S, ()>(w, i, c, |t, _| {
                let mut v = t.remap_mut::<DynRank, mdarray::Strided>();
                let (mut a, _) = v.split_axis_at_mut(ax, if bad_axis { 0 } else { over });
                a.fill_with(|| mk(K::Closure, 1, 1));
            });
        }
        2 => {
            // Not a permutation: wrong length or repeated dimension.
            let mut p: Vec<usize> = (0..rank).collect();
            if rank >= 2 && op.a[3] % 2 == 0 {
                p[0] = p[1];
            } else {
                p.push(rank);
            }
            mut_op::<E, S, ()>(w, i, c, |t, _| {
                t.remap_mut::<DynRank, mdarray::Strided>().permute_mut(&p[..]).fill_with(|| mk(K::Closure, 1, 1));
            });
        }
        3 => {
            let d = [m.len() + 1, 1 + (op.a[3] % 3) as usize];
            if d[0] * d[1] == m.len() {
                return;
            }
            mut_op::<E, S, ()>(w, i, c, |t, _| t.reshape_mut(d).fill_with(|| mk(K::Closure, 1, 1)));
        }
        4 => {
            if S::dims_ok(&m.dims) && rank == 2 && m.dims[1] == 3 {
                return;
            }
            mut_op::<E, S, ()>(w, i, c, |t, _| t.remap_mut::<(Dyn, Const<3>), Dense>().fill_with(|| mk(K::Closure, 1, 1)));
        }
        5 => {
            // Out-of-range range of elements.
            let n = m.len();
            mut_op::<E, S, ()>(w, i, c, |t, _| {
                let s: &mut [E] = &mut t[0..n + 1];
                s[0].set(3);
            });
        }
        6 => {
            if rank == 0 {
                return;
            }
            let mut idx: Vec<usize> = m.dims.iter().map(|_| 0).collect();
            idx[ax.min(rank - 1)] = m.dims[ax.min(rank - 1)];
            mut_op::<E, S, ()>(w, i, c, |t, _| {
                let r = &mut t[&idx[..]];
                r.set(3);
            });
        }
        7 => {
            let mut idx: Vec<usize> = m.dims.iter().map(|_| 0).collect();
            idx.push(0);
            mut_op::<E, S, ()>(w, i, c, |t, _| {
                let r = &mut t[&idx[..]];
                r.set(3);
            });
        }
        _ => {
            // Operand of the wrong shape.
            let mut d = m.dims.clone();
            if d.is_empty() {
                d.push(2);
            } else {
                let k = (op.a[3] as usize) % d.len();
                d[k] += 1;
            }
            let seed = op.a[5];
            mut_op::<E, S, ()>(w, i, c, |t, _| {
                if op.a[4] % 2 == 0 {
                    t.assign(expr::from_fn(&d[..], |_: &[usize]| mk::<E>(K::Closure, 1, seed)))
                } else {
                    *t += expr::from_fn(&d[..], |_: &[usize]| mk::<E>(K::Closure, 1, seed))
                }
            });
        }
    }
}

/// Conversion to nested arrays: gives the array back if the dimensions differ.
fn op_try_nested<E: Elem>(w: &mut W<E>, i: usize) {
    let sid = w.slots[i].as_ref().unwrap().sid;
    w.needs_memory(false);
    macro_rules! go {
        ($s:ty, $arr:ty, $d:expr) => {{
            let (t, m) = take_t::<E, $s>(w, i);
            let fits = m.dims == $d;
            let (p, cap) = (t.as_ptr() as usize, t.capacity());
            let out = sut(|| <$arr>::try_from(t));
            match w.expect_ok(out, "TryFrom for nested array") {
                Some(Ok(a)) => {
                    if !fits {
                        sim().violate("accepted-invalid", "conversion of mismatching dimensions".into());
                    }
                    let n = mem::size_of::<$arr>() / mem::size_of::<E>().max(1);
                    if !E::ZST {
                        let sl = unsafe { std::slice::from_raw_parts(&a as *const _ as *const E, n) };
                        if n != m.len() {
                            sim().violate("dims-mismatch", "wrong number of elements".into());
                        } else {
                            check_got(sl, &m.el, "nested array");
                        }
                    }
                    sim().fault = 0;
                    drop(a);
                }
                Some(Err(t)) => {
                    w.rejecting = true;
                    w.rejected += 1;
                    if fits {
                        sim().violate("unexpected-error", "conversion of matching dimensions refused".into());
                    }
                    if !E::ZST && cap > 0 && (t.as_ptr() as usize, t.capacity()) != (p, cap) {
                        sim().violate("buffer-moved", "array given back with another buffer".into());
                    }
                    w.slots[i] = Some(Slot { sid, any: Box::new(t), m });
                }
                None => {}
            }
        }};
    }
    match sid {
        1 => go!(Rank<1>, [E; 3], [3]),
        2 => go!(Rank<2>, [[E; 3]; 2], [2, 3]),
        3 => go!(Rank<3>, [[[E; 2]; 1]; 2], [2, 1, 2]),
        8 => go!((Dyn, Const<3>), [[E; 3]; 2], [2, 3]),
        11 => go!((Const<2>, Const<3>), [[E; 3]; 2], [2, 3]),
        12 => go!((Const<4>,), [E; 4], [4]),
        _ => {}
    }
}

fn step<E: Elem>(w: &mut W<E>, op: &Op)
where
    for<'a> &'a E: std::ops::Add<E, Output = E>
        + std::ops::Add<&'a E, Output = E>
        + std::ops::Sub<E, Output = E>
        + std::ops::Mul<E, Output = E>
        + std::ops::Shl<E, Output = E>
        + std::ops::BitXor<E, Output = E>
        + std::ops::Not<Output = E>,
{
    match op.code {
        NEW => {
            let sid = (op.a[0] % NSHAPES as u64) as u8;
            return by_shape!(sid, op_new, E, (w, op));
        }
        FROM_FN => {
            let sid = (op.a[0] % NSHAPES as u64) as u8;
            return by_shape!(sid, op_from_fn, E, (w, op));
        }
        FROM_LIST => return op_from_list(w, op),
        ARRAY => return op_array::<E>(w, op),
        LARGE => return large::history(&op.a),
        _ => {}
    }
    let Some(i) = w.pick(op.a[0]) else { return };
    let sid = w.slots[i].as_ref().unwrap().sid;
    match op.code {
        CLONE => by_shape!(sid, op_clone, E, (w, i, op)),
        APPEND => by_shape!(sid, op_append, E, (w, i, op)),
        EXPAND => by_shape!(sid, op_expand, E, (w, i, op)),
        DRAIN => by_shape!(sid, op_drain, E, (w, i, op)),
        TRUNCATE => by_shape!(sid, op_truncate, E, (w, i, op)),
        CLEAR => by_shape!(sid, op_clear, E, (w, i)),
        RESIZE => by_shape!(sid, op_resize, E, (w, i, op)),
        RESERVE => by_shape!(sid, op_reserve, E, (w, i, op)),
        SHRINK => by_shape!(sid, op_shrink, E, (w, i, op)),
        CLONE_FROM => by_shape!(sid, op_clone_from, E, (w, i, op)),
        ASSIGN => by_shape!(sid, op_assign, E, (w, i, op)),
        OP_ASSIGN => by_shape!(sid, op_op_assign, E, (w, i, op)),
        ROUNDTRIP => by_shape!(sid, op_roundtrip, E, (w, i, op)),
        CONVERT => by_shape!(sid, op_convert, E, (w, i, op)),
        MAP => by_shape!(sid, op_map, E, (w, i, op)),
        BINOP => by_shape!(sid, op_binop, E, (w, i, op)),
        INTO_ITER => by_shape!(sid, op_into_iter, E, (w, i, op)),
        INTO_SCALAR => by_shape!(sid, op_into_scalar, E, (w, i)),
        ITER_MUT => by_shape!(sid, op_iter_mut, E, (w, i, op)),
        SPARE => by_shape!(sid, op_spare, E, (w, i, op)),
        EXTEND if sid == 1 => op_extend(w, i, op),
        COMPARE => by_shape!(sid, op_compare, E, (w, i, op)),
        STRIDED => op_strided::<E>(w, i, op),
        DROP => by_shape!(sid, op_drop, E, (w, i)),
        TAKE => by_shape!(sid, op_take, E, (w, i)),
        INTO_EXPR => by_shape!(sid, op_into_expr, E, (w, i, op)),
        REF_OP => op_ref_op::<E>(w, i, op),
        INVALID => by_shape!(sid, op_invalid, E, (w, i, op)),
        TRY_NESTED => op_try_nested(w, i),
        _ => {}
    }
}

fn run_elem<E: Elem>(p: &Plan) -> RunOut
where
    for<'a> &'a E: std::ops::Add<E, Output = E>
        + std::ops::Add<&'a E, Output = E>
        + std::ops::Sub<E, Output = E>
        + std::ops::Mul<E, Output = E>
        + std::ops::Shl<E, Output = E>
        + std::ops::BitXor<E, Output = E>
        + std::ops::Not<Output = E>,
{
    sim().reset();
    sim().muted = match p.prop.as_str() {
        "C05" => &[],
        "C01" | "C02" | "C06" | "C11" => &["needs-memory", "buffer-moved", "capacity"],
        _ => &["needs-memory", "capacity"],
    };
    heap::reset_counts();
    let mut w: W<E> = W {
        slots: (0..4).map(|_| None).collect(),
        leaked: 0,
        block_slack: 0,
        max: [24, 24, 60, 200][(p.cfg(1) % 4) as usize],
        fired_any: false,
        rejected: 0,
        rejecting: false,
        memory_faults: 0,
        interrupted: 0,
        cancelled: 0,
        forgotten: 0,
        kept: 0,
        blackout_ok: 0,
        key: String::new(),
        e: std::marker::PhantomData,
    };
    let mut out = RunOut::default();
    for (k, op) in p.ops.iter().enumerate() {
        sim().note(|| format!("op {k} {} {:?} fault {:?}", op_name(op.code), op.a, op.fault));
        sim().log(1000 + op.code as u64, k as u64);
        sim().begin_op(op.fault);
        step::<E>(&mut w, op);
        let fired = sim().fired;
        sim().end_op();
        w.fired_any |= fired || sim().fired;
        if matches!(sim().armed, F_OOM | F_OOM_ALL | F_BLACKOUT) && sim().fired {
            w.memory_faults += 1;
        }
        out.counts.push((sim().cb, heap::requests()));
        out.op_index = k;
        out.steps += 1;
        if sim().viol.is_none() {
            w.audit(op_name(op.code));
        }
        if sim().viol.is_some() {
            break;
        }
        w.key.clear();
        sim().note(|| {
            let s: Vec<String> = w.slots.iter().flatten().map(|s| format!("{}:{:?}", s.sid, s.m.dims)).collect();
            format!("  arrays {}", s.join(" "))
        });
    }
    if sim().viol.is_none() {
        // The end: all arrays are destroyed, then nothing may be left.
        sim().begin_op(None);
        for s in w.slots.iter_mut() {
            let old = heap::set_mode(0);
            *s = None;
            heap::set_mode(old);
        }
        sim().end_op();
        let live = if E::ZST { sim().zst_live } else { sim().live };
        if E::DROPS && sim().viol.is_none() && live != w.leaked {
            sim().violate("elem-leak", format!("at the end: {live} elements alive, {} expected", w.leaked));
        }
        heap::flush();
        if let Some((c, d)) = heap::take_violation() {
            sim().violate(&c, format!("at the end: {d}"));
        }
        let blocks = heap::live_blocks();
        if sim().viol.is_none() && blocks > w.block_slack {
            sim().violate("block-leak", format!("{blocks} memory blocks were never freed"));
        }
        out.op_index = p.ops.len();
    } else {
        // Whatever is left may be corrupt.
        for s in w.slots.iter_mut() {
            mem::forget(s.take());
        }
    }
    let s = sim();
    out.viol = s.viol.take();
    if let Some(v) = &mut out.viol {
        // Attribution: what happened before anything the property is about belongs elsewhere.
        let code = p.ops.get(out.op_index).map_or(0, |o| o.code);
        let before = match p.prop.as_str() {
            "C02" => w.interrupted == 0,
            "C03" => w.cancelled == 0 && w.forgotten == 0 && !matches!(code, DRAIN | INTO_ITER | EXPAND | APPEND | ARRAY | INTO_EXPR),
            "C04" => w.memory_faults == 0 && !matches!(code, RESERVE | SHRINK),
            "C14" => !w.rejecting,
            _ => false,
        };
        if before {
            v.class = format!("early-{}", v.class);
        }
        out.key = if w.key.is_empty() { v.class.clone() } else { format!("{}:{}", v.class, w.key) };
    }
    out.hash = s.hash;
    out.nontrivial = match p.prop.as_str() {
        "C01" | "C02" | "C04" => w.interrupted > 0,
        "C03" => w.cancelled > 0 || w.forgotten > 0,
        "C05" => w.blackout_ok > 0,
        "C14" => w.rejected > 0,
        _ => p.ops.len() > 2,
    };
    out.probes = vec![
        ("interrupted_ops", w.interrupted),
        ("rejected_ops", w.rejected),
        ("cancelled_iterations", w.cancelled),
        ("leaked_iterations", w.forgotten),
        ("in_place_ops", w.kept),
        ("blackout_survived", w.blackout_ok),
    ];
    heap::flush();
    out
}

fn run(p: &Plan) -> RunOut {
    match p.cfg(0) % 8 {
        0..=3 => run_elem::<Tok>(p),
        4 => run_elem::<Fat>(p),
        5 => run_elem::<Plain>(p),
        _ => run_elem::<Zst>(p),
    }
}

// ---------------------------------------------------------------------------------------------
// Plans

const ALL: &[(u16, u64)] = &[
    (NEW, 3),
    (FROM_FN, 8),
    (CLONE, 5),
    (FROM_LIST, 4),
    (APPEND, 6),
    (EXPAND, 10),
    (DRAIN, 9),
    (TRUNCATE, 4),
    (CLEAR, 2),
    (RESIZE, 9),
    (RESERVE, 5),
    (SHRINK, 3),
    (CLONE_FROM, 5),
    (ASSIGN, 5),
    (OP_ASSIGN, 4),
    (ROUNDTRIP, 3),
    (CONVERT, 6),
    (MAP, 5),
    (BINOP, 5),
    (INTO_ITER, 4),
    (INTO_SCALAR, 1),
    (ITER_MUT, 3),
    (SPARE, 2),
    (EXTEND, 4),
    (COMPARE, 3),
    (ARRAY, 6),
    (STRIDED, 3),
    (DROP, 2),
    (TAKE, 2),
    (INTO_EXPR, 4),
    (REF_OP, 4),
    (INVALID, 3),
    (TRY_NESTED, 2),
];

fn boost(p: &str, c: u16) -> u64 {
    match (p, c) {
        ("C03", DRAIN) => 12,
        ("C03", INTO_ITER) => 8,
        ("C03", EXPAND | FROM_FN | RESERVE | TRUNCATE | EXTEND | APPEND | INTO_EXPR | ARRAY) => 2,
        ("C03", INVALID | COMPARE | STRIDED | REF_OP | OP_ASSIGN | ASSIGN) => 0,
        ("C14", INVALID) => 12,
        ("C14", APPEND | EXPAND | RESIZE | DRAIN | TRUNCATE | CLEAR | CONVERT | TRY_NESTED) => 2,
        ("C05", RESERVE) => 4,
        ("C05", APPEND | EXPAND | EXTEND | DRAIN | TRUNCATE | RESIZE | CLONE_FROM | SPARE) => 2,
        ("C05", INVALID | STRIDED | REF_OP | COMPARE) => 0,
        ("C02", INVALID) => 0,
        _ => 1,
    }
}

fn generate(prop: &str, r: &mut Rng) -> Plan {
    let mut p = Plan { cfg: vec![r.below(8), r.below(4)], ..Default::default() };
    // Each run uses a random subset of the operations.
    let drop_rate = r.below(4);
    let mut table: Vec<(u16, u64)> = ALL
        .iter()
        .filter(|x| matches!(x.0, FROM_FN | NEW) || !r.chance(drop_rate, 8))
        .map(|x| (x.0, x.1 * boost(prop, x.0)))
        .collect();
    if r.chance(1, 3) {
        // Few shapes, so that binary operations find partners.
        p.cfg.push(1);
    } else {
        p.cfg.push(0);
    }
    table.retain(|x| x.1 > 0);
    let sum: u64 = table.iter().map(|x| x.1).sum();
    let n = match r.below(4) {
        0 => 3 + r.below(4),
        1 => 4 + r.below(8),
        _ => 6 + r.below(18),
    };
    let fav: Vec<u64> = (0..2).map(|_| r.below(NSHAPES as u64)).collect();
    for k in 0..n {
        let code = if k == 0 || (k < 3 && r.chance(1, 2)) {
            FROM_FN
        } else {
            let mut x = r.below(sum);
            table.iter().find(|t| {
                if x < t.1 {
                    true
                } else {
                    x -= t.1;
                    false
                }
            }).unwrap().0
        };
        let mut o = plan::op(r, code);
        if matches!(code, FROM_FN | NEW) && !r.chance(1, 4) {
            o.a[0] = *r.pick(&fav);
        }
        o.a[5] = 1 + r.below(1 << 30);
        if matches!(code, DRAIN | INTO_ITER | ARRAY) {
            o.a[3] = r.below(1 << 20);
            o.a[4] = r.below(1 << 20);
        }
        if prop == "C04" && k > 0 && r.chance(1, 6) {
            // The same operation again, once memory is available.
            let prev: Op = p.ops[(k - 1) as usize].clone();
            o = prev;
        }
        p.ops.push(o);
    }
    if prop == "C11" && r.chance(1, 400) {
        let mut o = plan::op(r, LARGE);
        o.a = [r.below(8), r.below(1 << 30), r.below(3), 0, 0, 0];
        p.ops.push(o);
    }
    p
}

fn place(prop: &str, base: &Plan, counts: &[(u64, u64)], r: &mut Rng) -> Plan {
    let panics: &[u8] = &[F_PANIC, F_LATE];
    let ooms: &[u8] = &[F_OOM, F_OOM, F_OOM_ALL];
    let all: &[u8] = &[F_PANIC, F_LATE, F_OOM, F_OOM_ALL];
    let black: &[u8] = &[F_BLACKOUT];
    let any: &dyn Fn(&Op) -> bool = &|_| true;
    let calm: &dyn Fn(&Op) -> bool = &|o| o.code != INVALID && o.code != LARGE && (prop == "C01" || o.code != INTO_EXPR || o.a[1] % 7 > 1);
    match prop {
        "C01" | "C02" | "C03" => {
            let n = 1 + r.below(3);
            place_faults(base, counts, r, panics, n, calm)
        }
        "C04" => {
            let n = 1 + r.below(3);
            place_faults(base, counts, r, ooms, n, any)
        }
        "C05" => {
            let n = base.ops.len() as u64;
            place_faults(base, counts, r, black, n, any)
        }
        "C06" => {
            let n = 1 + r.below(4);
            place_faults(base, counts, r, all, n, calm)
        }
        _ => {
            // Histories that go on after interruptions.
            let n = r.below(3);
            place_faults(base, counts, r, all, n, calm)
        }
    }
}

fn relevant(prop: &str, v: &mdsim::sim::Viol) -> bool {
    let c = v.class.as_str();
    if c.starts_with("early-") {
        return false;
    }
    let memory = c.starts_with("heap-") || c == "block-leak" || c.starts_with("crash") || c == "hang";
    let element = c.starts_with("elem-");
    let in_place = matches!(c, "needs-memory" | "buffer-moved" | "capacity");
    match prop {
        "C01" => element || c.starts_with("crash") || c == "hang" || c == "prefix",
        "C02" => !in_place && !c.starts_with("heap-") && c != "block-leak" && c != "elem-leak",
        "C05" => in_place,
        "C06" => memory || c == "elem-garbage" || c == "elem-garbage-drop" || c == "elem-misaligned" || c == "absurd-request",
        "C11" => !in_place,
        _ => !matches!(c, "needs-memory" | "capacity"),
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" => "histories of 3-24 operations on up to 4 arrays (14 shape types, 4 element types, random operation subset), a run without faults fixes the callback counts, then variants with 1-3 user panics at chosen callbacks; non-trivial: at least one operation was interrupted",
        "C03" => "histories biased to drain and by-value iteration with a random cancellation point and ending (drop, nth, count, last, leak, fold, for_each, collect, past the end), with user panics; non-trivial: at least one iteration was cancelled or leaked",
        "C04" => "histories with 1-3 refused allocation requests (once or from then on) at chosen requests, interrupted operations partly repeated; non-trivial: at least one operation was interrupted",
        "C05" => "histories in which every operation runs under an allocation blackout if it fits in capacity or works in place; non-trivial: at least one operation succeeded under a blackout",
        "C14" => "histories biased to invalid arguments; non-trivial: at least one call was rejected",
        _ => "histories of 3-24 operations on up to 4 arrays (14 shape types, 4 element types, random operation subset), with and without user panics and allocation failures, some followed by 3-5 operations on an array of 66000 to 200000 elements; non-trivial: more than two operations",
    }
}

fn budget(prop: &str, thorough: bool) -> u64 {
    let _ = prop;
    if thorough { 40_000_000 } else { 160_000 }
}

static WORLD: World = World {
    name: "hist",
    props: &["C01", "C02", "C03", "C04", "C05", "C06", "C11", "C14"],
    op_name,
    generate,
    place: Some(place),
    run,
    budget,
    variants: |p| if p == "C11" || p == "C14" { 2 } else { 4 },
    relevant,
    rule,
    level: "exploration",
    real: &["mdarray (all of it, compiled from /repo, unmodified)", "alloc::vec::Vec"],
    stub: &["global allocator (simulated heap with guard zones, quarantine and refusals)", "element types, closures and input iterators of the user", "alloc error hook (unwinds)"],
};

fn main() {
    let _ = <() as Shape>::RANK;
    driver::main(&WORLD)
}
