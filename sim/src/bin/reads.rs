//! World "reads": arrays with different histories, read through chains of views: compared,
//! searched, hashed, indexed and copied, with user panics at chosen elements. The reference is the
//! list of positions a view selects and the values there.

use mdarray::{Array, Const, DynRank, Layout, Shape, Strided, Tensor, View, ViewMut};
use mdsim::arrs::*;
use mdsim::by_shape_all;
use mdsim::driver::{self, RunOut, World, place_faults};
use mdsim::elem::*;
use mdsim::heap;
use mdsim::model::*;
use mdsim::plan::{self, Plan};
use mdsim::rng::{Rng, mix2};
use mdsim::sim::*;
use std::hash::{Hash, Hasher};

#[path = "../views.rs"]
mod views;
#[path = "../large.rs"]
#[allow(dead_code)]
mod large;
use views::{Arena, Args, Pos, Sel, refs};

const NEW: u16 = 1;
const STEP: u16 = 2;
const RESET: u16 = 3;
const READ: u16 = 4;
const ARRAY: u16 = 5;
const DEEP: u16 = 6;
const NESTED: u16 = 7;
const LARGE: u16 = 8;

fn op_name(c: u16) -> &'static str {
    match c {
        NEW => "new",
        STEP => "view_step",
        RESET => "whole_array",
        READ => "read",
        ARRAY => "array",
        DEEP => "deep_view",
        NESTED => "nested",
        LARGE => "large_array",
        _ => "end",
    }
}

const NREADS: u64 = 30;

/// Feeds everything into one number, call by call.
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix2(self.0, *x as u64 + 1);
        }
    }
}

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = H(1);
    x.hash(&mut h);
    h.0
}

/// The other side of a comparison.
pub struct Ctx<E> {
    kind: u64,
    a: Args,
    p: Pos,
    vals: Vec<u64>,
    base: *const E,
    /// Another array, its dimensions and values.
    other: Tensor<E, DynRank>,
    odims: Vec<usize>,
    ovals: Vec<u64>,
    /// The same with reversed dimensions: a strided view of it is equal to `other`.
    rev: Tensor<E, DynRank>,
    probe: E,
    pval: u64,
    what: &'static str,
    done: bool,
}

pub trait Act<'a, E> {
    fn read(&mut self, c: &mut Ctx<E>);
}
pub trait ActMut<'a, E> {}
impl<'a, E, S: Shape, L: Layout> ActMut<'a, E> for ViewMut<'a, E, S, L> {}

fn same(a: &[u64], b: &[u64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y && *x != UNEQUAL)
}

fn verdict<E>(c: &mut Ctx<E>, what: &'static str, want: bool, f: impl FnOnce() -> bool) {
    c.what = what;
    c.done = true;
    let s = sim();
    let out = sut(f);
    s.note(|| format!("{what} on view {:?} against {:?}: {}", c.p.dims, c.odims, out.name()));
    match out {
        Out::Ok(x) => {
            if s.fired {
                s.violate("panic-swallowed", format!("{what}: a user panic did not reach the caller"));
            } else if x != want {
                s.violate("wrong-verdict", format!("{what}: {x} instead of {want} for dimensions {:?} and {:?}", c.p.dims, c.odims));
            }
        }
        Out::Panic(m) => s.violate("unexpected-panic", format!("{what} on dimensions {:?}: {m}", c.p.dims)),
        Out::Injected | Out::Oom => {}
    }
}

fn copied<E: Elem, R>(c: &mut Ctx<E>, what: &'static str, f: impl FnOnce() -> R, look: impl FnOnce(&R) -> (Vec<usize>, *const E)) {
    c.what = what;
    c.done = true;
    let s = sim();
    let out = sut(f);
    s.note(|| format!("{what} on view {:?}: {}", c.p.dims, out.name()));
    match out {
        Out::Ok(x) => {
            if s.fired {
                s.violate("panic-swallowed", format!("{what}: a user panic did not reach the caller"));
            }
            let (dims, p) = look(&x);
            let got: Vec<_> = (0..product(&dims)).map(|k| unsafe { E::peek(p.add(k)) }.map(|x| x.1)).collect();
            let want: Vec<_> = c.vals.iter().map(|&x| Ok(x)).collect();
            if dims != c.p.dims || got != want {
                s.violate("wrong-copy", format!("{what}: {dims:?} instead of {:?}, or other elements", c.p.dims));
            }
            let f = std::mem::replace(&mut s.fault, 0);
            drop(x);
            s.fault = f;
        }
        Out::Panic(m) => s.violate("unexpected-panic", format!("{what} on dimensions {:?}: {m}", c.p.dims)),
        Out::Injected | Out::Oom => {}
    }
}

impl<'a, E: Elem, S: Shape, L: Layout> Act<'a, E> for View<'a, E, S, L> {
    fn read(&mut self, c: &mut Ctx<E>) {
        let n = c.p.len();
        let rank = c.p.dims.len();
        let eq = c.p.dims == c.odims && same(&c.vals, &c.ovals);
        let me = unsafe { &*(self as *const Self) };
        let cp: *mut Ctx<E> = c;
        // The operands are only read, and outlive the call.
        let (other, rev, probe) = unsafe { (&(*cp).other, &(*cp).rev, &(*cp).probe) };
        match c.kind {
            0 => verdict(c, "view == tensor", eq, || *me == *other),
            1 => verdict(c, "tensor == view", eq, || *other == *me),
            2 => verdict(c, "slice == slice", eq, || **me == **other),
            3 => verdict(c, "slice == view", eq, || **other == *me),
            4 => verdict(c, "view == strided view", eq, || *me == rev.reorder()),
            5 => verdict(c, "strided view == view", eq, || rev.reorder() == *me),
            6 => {
                let x = rev.reorder();
                verdict(c, "strided slice == slice", eq, || *x == **me)
            }
            7 => verdict(c, "view != tensor", !eq, || *me != *other),
            8 => {
                let x = same(&c.vals, &c.vals);
                verdict(c, "view == itself", x, || *me == *me)
            }
            9 => {
                let x = same(&c.vals, &c.vals);
                verdict(c, "view == view of the same elements", x, || **me == me.expr())
            }
            10 => {
                let x = c.pval != UNEQUAL && c.vals.contains(&c.pval);
                verdict(c, "contains", x, || me.contains(probe))
            }
            11 => {
                let x = c.pval != UNEQUAL && c.vals.contains(&c.pval);
                verdict(c, "iter().any()", x, || me.iter().any(|x| x == probe))
            }
            12 if c.p.dims == c.odims && c.vals == c.ovals => {
                verdict(c, "hash of view and tensor agree", true, || hash_of(me) == hash_of(other))
            }
            13 if c.p.dims == c.odims && c.vals == c.ovals => {
                let x = rev.reorder();
                verdict(c, "hash of slice and strided view agree", true, || hash_of(&&**me) == hash_of(&x))
            }
            14 => verdict(c, "remapped view == tensor", eq, || me.remap::<DynRank, Strided>() == *other),
            15 => verdict(c, "remapped tensor == view", eq, || other.remap::<DynRank, Strided>() == *me),
            16 if n > 0 => {
                let k = (c.a[2] % n as u64) as usize;
                let mut idx = vec![0; rank];
                for _ in 0..k {
                    bump(&mut idx, &c.p.dims);
                }
                let at = c.base.wrapping_add(c.p.at[k]);
                match c.a[3] % 4 {
                    0 => verdict(c, "element by index", true, || std::ptr::eq(&me[&idx[..]], at)),
                    1 => verdict(c, "element by linear index", true, || std::ptr::eq(&me[k], at)),
                    2 => verdict(c, "element by unchecked index", true, || unsafe { std::ptr::eq(me.get_unchecked(&idx[..]), at) }),
                    _ => match rank {
                        0 => verdict(c, "element by array index", true, || std::ptr::eq(&me[[]], at)),
                        1 => verdict(c, "element by array index", true, || std::ptr::eq(&me[[idx[0]]], at)),
                        2 => verdict(c, "element by array index", true, || std::ptr::eq(&me[[idx[0], idx[1]]], at)),
                        3 => verdict(c, "element by array index", true, || std::ptr::eq(&me[[idx[0], idx[1], idx[2]]], at)),
                        _ => verdict(c, "element by unchecked linear index", true, || unsafe { std::ptr::eq(me.get_unchecked(k), at) }),
                    },
                }
            }
            17 => {
                let l = n;
                copied(c, "to_tensor", || me.to_tensor(), |t| ((0..t.rank()).map(|i| t.dim(i)).collect(), t.as_ptr()));
                let _ = l;
            }
            18 => {
                let d = c.p.dims.clone();
                copied(c, "to_vec", || me.to_vec(), move |t| (if t.len() == product(&d) { d } else { vec![t.len()] }, t.as_ptr()))
            }
            19 => {
                let d = c.p.dims.clone();
                copied(c, "iter().cloned()", || me.iter().cloned().collect::<Vec<_>>(), move |t| {
                    (if t.len() == product(&d) { d } else { vec![t.len()] }, t.as_ptr())
                })
            }
            20 => copied(c, "Tensor::from(view)", || Tensor::<E, S>::from(me.clone()), |t| ((0..t.rank()).map(|i| t.dim(i)).collect(), t.as_ptr())),
            21 => {
                // Reading twice gives the same.
                let (x, y) = (sut(|| *me == *other), sut(|| *me == *other));
                if let (Out::Ok(x), Out::Ok(y)) = (x, y) {
                    verdict(c, "comparison repeated", true, || x == y)
                }
            }
            22 if n > 0 => {
                // The size and the strides that the view reports locate the element.
                let k = (c.a[2] % n as u64) as usize;
                let mut idx = vec![0; rank];
                for _ in 0..k {
                    bump(&mut idx, &c.p.dims);
                }
                let at = c.base.wrapping_add(c.p.at[k]);
                verdict(c, "element by stride", true, || {
                    let off: isize = (0..rank).map(|i| me.stride(i) * idx[i] as isize).sum();
                    std::ptr::eq(me.as_ptr().wrapping_offset(off), at) && me.len() == n && me.rank() == rank && me.is_empty() == (n == 0)
                })
            }
            23 => {
                let want = views::row_major(&c.p.dims, |i| me.stride(i));
                // Strides of dimensions with at most one element may be taken into account or not.
                let consecutive = (1..n).all(|k| c.p.at[k] == c.p.at[k - 1] + 1);
                verdict(c, "is_contiguous", true, || {
                    let x = me.is_contiguous();
                    x == want || x && consecutive
                })
            }
            24 => {
                let x = unsafe { &mut (*cp).other };
                verdict(c, "mutable view == view", eq, || x.expr_mut() == *me)
            }
            25 => {
                let x = unsafe { &mut (*cp).rev };
                verdict(c, "strided mutable view == view", eq, || x.reorder_mut() == *me)
            }
            26 => {
                let x = unsafe { &mut (*cp).rev }.reorder_mut();
                verdict(c, "view == strided mutable view", eq, || *me == x)
            }
            28 if !c.ovals.is_empty() => {
                // Elements of a mutable view by every kind of index.
                let k = (c.a[2] % c.ovals.len() as u64) as usize;
                let mut idx = vec![0; c.odims.len()];
                for _ in 0..k {
                    bump(&mut idx, &c.odims);
                }
                let (dense, strided) = unsafe { (&mut (*cp).other, &mut (*cp).rev) };
                // Position in the array with reversed dimensions.
                let at = (0..idx.len()).rev().fold(0, |x, i| x * c.odims[i] + idx[i]);
                let (p, q) = (dense.as_ptr().wrapping_add(k), strided.as_ptr().wrapping_add(at));
                let way = c.a[3] % 5;
                macro_rules! by {
                    ($v:expr, $p:expr) => {{
                        let mut v = $v;
                        verdict(c, "element of a mutable view", true, move || {
                            let x: *const E = match (way, &idx[..]) {
                                (0, i) => &mut v[i],
                                (1, _) => &mut v[k],
                                (2, i) => unsafe { v.get_unchecked_mut(i) },
                                (3, _) => unsafe { v.get_unchecked_mut(k) },
                                (_, []) => &mut v[[]],
                                (_, &[i]) => &mut v[[i]],
                                (_, &[i, j]) => &mut v[[i, j]],
                                (_, &[i, j, k]) => unsafe { v.get_unchecked_mut([i, j, k]) },
                                (_, i) => &mut v[i],
                            };
                            std::ptr::eq(x, $p)
                        })
                    }};
                }
                match (c.odims.len(), c.a[4] / 64 % 4) {
                    (1, 0) => by!(dense.remap_mut::<(usize,), mdarray::Dense>(), p),
                    (2, 0) => by!(dense.remap_mut::<(usize, usize), mdarray::Dense>(), p),
                    (3, 0) => by!(dense.remap_mut::<(usize, usize, usize), mdarray::Dense>(), p),
                    (2, 1) => by!(strided.reorder_mut().into_mapping::<(usize, usize), Strided>(), q),
                    (3, 1) => by!(strided.reorder_mut().into_mapping::<(usize, usize, usize), Strided>(), q),
                    (_, 0 | 2) => by!(dense.expr_mut(), p),
                    _ => by!(strided.reorder_mut(), q),
                }
            }
            29 => {
                // Ranges of elements in memory order.
                let n = c.ovals.len();
                let x = (c.a[2] % (n as u64 + 1)) as usize;
                let y = x + (c.a[3] % ((n - x) as u64 + 1)) as usize;
                let way = c.a[4] / 64 % 4;
                let t = unsafe { &mut (*cp).other };
                let p = t.as_ptr();
                macro_rules! by {
                    ($r:expr, $x:expr, $y:expr) => {
                        verdict(c, "range of elements", true, || {
                            let s: &[E] = match way {
                                0 => &t[$r],
                                1 => &mut t[$r],
                                2 => unsafe { t.get_unchecked($r) },
                                _ => unsafe { t.get_unchecked_mut($r) },
                            };
                            std::ptr::eq(s.as_ptr(), p.wrapping_add($x)) && s.len() == $y - $x
                        })
                    };
                }
                use std::ops::Bound::*;
                match c.a[5] % 9 {
                    0 => by!(x..y, x, y),
                    1 => by!(x.., x, n),
                    2 => by!(..y, 0, y),
                    3 => by!(.., 0, n),
                    4 if y > x => by!(x..=y - 1, x, y),
                    5 if y > 0 => by!(..=y - 1, 0, y),
                    6 if x > 0 => by!((Excluded(x - 1), Excluded(y)), x, y),
                    7 => by!((Included(x), Unbounded), x, n),
                    _ => by!((Unbounded, Excluded(y)), 0, y),
                }
            }
            27 if c.p.dims == c.odims && c.vals == c.ovals => {
                let x = unsafe { &mut (*cp).rev }.reorder_mut();
                verdict(c, "hash of view and strided mutable view agree", true, || hash_of(me) == hash_of(&x))
            }
            _ => {}
        }
    }
}

trait Holder<E> {
    fn look(&self) -> refs::V<'_, E>;
    fn base(&self) -> *mut E;
    /// Compares the owner itself.
    fn whole(&self, c: &mut Ctx<E>);
}

macro_rules! whole {
    ($me:expr, $c:expr) => {{
        let (me, c) = ($me, $c);
        let eq = c.p.dims == c.odims && same(&c.vals, &c.ovals);
        let cp: *mut Ctx<E> = c;
        let (other, rev) = unsafe { (&(*cp).other, &(*cp).rev) };
        match c.a[1] % 7 {
            0 => verdict(c, "owner == tensor", eq, || *me == *other),
            1 => verdict(c, "tensor == owner", eq, || *other == *me),
            2 => verdict(c, "owner == strided view", eq, || *me == rev.reorder()),
            3 => verdict(c, "strided view == owner", eq, || rev.reorder() == *me),
            4 => {
                let x = same(&c.vals, &c.vals);
                verdict(c, "owner == itself", x, || *me == *me)
            }
            5 => verdict(c, "hash of owner and slice agree", true, || hash_of(me) == hash_of(&&**me)),
            _ if c.p.dims == c.odims && c.vals == c.ovals => verdict(c, "hash of owner and tensor agree", true, || hash_of(me) == hash_of(other)),
            _ => verdict(c, "owner != tensor", !eq, || *me != *other),
        }
    }};
}

impl<E: Elem, S: SimShape> Holder<E> for Tensor<E, S> {
    fn look(&self) -> refs::V<'_, E> {
        Box::new(self.expr())
    }
    fn base(&self) -> *mut E {
        self.as_ptr() as *mut E
    }
    fn whole(&self, c: &mut Ctx<E>) {
        whole!(self, c)
    }
}

impl<E: Elem, const A: usize, const B: usize> Holder<E> for Array<E, (Const<A>, Const<B>)> {
    fn look(&self) -> refs::V<'_, E> {
        Box::new(self.expr())
    }
    fn base(&self) -> *mut E {
        self.as_ptr() as *mut E
    }
    fn whole(&self, c: &mut Ctx<E>) {
        whole!(self, c)
    }
}

/// An array of the given dimensions with one of several histories.
fn make<E: Elem, S: SimShape>(dims: &[usize], how: u64) -> Box<dyn Holder<E>> {
    let new = |d: &[usize]| Tensor::<E, S>::from_fn(<S as Shape>::from_dims(d), |_: &[usize]| E::make(0));
    let mut d = dims.to_vec();
    let t = match how % 8 {
        1 if S::head_dyn() && !d.is_empty() => {
            d[0] += 2;
            let mut t = new(&d);
            let k = dims[0].min(1);
            t.drain(k..k + 2);
            t
        }
        2 if S::head_dyn() && !d.is_empty() => {
            d[0] += 3;
            let mut t = new(&d);
            t.truncate(dims[0]);
            t
        }
        3 => {
            let mut t = new(&d);
            t.reserve(9);
            t
        }
        4 if S::DIMS.is_none_or(|x| !x.is_empty() && x[x.len() - 1].is_none()) && !d.is_empty() => {
            let k = d.len() - 1;
            d[k] += 1;
            let mut t = new(&d);
            t.resize_with(dims, || E::make(0));
            t
        }
        5 if S::DIMS.is_none_or(|x| !x.is_empty() && x[x.len() - 1].is_none()) && !d.is_empty() => {
            let k = d.len() - 1;
            d[k] /= 2;
            let mut t = new(&d);
            t.resize_with(dims, || E::make(0));
            t
        }
        6 => new(&d).clone(),
        7 if product(&d) > 0 && S::head_dyn() && d.first().is_some_and(|x| *x > 1) => {
            d[0] -= 1;
            let mut t = new(&d);
            d[0] = 1;
            t.append(&mut new(&d));
            t
        }
        _ => new(&d),
    };
    Box::new(t)
}

fn value(seed: u64, k: usize, few: u64) -> u64 {
    match mix2(seed, k as u64) {
        x if few == 7 && x % 5 == 0 => UNEQUAL,
        x => x % (few + 1),
    }
}

struct W<E> {
    base: Option<(Box<dyn Holder<E>>, Vec<usize>)>,
    steps: Vec<Args>,
    interrupted: u64,
    reads: u64,
    strided: u64,
    equal: u64,
    unequal: u64,
    max_depth: u64,
}

fn snapshot<E: Elem>(p: *const E, n: usize) -> Vec<Option<(u32, u64)>> {
    (0..n).map(|i| unsafe { E::peek(p.add(i)) }.ok()).collect()
}

fn do_read<E: Elem>(w: &mut W<E>, a: &Args) {
    let Some((h, dims)) = &mut w.base else { return };
    let total = product(dims);
    let base = h.base();
    let before = snapshot(base, total);
    if before.iter().any(|x| x.is_none()) {
        sim().violate("elem-dead", "an element of the array is not alive".into());
        return;
    }
    let mut ar = Arena::default();
    let mut p = Pos::full(dims);
    let hp: *const dyn Holder<E> = h.as_ref();
    let mut v = unsafe { (*hp).look() };
    let mut depth = 0;
    for s in &w.steps {
        let what = format!("view step {} on {:?}", s[0] % views::NSTEPS, p.dims);
        let mut parts = must(&what, || refs::advance(v, p, s, &mut ar)).unwrap_or_default();
        if sim().viol.is_some() {
            return;
        }
        if parts.is_empty() {
            drop(parts);
            v = unsafe { (*hp).look() };
            p = Pos::full(dims);
            depth = 0;
            continue;
        }
        depth += 1;
        for (x, q) in &parts {
            if !refs::check(x, q, base, &what) {
                return;
            }
        }
        let n = parts.len();
        let (x, q) = parts.swap_remove((s[4] % n as u64) as usize);
        v = x;
        p = q;
    }
    w.max_depth = w.max_depth.max(depth);
    if (1..p.len()).any(|k| p.at[k] != p.at[k - 1] + 1) {
        w.strided += 1;
    }
    let vals: Vec<u64> = p.at.iter().map(|&i| before[i].unwrap().1).collect();
    // The other side: mostly the same, else one element or the dimensions differ.
    let mut odims = p.dims.clone();
    let mut ovals = vals.clone();
    let n = vals.len();
    match a[4] % 8 {
        0 | 1 if n > 0 => {
            let k = match a[4] / 8 % 4 {
                0 => 0,
                1 => n - 1,
                _ => (a[2] % n as u64) as usize,
            };
            ovals[k] = ovals[k].wrapping_add(1 + a[3] % 3);
        }
        2 if !odims.is_empty() => match a[4] / 8 % 6 {
            0 => odims.reverse(),
            1 => odims.insert(0, 1),
            2 => odims.push(1),
            3 => odims = vec![n],
            4 => odims = views::factor(n, a[3]),
            _ => odims.swap(0, p.dims.len() - 1),
        },
        3 if !odims.is_empty() => {
            // One more or fewer along some dimension.
            let k = (a[2] % odims.len() as u64) as usize;
            if a[3] % 2 == 0 { odims[k] += 1 } else { odims[k] = odims[k].saturating_sub(1) }
            ovals = (0..product(&odims)).map(|k| vals.get(k).copied().unwrap_or(1)).collect();
        }
        4 if n > 0 => {
            // Two elements exchanged.
            let (i, j) = ((a[2] % n as u64) as usize, (a[3] % n as u64) as usize);
            ovals.swap(i, j);
        }
        _ => {}
    }
    let f = std::mem::replace(&mut sim().fault, 0);
    let op = Pos { dims: odims.clone(), at: vec![] };
    let other = Tensor::<E, DynRank>::from_fn(&odims[..], |i: &[usize]| E::make(ovals[op.flat(i)]));
    let mut rd = odims.clone();
    rd.reverse();
    let rev = Tensor::<E, DynRank>::from_fn(&rd[..], |i: &[usize]| {
        let mut j = i.to_vec();
        j.reverse();
        E::make(ovals[op.flat(&j)])
    });
    let pval = if n > 0 && a[5] % 3 > 0 { vals[(a[2] % n as u64) as usize] } else { a[5] % 9 };
    let probe = E::make(pval);
    sim().fault = f;
    if p.dims == odims && same(&vals, &ovals) {
        w.equal += 1;
    } else {
        w.unequal += 1;
    }
    let mut c = Ctx { kind: a[0] % NREADS, a: *a, p, vals, base, other, odims, ovals, rev, probe, pval, what: "", done: false };
    sim().cb = 0;
    if depth == 0 && a[1] % 2 == 0 && w.steps.is_empty() {
        drop(v);
        unsafe { (*hp).whole(&mut c) };
    } else {
        v.read(&mut c);
        drop(v);
    }
    drop(ar);
    sim().fault = 0;
    w.reads += c.done as u64;
    w.interrupted += sim().fired as u64;
    if sim().viol.is_none() && snapshot(base, total) != before {
        sim().violate("array-changed", format!("{}: the array changed while it was read", c.what));
    }
    if sim().viol.is_some() {
        std::mem::forget(c);
    }
}

/// One step on arrays of static rank 5 and 6.
fn deep<E: Elem>(a: &Args) {
    let mut d = [0; 6];
    for (k, d) in d.iter_mut().enumerate() {
        let x = a[1] >> (3 * k) & 7;
        *d = if x == 0 && a[1] % 16 == 0 { 0 } else { 1 + (x % 3) as usize };
    }
    let bits = |k: usize, n: usize| (mix2(a[2], k as u64) % n.max(1) as u64) as usize;
    let way = a[4];
    macro_rules! go {
        ($n:tt, ($($k:tt),+), $t:ty, $perm:expr, $permv:expr, ($($last:tt)*)) => {{
            let dims = [$(d[$k]),+];
            let t = Tensor::<E, $t>::from_fn(dims, |_| E::make(0));
            let base = t.as_ptr();
            let p = Pos::full(&dims);
            let n = dims.len();
            let ax = bits(40, n);
            let i = |k: usize| bits(k, dims[k]);
            let r = |k: usize| { let x = bits(10 + k, dims[k] + 1); (x, x + bits(20 + k, dims[k] - x + 1)) };
            let all = |f: &[(usize, Sel)]| -> Vec<Sel> {
                (0..n).map(|k| f.iter().find(|x| x.0 == k).map_or(Sel::Full, |x| x.1.clone())).collect()
            };
            let st = [1isize, 2, -1, -2, 3][bits(30, 5)];
            let (x1, y1) = r(1);
            let (x2, y2) = r(2);
            let (x4, y4) = r(4);
            let mid = bits(41, dims[ax] + 1);
            let full = dims.iter().all(|x| *x > 0);
            type V<'a, E> = refs::V<'a, E>;
            let tt = &t;
            // The parts of the view, and what they select.
            let out: Out<(Vec<V<E>>, Vec<Pos>)> = sut(|| {
                macro_rules! one { ($v:expr, $q:expr) => { (vec![Box::new($v) as V<E>], vec![$q]) }; }
                macro_rules! two { ($v:expr) => {{
                    let (x, y) = $v;
                    (vec![Box::new(x) as V<E>, Box::new(y) as V<E>], vec![p.range(ax, 0, mid), p.range(ax, mid, dims[ax])])
                }}; }
                macro_rules! many { ($it:expr, $ps:expr) => { ($it.into_iter().map(|x| Box::new(x) as V<E>).collect(), $ps) }; }
                let at = |k: usize| (k, Sel::At(i(k)));
                match way % 20 {
                    0 if full => one!(tt.view(i(0), .., x2..y2, .., i(4) $($last)*), p.view(&all(&[at(0), (2, Sel::Range(x2, y2)), at(4)]))),
                    1 if full => one!(tt.view(.., i(1), .., mdarray::step(.., st), .. $($last)*), p.view(&all(&[at(1), (3, Sel::Step(0, dims[3], st))]))),
                    2 => one!(tt.view(r(0).0.., .., .., .., .. $($last)*), p.view(&all(&[(0, Sel::Range(r(0).0, dims[0]))]))),
                    3 if full => one!(tt.view(.., .., .., i(3), i(4) $($last)*), p.view(&all(&[at(3), at(4)]))),
                    4 if full => one!(tt.expr().into_view(i(0), i(1), i(2), i(3), .. $($last)*), p.view(&all(&[at(0), at(1), at(2), at(3)]))),
                    5 if full => one!(tt.expr().into_view(i(0), x1..y1, .., .., x4..y4 $($last)*), p.view(&all(&[at(0), (1, Sel::Range(x1, y1)), (4, Sel::Range(x4, y4))]))),
                    6 if dims[ax] > 0 => match ax {
                        0 => one!(tt.axis_at(Const::<0>, i(0)), p.axis_at(0, i(0))),
                        1 => one!(tt.axis_at(Const::<1>, i(1)), p.axis_at(1, i(1))),
                        2 => one!(tt.axis_at(Const::<2>, i(2)), p.axis_at(2, i(2))),
                        3 => one!(tt.axis_at(Const::<3>, i(3)), p.axis_at(3, i(3))),
                        4 => one!(tt.axis_at(Const::<4>, i(4)), p.axis_at(4, i(4))),
                        _ => one!(tt.axis_at(Const::<{ $n - 1 }>, i($n - 1)), p.axis_at($n - 1, i($n - 1))),
                    },
                    7 => match ax {
                        0 => two!(tt.split_axis_at(Const::<0>, mid)),
                        1 => two!(tt.split_axis_at(Const::<1>, mid)),
                        2 => two!(tt.split_axis_at(Const::<2>, mid)),
                        3 => two!(tt.split_axis_at(Const::<3>, mid)),
                        4 => two!(tt.split_axis_at(Const::<4>, mid)),
                        _ => two!(tt.split_axis_at(Const::<{ $n - 1 }>, mid)),
                    },
                    8 => {
                        let q = views::perm(n, a[5]);
                        one!(tt.permute([$(q[$k]),+]), p.permute(&q))
                    }
                    9 => one!(tt.permute($perm), p.permute(&$permv)),
                    10 => one!(tt.reorder(), p.permute(&(0..n).rev().collect::<Vec<_>>())),
                    11 => {
                        let ps = (0..dims[ax]).map(|k| p.axis_at(ax, k)).collect();
                        match ax {
                            2 => many!(tt.axis_expr(Const::<2>), ps),
                            3 => many!(tt.axis_expr(Const::<3>), ps),
                            4 => many!(tt.axis_expr(Const::<4>), ps),
                            5 => many!(tt.axis_expr(Const::<{ $n - 1 }>), ps),
                            _ => many!(tt.axis_expr(ax), ps),
                        }
                    }
                    12 => {
                        let ps = p.lanes(ax);
                        match ax {
                            2 => many!(tt.lanes(Const::<2>), ps),
                            3 => many!(tt.lanes(Const::<3>), ps),
                            4 => many!(tt.lanes(Const::<4>), ps),
                            5 => many!(tt.lanes(Const::<{ $n - 1 }>), ps),
                            _ => many!(tt.lanes(ax), ps),
                        }
                    }
                    13 => many!(tt.rows(), p.lanes(n - 1)),
                    14 => many!(tt.cols(), p.lanes(n - 2)),
                    15 => one!(tt.flatten(), p.reshape(&[p.len()])),
                    16 => {
                        let x = [dims[0] * dims[1] * dims[2], dims[3..].iter().product()];
                        one!(tt.reshape(x), p.reshape(&x))
                    }
                    17 => one!(tt.remap::<DynRank, Strided>(), p.clone()),
                    18 => one!(tt.remap::<$t, Strided>(), p.clone()),
                    _ => one!(tt.expr().into_dyn(), p.clone()),
                }
            });
            match out {
                Out::Ok((vs, ps)) => {
                    if vs.len() != ps.len() {
                        sim().violate("view-geometry", format!("step {} on {dims:?}: {} views instead of {}", way % 20, vs.len(), ps.len()));
                    }
                    for (v, q) in vs.iter().zip(&ps) {
                        if !refs::check(v, q, base, &format!("step {} on {dims:?} of static rank", way % 20)) {
                            break;
                        }
                    }
                }
                Out::Panic(m) => sim().violate("unexpected-panic", format!("step {} on {dims:?}: {m}", way % 20)),
                _ => {}
            }
        }};
    }
    if a[0] % 2 == 0 {
        go!(5, (0, 1, 2, 3, 4), (usize, usize, usize, usize, usize), (Const::<0>, Const::<1>, Const::<4>, Const::<2>, Const::<3>), [0, 1, 4, 2, 3], ());
    } else {
        go!(6, (0, 1, 2, 3, 4, 5), (usize, usize, usize, usize, usize, usize), (Const::<5>, Const::<1>, Const::<0>, Const::<2>, Const::<4>, Const::<3>), [5, 1, 0, 2, 4, 3], (, ..));
    }
}

/// Arrays and views of nested arrays of every rank, and back.
fn nested<E: Elem>(a: &Args) {
    macro_rules! go {
        ($ty:ty, $make:expr, ($($c:tt),+), $dyn:ty) => {{
            type C = ($(Const<$c>,)+);
            let dims = [$($c),+];
            let n = product(&dims);
            let p = Pos::full(&dims);
            let mut x: $ty = $make;
            let base = &x as *const $ty as *const E;
            for k in 0..n {
                unsafe { (*(base as *mut E).add(k)).set(k as u64) };
            }
            let all = |b: *const E| (0..n).all(|k| unsafe { E::peek(b.add(k)) }.ok().map(|x| x.1) == Some(k as u64));
            macro_rules! ok { ($what:expr, $e:expr) => {
                match sut(|| $e) {
                    Out::Ok(true) => {}
                    Out::Ok(false) => sim().violate("nested-array", format!("{}: other dimensions or elements, for {dims:?}", $what)),
                    Out::Panic(m) => sim().violate("unexpected-panic", format!("{} for {dims:?}: {m}", $what)),
                    _ => {}
                }
            }; }
            match a[4] % 9 {
                0 => {
                    let v: refs::V<E> = Box::new(View::<E, $dyn>::from(&x));
                    refs::check(&v, &p, base, "view of a nested array");
                }
                1 => {
                    let v: refs::V<E> = Box::new(View::<E, C>::from(&x));
                    refs::check(&v, &p, base, "view of a nested array");
                }
                2 => ok!("mutable view of a nested array", {
                    let v = ViewMut::<E, $dyn>::from(&mut x);
                    (0..v.rank()).map(|i| v.dim(i)).eq(dims) && v.as_ptr() == base
                }),
                3 => ok!("nested array of a view", {
                    let v = View::<E, $dyn>::from(&x);
                    <&$ty>::try_from(v).is_ok_and(|y| std::ptr::eq(y, &x))
                }),
                4 => ok!("nested array of a mutable view", {
                    let v = ViewMut::<E, $dyn>::from(&mut x);
                    <&mut $ty>::try_from(v).is_ok_and(|y| y as *const $ty as *const E == base)
                }),
                5 => ok!("tensor and back", {
                    let t = Tensor::<E, $dyn>::from(x);
                    let good = (0..t.rank()).map(|i| t.dim(i)).eq(dims) && all(t.as_ptr());
                    good && <$ty>::try_from(t).is_ok_and(|y| all(&y as *const $ty as *const E))
                }),
                6 => ok!("array and back", {
                    let mut t = Array::<E, C>::from(x);
                    let b = t.as_ptr();
                    let y: *const $ty = t.as_ref();
                    let z: *mut $ty = t.as_mut();
                    let good = y as *const E == b && z as *const E == b && all(b) && (0..t.rank()).map(|i| t.dim(i)).eq(dims);
                    let y: $ty = t.into();
                    good && all(&y as *const $ty as *const E)
                }),
                7 => ok!("slice as nested array", {
                    let mut t = Array::<E, C>::from(x);
                    let b = t.as_ptr();
                    let s: &mut mdarray::Slice<E, C> = &mut t;
                    let y: *const $ty = (*s).as_ref();
                    let z: *mut $ty = s.as_mut();
                    y as *const E == b && z as *const E == b
                }),
                _ => ok!("tensor of const shape", {
                    let t = Tensor::<E, C>::from(x);
                    let good = all(t.as_ptr());
                    let u: Tensor<E, DynRank> = t.into_dyn();
                    good && (0..u.rank()).map(|i| u.dim(i)).eq(dims) && all(u.as_ptr())
                }),
            }
        }};
    }
    use std::array::from_fn as f;
    let e = || E::make(0);
    match a[0] % 6 {
        0 => go!([E; 3], f(|_| e()), (3), (usize,)),
        1 => go!([[E; 3]; 2], f(|_| f(|_| e())), (2, 3), (usize, usize)),
        2 => go!([[[E; 2]; 3]; 1], f(|_| f(|_| f(|_| e()))), (1, 3, 2), (usize, usize, usize)),
        3 => go!([[[[E; 2]; 1]; 3]; 4], f(|_| f(|_| f(|_| f(|_| e())))), (4, 3, 1, 2), (usize, usize, usize, usize)),
        4 => go!([[[[[E; 1]; 2]; 3]; 4]; 5], f(|_| f(|_| f(|_| f(|_| f(|_| e()))))), (5, 4, 3, 2, 1), (usize, usize, usize, usize, usize)),
        _ => go!([[[[[[E; 2]; 1]; 3]; 1]; 5]; 4], f(|_| f(|_| f(|_| f(|_| f(|_| f(|_| e())))))), (4, 5, 1, 3, 1, 2), (usize, usize, usize, usize, usize, usize)),
    }
}

fn run_elem<E: Elem>(p: &Plan) -> RunOut {
    sim().reset();
    heap::reset_counts();
    let mut w: W<E> = W { base: None, steps: vec![], interrupted: 0, reads: 0, strided: 0, equal: 0, unequal: 0, max_depth: 0 };
    let mut out = RunOut::default();
    for (k, op) in p.ops.iter().enumerate() {
        sim().note(|| format!("op {k} {} {:?} fault {:?}", op_name(op.code), op.a, op.fault));
        sim().log(1000 + op.code as u64, k as u64);
        sim().begin_op(op.fault);
        match op.code {
            NEW | ARRAY => {
                w.steps.clear();
                w.base = None;
                if op.code == NEW {
                    let sid = (op.a[0] % NSHAPES as u64) as u8;
                    let dims = gen_dims(sid, &op.a[1..3], [12, 30, 60, 120][(p.cfg(1) % 4) as usize]);
                    let x = must("construction", || by_shape_all!(sid, make, E, (&dims, op.a[3])));
                    w.base = x.map(|x| (x, dims));
                } else {
                    macro_rules! arr {
                        ($a:expr, $b:expr) => {{
                            let x = Array::<E, (Const<$a>, Const<$b>)>::from_fn(|_: &[usize]| E::make(0));
                            (Box::new(x) as Box<dyn Holder<E>>, vec![$a, $b])
                        }};
                    }
                    w.base = Some(match op.a[0] % 4 {
                        0 => arr!(2, 3),
                        1 => arr!(1, 4),
                        2 => arr!(3, 3),
                        _ => arr!(4, 2),
                    });
                }
                if let Some((h, dims)) = &w.base {
                    let b = h.base();
                    for k in 0..product(dims) {
                        unsafe { (*b.add(k)).set(value(op.a[5], k, op.a[4] % 8)) };
                    }
                }
            }
            STEP => w.steps.push(op.a),
            RESET => w.steps.clear(),
            DEEP => deep::<E>(&op.a),
            NESTED => nested::<E>(&op.a),
            LARGE => large::step(&op.a),
            _ => do_read(&mut w, &op.a),
        }
        sim().end_op();
        out.counts.push((if op.code == READ { sim().cb } else { 0 }, 0));
        out.op_index = k;
        out.steps += 1;
        if sim().viol.is_none() {
            if let Some((c, d)) = heap::take_violation() {
                sim().violate(&c, d);
            }
        }
        if sim().viol.is_some() {
            break;
        }
    }
    if sim().viol.is_none() {
        w.base = None;
        let live = sim().live;
        if live != 0 {
            sim().violate("elem-leak", format!("at the end: {live} elements alive"));
        }
        heap::flush();
        if let Some((c, d)) = heap::take_violation() {
            sim().violate(&c, d);
        }
        out.op_index = p.ops.len();
    } else {
        std::mem::forget(w.base.take());
    }
    let s = sim();
    out.viol = s.viol.take();
    if let Some(v) = &out.viol {
        out.key = v.class.clone();
    }
    out.hash = s.hash;
    out.nontrivial = w.reads > 0 && (w.interrupted > 0 || p.ops.iter().all(|o| o.fault.is_none()));
    out.probes = vec![
        ("reads", w.reads),
        ("interrupted_reads", w.interrupted),
        ("reads_through_strided_views", w.strided),
        ("other_side_equal", w.equal),
        ("other_side_different", w.unequal),
        ("view_steps", w.max_depth),
    ];
    heap::flush();
    out
}

fn run(p: &Plan) -> RunOut {
    run_elem::<Tok>(p)
}

fn generate(_: &str, r: &mut Rng) -> Plan {
    let mut p = Plan { cfg: vec![0, r.below(4)], ..Default::default() };
    for _ in 0..1 + r.below(2) {
        let code = if r.chance(1, 8) { ARRAY } else { NEW };
        let mut o = plan::op(r, code);
        o.a[0] = match r.below(4) {
            0 => r.below(NSHAPES as u64),
            1 => 2,
            2 => 3,
            _ => *r.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 10, 11]),
        };
        o.a[1] = r.below(1 << 30);
        o.a[3] = r.below(8);
        o.a[4] = r.below(8);
        o.a[5] = 1 + r.below(1 << 30);
        p.ops.push(o);
        if r.chance(1, 4) {
            let code = if r.chance(1, 3) { NESTED } else { DEEP };
            let mut o = plan::op(r, code);
            o.a = [r.below(12), r.below(1 << 20), r.below(1 << 20), 0, r.below(1 << 20), r.below(1 << 20)];
            p.ops.push(o);
        }
        if r.chance(1, 400) {
            let mut o = plan::op(r, LARGE);
            o.a = [r.below(8), r.below(14), r.below(12), r.below(1 << 30), r.below(6), 0];
            p.ops.push(o);
        }
        for _ in 0..1 + r.below(3) {
            if r.chance(1, 3) {
                p.ops.push(plan::op(r, RESET));
            }
            for _ in 0..r.below(4) {
                let mut s = plan::op(r, STEP);
                s.a = [r.below(views::NSTEPS), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20)];
                p.ops.push(s);
            }
            for _ in 0..1 + r.below(4) {
                let mut u = plan::op(r, READ);
                u.a = [r.below(NREADS), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20)];
                p.ops.push(u);
            }
        }
    }
    p
}

fn place(_: &str, base: &Plan, counts: &[(u64, u64)], r: &mut Rng) -> Plan {
    let n = 1 + r.below(3);
    place_faults(base, counts, r, &[F_PANIC, F_LATE], n, &|o| o.code == READ)
}

static WORLD: World = World {
    name: "reads",
    props: &["C15"],
    op_name,
    generate,
    place: Some(place),
    run,
    budget: |_, thorough| if thorough { 40_000_000 } else { 160_000 },
    variants: |_| 2,
    relevant: |_, v| v.class != "block-leak",
    rule: |_| "1-2 arrays (14 tensor shape types, 4 array types) with 8 kinds of history, chains of 0-9 view steps (28 step kinds on 15 statically typed sources), 30 kinds of reading against another array that is equal, differs in one element, in two exchanged elements or in its dimensions; some elements are not equal to themselves; single steps on static ranks 5 and 6, nested arrays, and arrays of 66000 to 90300 elements; a run without faults fixes the callback counts, then a variant with 1-3 user panics; non-trivial: at least one reading, and one interrupted if faults were planned",
    level: "exploration",
    real: &["mdarray (all of it, compiled from /repo, unmodified)"],
    stub: &["global allocator (simulated heap)", "element type and hasher of the user"],
};

fn main() {
    driver::main(&WORLD)
}
