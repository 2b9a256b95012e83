//! World "iters": several iterators over arrays, views and expressions, used in a seeded
//! interleaving of single steps, skips, partial and complete consumption, cloning, dropping
//! and consumers that panic. The reference is the list of items each one has to yield.

use mdarray::expr::{self, Expression};
use mdarray::index::{Cols, Rows};
use mdarray::{Array, Const, DynRank, Layout, Shape, Strided, Tensor, View, ViewMut};
use mdsim::arrs::*;
use mdsim::by_shape_all;
use mdsim::driver::{self, RunOut, World, place_faults};
use mdsim::elem::*;
use mdsim::heap;
use mdsim::model::*;
use mdsim::plan::{self, Plan};
use mdsim::rng::{Rng, mix2};
use mdsim::sim::*;

#[path = "../views.rs"]
mod views;
#[path = "../large.rs"]
#[allow(dead_code)]
mod large;
use views::{Arena, Args, Pos, muts, refs};

const NEW: u16 = 1;
const STEP: u16 = 2;
const OPEN: u16 = 3;
const OPENMUT: u16 = 4;
const OPENVAL: u16 = 5;
const NEXT: u16 = 6;
const NTH: u16 = 7;
const SOME: u16 = 8;
const ALL: u16 = 9;
const CLONE: u16 = 10;
const CLOSE: u16 = 11;
const END: u16 = 12;
const LARGE: u16 = 13;

fn op_name(c: u16) -> &'static str {
    match c {
        NEW => "new",
        STEP => "view_step",
        OPEN => "open",
        OPENMUT => "open_mut",
        OPENVAL => "open_by_value",
        NEXT => "next",
        NTH => "nth",
        SOME => "partial",
        ALL => "consume",
        CLONE => "clone",
        CLOSE => "drop",
        END => "past_end",
        LARGE => "large_array",
        _ => "end",
    }
}

/// An iterator with its types erased; items are reduced to signatures.
trait DynIt<'a> {
    fn next(&mut self) -> Option<u64>;
    fn nth(&mut self, k: usize) -> Option<u64>;
    fn hint(&self) -> (usize, Option<usize>);
    fn exact(&self) -> usize;
    /// Passes up to `k` items on.
    fn some(&mut self, k: usize, how: u64, out: &mut Vec<u64>);
    /// Consumes the rest.
    fn all(self: Box<Self>, how: u64, out: &mut Vec<u64>);
    fn dup(&self, fresh: bool) -> Option<Box<dyn DynIt<'a> + 'a>>;
}

struct Many<I, F, const C: u8> {
    it: I,
    f: F,
}

/// 0: never cloned, 1: cloned at any time, 2: cloned only before use.
trait Dup<'a, I, F> {
    fn dup(i: &I, f: &F, fresh: bool) -> Option<Box<dyn DynIt<'a> + 'a>>;
}
struct D<const C: u8>;
impl<'a, I, F> Dup<'a, I, F> for D<0> {
    fn dup(_: &I, _: &F, _: bool) -> Option<Box<dyn DynIt<'a> + 'a>> {
        None
    }
}
impl<'a, I: ExactSizeIterator + Clone + 'a, F: Fn(I::Item) -> u64 + Clone + 'a> Dup<'a, I, F> for D<1> {
    fn dup(i: &I, f: &F, _: bool) -> Option<Box<dyn DynIt<'a> + 'a>> {
        Some(Box::new(Many::<I, F, 1> { it: i.clone(), f: f.clone() }))
    }
}
impl<'a, I: ExactSizeIterator + Clone + 'a, F: Fn(I::Item) -> u64 + Clone + 'a> Dup<'a, I, F> for D<2> {
    fn dup(i: &I, f: &F, fresh: bool) -> Option<Box<dyn DynIt<'a> + 'a>> {
        if fresh { Some(Box::new(Many::<I, F, 2> { it: i.clone(), f: f.clone() })) } else { None }
    }
}

fn feed(out: &mut Vec<u64>, x: u64) {
    {
        let _p = heap::Pause::new();
        out.push(x);
    }
    point(K::Closure, x, || ());
}

impl<'a, I: ExactSizeIterator, F: Fn(I::Item) -> u64, const C: u8> DynIt<'a> for Many<I, F, C>
where
    D<C>: Dup<'a, I, F>,
{
    fn next(&mut self) -> Option<u64> {
        self.it.next().map(|x| (self.f)(x))
    }
    fn nth(&mut self, k: usize) -> Option<u64> {
        self.it.nth(k).map(|x| (self.f)(x))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn exact(&self) -> usize {
        self.it.len()
    }
    fn some(&mut self, k: usize, how: u64, out: &mut Vec<u64>) {
        let f = &self.f;
        match how % 3 {
            0 => {
                let mut n = 0;
                if k > 0 {
                    self.it.all(|x| {
                        feed(out, f(x));
                        n += 1;
                        n < k
                    });
                }
            }
            1 => self.it.by_ref().take(k).for_each(|x| feed(out, f(x))),
            _ => {
                let mut n = 0;
                if k > 0 {
                    let _ = self.it.try_fold((), |(), x| {
                        feed(out, f(x));
                        n += 1;
                        if n < k { Ok(()) } else { Err(()) }
                    });
                }
            }
        }
    }
    fn all(self: Box<Self>, how: u64, out: &mut Vec<u64>) {
        let me = *self;
        let f = &me.f;
        match how % 7 {
            0 => me.it.fold((), |(), x| feed(out, f(x))),
            1 => me.it.for_each(|x| feed(out, f(x))),
            2 => {
                let v: Vec<u64> = me.it.map(f).collect();
                for x in v {
                    feed(out, x);
                }
            }
            3 => {
                let n = me.it.count();
                feed(out, n as u64);
            }
            4 => {
                let x = me.it.last().map_or(0, |x| f(x));
                feed(out, x);
            }
            5 => {
                let mut it = me.it;
                while let Some(x) = it.next() {
                    feed(out, f(x));
                }
            }
            _ => {
                for x in me.it {
                    feed(out, f(x));
                }
            }
        }
    }
    fn dup(&self, fresh: bool) -> Option<Box<dyn DynIt<'a> + 'a>> {
        D::<C>::dup(&self.it, &self.f, fresh)
    }
}

type It = Box<dyn DynIt<'static> + 'static>;
/// The iterator, what it has to yield, and whether user code runs inside of it.
type Opened = (It, Vec<u64>, bool);

/// What is needed to make signatures.
pub struct Ctx<E> {
    kind: u64,
    a: Args,
    p: Pos,
    base: *const E,
    vals: Vec<u64>,
}

impl<E: Elem> Ctx<E> {
    /// Signatures of references to the elements of the view.
    fn refs(&self) -> Vec<u64> {
        self.p.at.iter().map(|&i| esig(i, self.vals[i])).collect()
    }
    fn views(&self, ps: &[Pos]) -> Vec<u64> {
        ps.iter().map(|p| vsig(&p.dims, p.at.iter().copied())).collect()
    }
}

fn esig(off: usize, val: u64) -> u64 {
    mix2(off as u64 + 1, val)
}

fn vsig(dims: &[usize], at: impl Iterator<Item = usize>) -> u64 {
    let h = dims.iter().fold(99, |h, &d| mix2(h, d as u64));
    at.fold(h, |h, i| mix2(h, i as u64))
}

fn of_ref<E: Elem>(x: &E, base: *const E) -> u64 {
    let off = (x as *const E as isize - base as isize) / std::mem::size_of::<E>() as isize;
    esig(off as usize, x.val())
}

fn of_view<E: Elem, S: Shape, L: Layout>(v: &View<'_, E, S, L>, base: *const E) -> u64 {
    let dims: Vec<usize> = (0..v.rank()).map(|i| v.dim(i)).collect();
    let mut idx = vec![0; dims.len()];
    let mut at = vec![];
    for _ in 0..product(&dims) {
        let mut p = v.as_ptr();
        for (k, &i) in idx.iter().enumerate() {
            p = p.wrapping_offset(v.stride(k) * i as isize);
        }
        at.push(((p as isize - base as isize) / std::mem::size_of::<E>() as isize) as usize);
        bump(&mut idx, &dims);
    }
    vsig(&dims, at.into_iter())
}

fn of_vmut<E: Elem, S: Shape, L: Layout>(v: &ViewMut<'_, E, S, L>, base: *const E) -> u64 {
    of_view(&v.expr(), base)
}

fn pair(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len().max(b.len());
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    (0..n).map(|k| mix2(a[k % a.len()], b[k % b.len()])).collect()
}

/// An array whose only lane is an expression of rank 0: in a zip with it, no dimension is
/// iterated in one go.
fn one() -> &'static Tensor<u64, DynRank> {
    static ONE: std::sync::OnceLock<Tensor<u64, DynRank>> = std::sync::OnceLock::new();
    ONE.get_or_init(|| {
        let _p = heap::Pause::new();
        Tensor::from(vec![70u64, 7]).into_dyn()
    })
}

fn one_sig<S: Shape, L: Layout>(v: &View<'_, u64, S, L>) -> u64 {
    let _p = heap::Pause::new();
    let n: u64 = v.iter().sum();
    if v.len() == 2 { n } else { 0 }
}

fn counted(a: &[u64]) -> Vec<u64> {
    a.iter().enumerate().map(|(i, &x)| mix2(i as u64 ^ 0xee, x)).collect()
}

pub trait Act<'a, E> {
    /// Opens an iterator. The view and everything it borrows stays in place until the end.
    fn open(&'a self, c: &Ctx<E>) -> Opened2<'a>;
}
pub trait ActMut<'a, E> {
    fn open_mut(&'a mut self, c: &Ctx<E>) -> Opened2<'a>;
}
pub struct Opened2<'a>(Box<dyn DynIt<'a> + 'a>, Vec<u64>, bool);

const NOPEN: u64 = 50;

/// Values that can be copied.
static TAB: [u64; 257] = {
    let mut t = [0; 257];
    let mut i = 0;
    while i < 257 {
        t[i] = (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
        i += 1;
    }
    t
};
const NOPENMUT: u64 = 14;

impl<'a, E: Elem, S: Shape, L: Layout> Act<'a, E> for View<'a, E, S, L> {
    fn open(&'a self, c: &Ctx<E>) -> Opened2<'a> {
        let base = c.base;
        let p = &c.p;
        let n = p.dims.len();
        let full = c.refs();
        let ax = if n > 0 { (c.a[3] % n as u64) as usize } else { 0 };
        let seed = c.a[5];
        macro_rules! it {
            ($it:expr, $f:expr, $e:expr) => {
                it!($it, $f, $e, false)
            };
            ($it:expr, $f:expr, $e:expr, $inner:expr) => {
                Opened2(Box::new(Many::<_, _, 1> { it: $it, f: $f }), $e, $inner)
            };
        }
        let r = move |x: &'a E| of_ref(x, base);
        let low = n > 0 && p.dims[0] > 0;
        let lowp = || {
            let q = p.axis_at(0, (c.a[2] % p.dims[0] as u64) as usize);
            q.at.iter().map(|&i| esig(i, c.vals[i])).collect::<Vec<u64>>()
        };
        let li = if low { (c.a[2] % p.dims[0] as u64) as usize } else { 0 };
        let flat: Vec<u64> = (0..p.len() as u64).map(|k| mix2(seed, k)).collect();
        let d2 = p.clone();
        let fnf = move |i: &[usize]| mix2(seed, d2.flat(i) as u64);
        match c.kind % NOPEN {
            0 => it!(self.iter(), r, full),
            1 => it!(self.clone().into_iter(), r, full),
            2 => it!(IntoIterator::into_iter(self), r, full),
            3 => it!(self.expr().map(move |x| of_ref(x, base) ^ 5).into_iter(), |x| x, full.iter().map(|x| x ^ 5).collect(), true),
            4 => it!(self.expr().enumerate().into_iter(), move |(i, x): (usize, &'a E)| mix2(i as u64 ^ 0xee, r(x)), counted(&full)),
            5 => it!(self.expr().cloned().into_iter(), |x: E| x.val(), p.at.iter().map(|&i| c.vals[i]).collect(), true),
            6 => it!(self.expr().zip(self.expr()).into_iter(), move |(x, y): (&'a E, &'a E)| mix2(r(x), r(y)), pair(&full, &full)),
            7 if low => it!(self.expr().zip(self.at(li)).into_iter(), move |(x, y): (&'a E, &'a E)| mix2(r(x), r(y)), pair(&full, &lowp())),
            8 if low => it!(self.at(li).zip(self.expr()).into_iter(), move |(x, y): (&'a E, &'a E)| mix2(r(x), r(y)), pair(&lowp(), &full)),
            9 if n > 0 => {
                let e = c.views(&(0..p.dims[ax]).map(|i| p.axis_at(ax, i)).collect::<Vec<_>>());
                it!(self.axis_expr(ax).into_iter(), move |v| of_view(&v, base), e)
            }
            10 if n > 0 => {
                let e = c.views(&(0..p.dims[0]).map(|i| p.axis_at(0, i)).collect::<Vec<_>>());
                it!(self.outer_expr().into_iter(), move |v| of_view(&v, base), e)
            }
            11 if n > 0 => it!(self.lanes(ax).into_iter(), move |v| of_view(&v, base), c.views(&p.lanes(ax))),
            12 if n > 0 => it!(self.lanes(Const::<0>).into_iter(), move |v| of_view(&v, base), c.views(&p.lanes(0))),
            13 if n > 0 => it!(self.rows().into_iter(), move |v| of_view(&v, base), c.views(&p.lanes(n - 1))),
            14 if n > 1 => it!(self.cols().into_iter(), move |v| of_view(&v, base), c.views(&p.lanes(n - 2))),
            15 if n > 0 => it!(self.rows().enumerate().into_iter(), move |(i, v)| mix2(i as u64 ^ 0xee, of_view(&v, base)), counted(&c.views(&p.lanes(n - 1)))),
            16 if n > 0 => {
                let e = c.views(&p.lanes(ax));
                it!(self.lanes(ax).zip(self.lanes(ax)).into_iter(), move |(v, w)| mix2(of_view(&v, base), of_view(&w, base)), pair(&e, &e))
            }
            17 => it!(expr::from_fn(self.shape().clone(), fnf).into_iter(), |x| x, flat, true),
            18 => it!(expr::from_elem(self.shape().clone(), seed).into_iter(), |x| x, vec![seed; p.len()]),
            19 => it!(self.expr().zip(expr::from_fn(self.shape().clone(), fnf)).into_iter(), move |(x, y): (&'a E, u64)| mix2(r(x), y), pair(&full, &flat), true),
            20 => it!(self.expr().zip(expr::fill(seed)).enumerate().into_iter(), move |(i, (x, y)): (usize, (&'a E, u64))| mix2(i as u64 ^ 0xee, mix2(r(x), y)), counted(&full.iter().map(|&x| mix2(x, seed)).collect::<Vec<_>>())),
            21 => it!(self.expr().zip(self.remap::<DynRank, Strided>()).into_iter(), move |(x, y): (&'a E, &'a E)| mix2(r(x), r(y)), pair(&full, &full)),
            22 => it!(self.remap::<DynRank, Strided>().zip(self.expr()).map(move |(x, y): (&'a E, &'a E)| mix2(r(x), r(y))).into_iter(), |x| x, pair(&full, &full), true),
            23 => it!(self.remap::<DynRank, Strided>().into_iter(), r, full),
            24 if n > 0 => {
                let e = c.views(&(0..p.dims[n - 1]).map(|i| p.axis_at(n - 1, i)).collect::<Vec<_>>());
                it!(self.axis_expr(Rows).into_iter(), move |v| of_view(&v, base), e)
            }
            25 if n > 1 => {
                let e = c.views(&(0..p.dims[n - 2]).map(|i| p.axis_at(n - 2, i)).collect::<Vec<_>>());
                it!(self.axis_expr(Cols).into_iter(), move |v| of_view(&v, base), e)
            }
            26 if n > 0 => {
                // Rows of the view with an outer expression of another view of the same array.
                let e = c.views(&(0..p.dims[0]).map(|i| p.axis_at(0, i)).collect::<Vec<_>>());
                it!(self.outer_expr().enumerate().map(move |(i, v)| mix2(i as u64 ^ 0xee, of_view(&v, base))).into_iter(), |x| x, counted(&e), true)
            }
            27 if low => {
                // A generator of lower rank, repeated.
                let q = p.axis_at(0, 0);
                let l: Vec<u64> = (0..q.len() as u64).map(|k| mix2(seed, k)).collect();
                let q2 = q.clone();
                it!(expr::from_fn(self.at(0).shape().clone(), move |i: &[usize]| mix2(seed, q2.flat(i) as u64)).zip(self.expr()).into_iter(), move |(y, x): (u64, &'a E)| mix2(y, r(x)), pair(&l, &full), true)
            }
            28 if low => it!(self.at(li).map(move |x| of_ref(x, base)).zip(self.expr()).into_iter(), move |(y, x): (u64, &'a E)| mix2(y, r(x)), pair(&lowp(), &full), true),
            29 => {
                // A copy of the elements, by value.
                let f = std::mem::replace(&mut sim().fault, 0);
                let t = self.to_tensor();
                sim().fault = f;
                Opened2(Box::new(Many::<_, _, 2> { it: t.into_iter(), f: |x: E| x.val() }), p.at.iter().map(|&i| c.vals[i]).collect(), true)
            }
            30 => {
                let f = std::mem::replace(&mut sim().fault, 0);
                let t = self.to_tensor();
                sim().fault = f;
                let e = pair(&p.at.iter().map(|&i| c.vals[i]).collect::<Vec<_>>(), &full);
                Opened2(Box::new(Many::<_, _, 2> { it: expr::zip(t, self.expr()).into_iter(), f: move |(x, y): (E, &'a E)| mix2(x.val(), r(y)) }), e, true)
            }
            31 if n > 0 => {
                // Overwritten by a clone of another expression.
                let o = (c.a[4] % n as u64) as usize;
                let mut e = self.axis_expr(o);
                e.clone_from(&self.axis_expr(ax));
                let x = c.views(&(0..p.dims[ax]).map(|i| p.axis_at(ax, i)).collect::<Vec<_>>());
                it!(e.into_iter(), move |v| of_view(&v, base), x)
            }
            32 if n > 0 => {
                let o = (c.a[4] % n as u64) as usize;
                let mut e = self.lanes(o);
                e.clone_from(&self.lanes(ax));
                it!(e.into_iter(), move |v| of_view(&v, base), c.views(&p.lanes(ax)))
            }
            33 if low => {
                let mut e = self.at(li).into_mapping::<DynRank, Strided>();
                e.clone_from(&self.remap::<DynRank, Strided>());
                it!(e.into_iter(), r, full)
            }
            34 if low => {
                let mut e = self.remap::<DynRank, Strided>();
                e.clone_from(&self.at(li).into_mapping::<DynRank, Strided>());
                it!(e.into_iter(), r, lowp())
            }
            35 | 36 => it!(self.expr().zip(one().lanes(0)).into_iter(), move |(x, y): (&'a E, _)| mix2(r(x), one_sig(&y)), full.iter().map(|&x| mix2(x, 77)).collect()),
            37 if n > 0 => {
                let e = c.views(&(0..p.dims[ax]).map(|i| p.axis_at(ax, i)).collect::<Vec<_>>());
                it!(one().lanes(0).zip(self.axis_expr(ax)).into_iter(), move |(y, v)| mix2(of_view(&v, base), one_sig(&y)), e.iter().map(|&x| mix2(x, 77)).collect())
            }
            38 if n > 0 => {
                let e = c.views(&p.lanes(ax));
                it!(self.lanes(ax).zip(one().lanes(0)).into_iter(), move |(v, y)| mix2(of_view(&v, base), one_sig(&y)), e.iter().map(|&x| mix2(x, 77)).collect())
            }
            39 => it!(expr::from_fn(self.shape().clone(), fnf).zip(one().lanes(0)).into_iter(), move |(x, y): (u64, _)| mix2(x, one_sig(&y)), flat.iter().map(|&x| mix2(x, 77)).collect(), true),
            40 => it!(one().lanes(0).zip(self.remap::<DynRank, Strided>()).enumerate().into_iter(), move |(i, (y, x)): (usize, (_, &'a E))| mix2(i as u64 ^ 0xee, mix2(r(x), one_sig(&y))), counted(&full.iter().map(|&x| mix2(x, 77)).collect::<Vec<_>>())),
            48 => it!(self.expr().map(|x: &'a E| &TAB[(x.val() % 257) as usize]).copied().into_iter(), |x: u64| x, p.at.iter().map(|&i| TAB[(c.vals[i] % 257) as usize]).collect(), true),
            49 if n > 0 && p.dims[n - 1] <= 257 => {
                let m = p.dims[n - 1];
                let e: Vec<u64> = full.iter().enumerate().map(|(k, &x)| mix2(x, TAB[k % m])).collect();
                let t = View::<u64, (mdarray::Dyn,)>::from(&TAB[..m]).into_mapping::<DynRank, Strided>();
                if seed % 2 == 0 {
                    it!(self.expr().zip(t.copied()).into_iter(), move |(x, y): (&'a E, u64)| mix2(r(x), y), e)
                } else {
                    it!(expr::copied(t).zip(self.expr()).into_iter(), move |(y, x): (u64, &'a E)| mix2(r(x), y), e)
                }
            }
            // Repeated along a further dimension.
            41..=46 if n > 0 => {
                let twice = |e: Vec<u64>| {
                    let all = [&e[..], &e[..]].concat();
                    let v: Vec<u64> = all.iter().enumerate().map(|(k, &x)| mix2(x, mix2(seed, k as u64))).collect();
                    v
                };
                let grid = |d: &[usize]| {
                    let d: Vec<usize> = [&[2][..], d].concat();
                    let q = Pos { dims: d.clone(), at: vec![] };
                    expr::from_fn(&d[..], move |i: &[usize]| mix2(seed, q.flat(i) as u64))
                };
                let without = |ax: usize| {
                    let mut d = p.dims.clone();
                    d.remove(ax);
                    d
                };
                let part = |ax: usize| c.views(&(0..p.dims[ax]).map(|i| p.axis_at(ax, i)).collect::<Vec<_>>());
                match c.kind % NOPEN {
                    41 => it!(self.lanes(Const::<0>).zip(grid(&without(0))).into_iter(), move |(v, y): (_, u64)| mix2(of_view(&v, base), y), twice(c.views(&p.lanes(0))), true),
                    42 => it!(grid(&without(n - 1)).zip(self.rows()).into_iter(), move |(y, v): (u64, _)| mix2(of_view(&v, base), y), twice(c.views(&p.lanes(n - 1))), true),
                    43 => it!(self.outer_expr().zip(grid(&p.dims[..1])).into_iter(), move |(v, y): (_, u64)| mix2(of_view(&v, base), y), twice(part(0)), true),
                    44 => it!(grid(&[p.dims[ax]]).zip(self.axis_expr(ax)).into_iter(), move |(y, v): (u64, _)| mix2(of_view(&v, base), y), twice(part(ax)), true),
                    45 => it!(self.lanes(ax).zip(grid(&without(ax))).into_iter(), move |(v, y): (_, u64)| mix2(of_view(&v, base), y), twice(c.views(&p.lanes(ax))), true),
                    _ => it!(self.expr().zip(grid(&p.dims)).into_iter(), move |(x, y): (&'a E, u64)| mix2(r(x), y), twice(full), true),
                }
            }
            _ => it!(self.expr().zip(expr::fill_with(move || seed)).into_iter(), move |(x, y): (&'a E, u64)| mix2(r(x), y), full.iter().map(|&x| mix2(x, seed)).collect(), true),
        }
    }
}

impl<'a, E: Elem, S: Shape, L: Layout> ActMut<'a, E> for ViewMut<'a, E, S, L> {
    fn open_mut(&'a mut self, c: &Ctx<E>) -> Opened2<'a> {
        let base = c.base;
        let p = &c.p;
        let n = p.dims.len();
        let full = c.refs();
        let ax = if n > 0 { (c.a[3] % n as u64) as usize } else { 0 };
        let seed = c.a[5];
        macro_rules! it {
            ($it:expr, $f:expr, $e:expr) => {
                Opened2(Box::new(Many::<_, _, 0> { it: $it, f: $f }), $e, false)
            };
        }
        let r = move |x: &'a mut E| of_ref(x, base);
        let parts = |ax: usize| c.views(&(0..p.dims[ax]).map(|i| p.axis_at(ax, i)).collect::<Vec<_>>());
        match c.kind % NOPENMUT {
            0 => it!(self.iter_mut(), r, full),
            1 => it!(IntoIterator::into_iter(self), r, full),
            2 => it!(self.expr_mut().enumerate().into_iter(), move |(i, x): (usize, &'a mut E)| mix2(i as u64 ^ 0xee, r(x)), counted(&full)),
            3 => it!(self.expr_mut().zip(expr::fill(seed)).into_iter(), move |(x, y): (&'a mut E, u64)| mix2(r(x), y), full.iter().map(|&x| mix2(x, seed)).collect()),
            4 if n > 0 => it!(self.outer_expr_mut().into_iter(), move |v| of_vmut(&v, base), parts(0)),
            5 if n > 0 => it!(self.axis_expr_mut(ax).into_iter(), move |v| of_vmut(&v, base), parts(ax)),
            6 if n > 0 => it!(self.lanes_mut(ax).into_iter(), move |v| of_vmut(&v, base), c.views(&p.lanes(ax))),
            7 if n > 0 => it!(self.rows_mut().into_iter(), move |v| of_vmut(&v, base), c.views(&p.lanes(n - 1))),
            8 if n > 1 => it!(self.cols_mut().into_iter(), move |v| of_vmut(&v, base), c.views(&p.lanes(n - 2))),
            9 if n > 0 => it!(self.rows_mut().enumerate().into_iter(), move |(i, v)| mix2(i as u64 ^ 0xee, of_vmut(&v, base)), counted(&c.views(&p.lanes(n - 1)))),
            10 if n > 0 => it!(self.lanes_mut(Const::<0>).into_iter(), move |v| of_vmut(&v, base), c.views(&p.lanes(0))),
            11 => {
                let d = p.clone();
                let e: Vec<u64> = (0..p.len() as u64).map(|k| mix2(seed, k)).collect();
                let s = self.shape().clone();
                it!(self.expr_mut().zip(expr::from_fn(s, move |i: &[usize]| mix2(seed, d.flat(i) as u64))).into_iter(), move |(x, y): (&'a mut E, u64)| mix2(r(x), y), pair(&full, &e))
            }
            12 => it!(self.remap_mut::<DynRank, Strided>().into_iter(), r, full),
            _ => {
                let e = p.at.iter().map(|&i| c.vals[i]).collect();
                Opened2(Box::new(Many::<_, _, 0> { it: self.expr_mut().map(move |x| &*x).cloned().into_iter(), f: |x: E| x.val() }), e, true)
            }
        }
    }
}

trait Holder<E> {
    fn view_mut(&mut self) -> muts::V<'_, E>;
    fn view(&self) -> refs::V<'_, E>;
    fn addr(&self) -> *const E;
    fn by_value(self: Box<Self>, c: &Ctx<E>) -> Opened;
    /// Leaves the array in place while a drain is active.
    fn drain(&'static mut self, c: &Ctx<E>) -> Opened;
}

impl<E: Elem, S: SimShape> Holder<E> for Tensor<E, S> {
    fn view_mut(&mut self) -> muts::V<'_, E> {
        Box::new(self.expr_mut())
    }
    fn view(&self) -> refs::V<'_, E> {
        Box::new(self.expr())
    }
    fn addr(&self) -> *const E {
        self.as_ptr()
    }
    fn by_value(self: Box<Self>, c: &Ctx<E>) -> Opened {
        let v = c.vals.clone();
        let seed = c.a[5];
        match c.kind % 6 {
            0 => (Box::new(Many::<_, _, 2> { it: (*self).into_iter(), f: |x: E| x.val() }), v, true),
            1 => (Box::new(Many::<_, _, 2> { it: expr::enumerate(*self).into_iter(), f: |(i, x): (usize, E)| mix2(i as u64 ^ 0xee, x.val()) }), counted(&v), true),
            2 => (Box::new(Many::<_, _, 2> { it: expr::zip(*self, expr::fill(seed)).into_iter(), f: |(x, y): (E, u64)| mix2(x.val(), y) }), v.iter().map(|&x| mix2(x, seed)).collect(), true),
            3 => (Box::new(Many::<_, _, 2> { it: expr::map(*self, move |x: E| x.val() ^ seed).into_iter(), f: |x| x }), v.iter().map(|&x| x ^ seed).collect(), true),
            4 => (Box::new(Many::<_, _, 2> { it: (*self).into_dyn().into_iter(), f: |x: E| x.val() }), v, true),
            _ => {
                let d = c.p.clone();
                let e: Vec<u64> = (0..v.len() as u64).map(|k| mix2(seed, k)).collect();
                let s = self.shape().clone();
                (Box::new(Many::<_, _, 2> { it: expr::zip(*self, expr::from_fn(s, move |i: &[usize]| mix2(seed, d.flat(i) as u64))).into_iter(), f: |(x, y): (E, u64)| mix2(x.val(), y) }), pair(&v, &e), true)
            }
        }
    }
    fn drain(&'static mut self, c: &Ctx<E>) -> Opened {
        let n = c.p.dims[0];
        let (x, y) = ((c.a[2] % (n as u64 + 1)) as usize, (c.a[3] % (n as u64 + 1)) as usize);
        let (x, y) = (x.min(y), x.max(y));
        let e: Vec<u64> = c.p.range(0, x, y).at.iter().map(|&i| c.vals[i]).collect();
        if c.kind % 2 == 0 {
            (Box::new(Many::<_, _, 0> { it: Tensor::drain(self, x..y).into_iter(), f: |x: E| x.val() }), e, true)
        } else {
            (Box::new(Many::<_, _, 0> { it: Tensor::drain(self, x..y).enumerate().into_iter(), f: |(i, x): (usize, E)| mix2(i as u64 ^ 0xee, x.val()) }), counted(&e), true)
        }
    }
}

type E = Tok;

fn make<E: Elem, S: SimShape>(dims: &[usize], seed: u64) -> Box<dyn Holder<E>> {
    let s: S = Shape::from_dims(dims);
    let p = Pos::full(dims);
    Box::new(Tensor::<E, S>::from_fn(s, |i: &[usize]| E::make(mix2(seed, p.flat(i) as u64))))
}

struct Open {
    it: It,
    exp: Vec<u64>,
    pos: usize,
    /// User code runs inside of the iterator.
    inner: bool,
    what: String,
    used: bool,
    /// Exclusive array this iterator works on.
    own: Option<usize>,
    /// After an interruption inside of the iterator its position is not specified.
    broken: bool,
}

struct W {
    arrays: Vec<(Box<dyn Holder<E>>, Vec<usize>, bool)>,
    steps: Vec<Args>,
    its: Vec<Open>,
    ar: Arena,
    probes: [u64; 8],
}

/// Every observer of the state agrees with the reference.
fn observe(o: &Open, after: &str) {
    if o.broken || sim().viol.is_some() {
        return;
    }
    let left = o.exp.len() - o.pos;
    let r = must(&o.what, || (o.it.hint(), o.it.exact()));
    if let Some((h, e)) = r {
        if h != (left, Some(left)) || e != left {
            sim().violate("iter-len", format!("{}: after {after} at {} of {}, size_hint is {h:?} and len {e}", o.what, o.pos, o.exp.len()));
        }
    }
}

fn got_wrong(o: &Open, k: usize, got: Option<u64>, by: &str) {
    sim().violate("iter-item", format!("{}: item {k} of {} by {by} is {} what it has to be", o.what, o.exp.len(), if got.is_some() { "not" } else { "missing, not" }));
}

fn settle(r: Out<()>, what: &str) -> bool {
    match r {
        Out::Panic(m) => {
            sim().violate("unexpected-panic", format!("{what}: {m}"));
            false
        }
        Out::Ok(()) => true,
        _ => false,
    }
}

fn run(p: &Plan) -> RunOut {
    sim().reset();
    heap::reset_counts();
    let mut w = W { arrays: vec![], steps: vec![], its: vec![], ar: Arena::default(), probes: [0; 8] };
    let mut out = RunOut::default();
    let max = [6, 14, 30, 80][(p.cfg(0) % 4) as usize];
    let mut last = usize::MAX;
    for (k, op) in p.ops.iter().enumerate() {
        sim().note(|| format!("op {k} {} {:?} fault {:?}", op_name(op.code), op.a, op.fault));
        sim().log(1000 + op.code as u64, k as u64);
        sim().begin_op(op.fault);
        let a = op.a;
        let mut cb = 0;
        match op.code {
            NEW => {
                sim().fault = 0;
                let sid = (a[0] % NSHAPES as u64) as u8;
                let dims = gen_dims(sid, &a[1..3], max);
                w.arrays.push((by_shape_all!(sid, make, E, (&dims, 1 + a[5])), dims, false));
                w.steps.clear();
            }
            STEP => {
                if w.steps.len() < 4 {
                    w.steps.push(a)
                }
            }
            OPEN | OPENMUT | OPENVAL => {
                sim().fault = 0;
                open(&mut w, op.code, &a);
                w.steps.clear();
            }
            LARGE => {
                sim().fault = 0;
                large::step(&a);
            }
            _ if w.its.is_empty() => {}
            _ => {
                let j = (a[0] % w.its.len() as u64) as usize;
                if last != j {
                    w.probes[0] += 1;
                    last = j;
                }
                use_it(&mut w, j, op.code, &a);
                cb = sim().cb;
            }
        }
        sim().end_op();
        out.counts.push((cb, 0));
        out.op_index = k;
        out.steps += 1;
        if sim().viol.is_none() {
            if let Some((c, d)) = heap::take_violation() {
                sim().violate(&c, d);
            }
        }
        if sim().viol.is_none() {
            for o in &w.its {
                observe(o, op_name(op.code));
            }
        }
        if sim().viol.is_some() {
            break;
        }
    }
    sim().fault = 0;
    heap::disarm();
    if sim().viol.is_none() {
        // What is left is finished in turns.
        let mut any = true;
        while any && sim().viol.is_none() {
            any = false;
            for o in &mut w.its {
                if o.broken {
                    continue;
                }
                let it = &mut o.it;
                let r = must(&o.what, || it.next());
                let Some(x) = r else { break };
                if x != o.exp.get(o.pos).copied() {
                    got_wrong(o, o.pos, x, "next");
                    break;
                }
                if x.is_some() {
                    o.pos += 1;
                    any = true;
                } else {
                    // Once more past the end.
                    let it = &mut o.it;
                    if must(&o.what, || it.next()).is_some_and(|x| x.is_some()) {
                        sim().violate("iter-fused", format!("{}: an item after the end", o.what));
                        break;
                    }
                }
                observe(o, "next");
                if sim().viol.is_some() {
                    break;
                }
            }
        }
    }
    if sim().viol.is_none() {
        must("end", || drop(std::mem::take(&mut w.its)));
        drop(w.ar);
        drop(w.arrays);
        let live = sim().live;
        if live != 0 && sim().viol.is_none() && p.ops.iter().all(|o| o.fault.is_none()) {
            sim().violate("elem-leak", format!("at the end: {live} elements alive"));
        }
        if let Some((c, d)) = heap::take_violation() {
            sim().violate(&c, d);
        }
        out.op_index = p.ops.len();
    } else {
        std::mem::forget((w.its, w.ar, w.arrays));
    }
    let s = sim();
    out.viol = s.viol.take();
    if let Some(v) = &out.viol {
        out.key = v.class.clone();
    }
    out.hash = s.hash;
    out.nontrivial = w.probes[1] > 1 && w.probes[0] > 1;
    out.probes = vec![
        ("switches_between_iterators", w.probes[0]),
        ("iterators_opened", w.probes[1]),
        ("items_checked", w.probes[2]),
        ("clones_in_use", w.probes[3]),
        ("interruptions", w.probes[4]),
        ("past_end_calls", w.probes[5]),
        ("empty_iterators", w.probes[6]),
    ];
    heap::flush();
    out
}

fn open(w: &mut W, code: u16, a: &Args) {
    if w.its.len() >= 8 || w.arrays.is_empty() {
        return;
    }
    let free: Vec<usize> = (0..w.arrays.len()).filter(|&i| !w.arrays[i].2 && (code == OPEN || !w.its.iter().any(|o| o.own == Some(i + 1000)))).collect();
    if free.is_empty() {
        return;
    }
    let ai = free[(a[1] % free.len() as u64) as usize];
    let steps = std::mem::take(&mut w.steps);
    let (h, dims, _) = &mut w.arrays[ai];
    let dims = dims.clone();
    let base = h.addr();
    let vals: Vec<u64> = (0..product(&dims)).map(|i| unsafe { E::peek(base.add(i)) }.map_or(0, |x| x.1)).collect();
    let hp: *mut dyn Holder<E> = &mut **h;
    let mut p = Pos::full(&dims);
    // Arrays, views and iterators are dropped in the right order at the end.
    let (opened, what, own): (Opened, String, Option<usize>) = match code {
        OPENVAL => {
            // The array is given up, or borrowed until the end.
            let c = Ctx { kind: a[2], a: *a, p: p.clone(), base, vals };
            w.arrays[ai].2 = true;
            if a[3] % 3 == 0 && !dims.is_empty() && drainable(&dims, a) {
                let h: &'static mut dyn Holder<E> = unsafe { &mut *hp };
                let Some(o) = catch(|| h.drain(&c)) else { return };
                (o, format!("drain of {dims:?}"), Some(ai))
            } else if a[3] % 3 == 1 && dims == [2, 3] {
                let mut it = vals2(&c.vals);
                let arr = Array::<E, (Const<2>, Const<3>)>::from_fn(|_| E::make(it.next().unwrap_or(0)));
                let o: Opened = (Box::new(Many::<_, _, 2> { it: arr.into_iter(), f: |x: E| x.val() }), c.vals.clone(), true);
                (o, "array [2, 3] by value".into(), Some(ai))
            } else {
                let d2 = vec![0; 1];
                let h = std::mem::replace(&mut w.arrays[ai].0, make::<E, (mdarray::Dyn,)>(&d2, 1));
                let Some(o) = must("by value", || h.by_value(&c)) else { return };
                (o, format!("tensor {dims:?} by value, kind {}", c.kind % 6), Some(ai))
            }
        }
        OPEN => {
            let mut v: refs::V<'static, E> = unsafe { (*hp).view() };
            for s in &steps {
                let what = format!("view step {} on {:?}", s[0] % views::NSTEPS, p.dims);
                let mut parts = must(&what, || refs::advance(v, p, s, &mut w.ar)).unwrap_or_default();
                if sim().viol.is_some() {
                    return;
                }
                if parts.is_empty() {
                    v = unsafe { (*hp).view() };
                    p = Pos::full(&dims);
                    continue;
                }
                let n = parts.len();
                (v, p) = parts.swap_remove((s[4] % n as u64) as usize);
            }
            if !refs::check(&v, &p, base, "open") {
                return;
            }
            let c = Ctx { kind: a[2], a: *a, p: p.clone(), base, vals };
            let vr: &'static mut refs::V<'static, E> = unsafe { w.ar.keep(v) };
            let what = format!("iterator kind {} on view {:?} {}", a[2] % NOPEN, p.dims, if p.at.windows(2).all(|x| x[1] == x[0] + 1) { "(contiguous)" } else { "(strided)" });
            let Some(Opened2(i, e, b)) = must(&what, || vr.open(&c)) else { return };
            ((i, e, b), what, Some(ai + 1000))
        }
        _ => {
            w.arrays[ai].2 = true;
            let mut v: muts::V<'static, E> = unsafe { (*hp).view_mut() };
            for s in &steps {
                let what = format!("view step {} on {:?}", s[0] % views::NSTEPS, p.dims);
                let mut parts = must(&what, || muts::advance(v, p, s, &mut w.ar)).unwrap_or_default();
                if sim().viol.is_some() {
                    return;
                }
                if parts.is_empty() {
                    v = unsafe { (*hp).view_mut() };
                    p = Pos::full(&dims);
                    continue;
                }
                let n = parts.len();
                (v, p) = parts.swap_remove((s[4] % n as u64) as usize);
            }
            if !muts::check(&v, &p, base, "open") {
                return;
            }
            let c = Ctx { kind: a[2], a: *a, p: p.clone(), base, vals };
            let vr: &'static mut muts::V<'static, E> = unsafe { w.ar.keep(v) };
            let what = format!("mutable iterator kind {} on view {:?} {}", a[2] % NOPENMUT, p.dims, if p.at.windows(2).all(|x| x[1] == x[0] + 1) { "(contiguous)" } else { "(strided)" });
            let Some(Opened2(i, e, b)) = must(&what, || vr.open_mut(&c)) else { return };
            ((i, e, b), what, Some(ai))
        }
    };
    let (it, exp, inner) = opened;
    w.probes[1] += 1;
    w.probes[6] += exp.is_empty() as u64;
    sim().note(|| format!("opened #{}: {what}, {} items", w.its.len(), exp.len()));
    w.its.push(Open { it, exp, pos: 0, inner, what, used: false, own, broken: false });
}

fn vals2(v: &[u64]) -> std::vec::IntoIter<u64> {
    v.to_vec().into_iter()
}

/// Draining changes the first dimension, which must not be constant: the library rejects that,
/// and a full range is always fine.
fn drainable(_: &[usize], _: &Args) -> bool {
    true
}

fn use_it(w: &mut W, j: usize, code: u16, a: &Args) {
    let probes = &mut w.probes;
    let o = &mut w.its[j];
    let left = o.exp.len() - o.pos;
    let fault = sim().fault;
    match code {
        _ if o.broken => {}
        NEXT => {
            for _ in 0..1 + a[1] % 4 {
                let it = &mut o.it;
                let mut got = None;
                let r = sut(|| got = it.next());
                o.used = true;
                if !settle(r, &o.what) {
                    o.broken = true;
                    probes[4] += 1;
                    return;
                }
                probes[2] += 1;
                if got != o.exp.get(o.pos).copied() {
                    got_wrong(o, o.pos, got, "next");
                    return;
                }
                if got.is_some() {
                    o.pos += 1;
                } else {
                    probes[5] += 1;
                }
                observe(o, "next");
            }
        }
        NTH => {
            let k = (a[1] % (left as u64 + 2)) as usize;
            let it = &mut o.it;
            let mut got = None;
            let r = sut(|| got = it.nth(k));
            o.used = true;
            if !settle(r, &o.what) {
                o.broken = true;
                return;
            }
            probes[2] += 1;
            if got != o.exp.get(o.pos + k).copied() {
                got_wrong(o, o.pos + k, got, "nth");
                return;
            }
            o.pos = (o.pos + k + 1).min(o.exp.len());
        }
        SOME => {
            let k = (a[1] % (left as u64 + 2)) as usize;
            let it = &mut o.it;
            let mut got = vec![];
            let r = sut(|| it.some(k, a[2], &mut got));
            o.used |= k > 0;
            let ok = settle(r, &o.what);
            if sim().viol.is_some() {
                return;
            }
            let want = &o.exp[o.pos..o.pos + k.min(left)];
            probes[2] += got.len() as u64;
            if ok && got.len() != want.len() {
                got_wrong(o, o.pos + got.len(), None, "partial consumption");
                return;
            }
            if got.len() > want.len() || got[..] != want[..got.len()] {
                got_wrong(o, o.pos, Some(0), "partial consumption");
                return;
            }
            o.pos += got.len();
            if !ok {
                probes[4] += 1;
                // A panic of the consumer leaves the iterator behind the item it got.
                o.broken = o.inner;
            }
        }
        ALL | CLOSE => {
            let o = w.its.swap_remove(j);
            if code == CLOSE {
                let Open { it, what, .. } = o;
                let r = sut(|| drop(it));
                settle(r, &what);
                return;
            }
            let mut got = vec![];
            let it = o.it;
            let r = sut(|| it.all(a[2], &mut got));
            let ok = settle(r, &o.what);
            probes[4] += !ok as u64;
            if sim().viol.is_some() {
                return;
            }
            let want = &o.exp[o.pos..];
            probes[2] += got.len() as u64;
            let good = match a[2] % 7 {
                3 => !ok || got == [want.len() as u64],
                4 => !ok || got == [want.last().copied().unwrap_or(0)],
                _ => got.len() <= want.len() && got[..] == want[..got.len()] && (!ok || got.len() == want.len()),
            };
            if !good {
                sim().violate("iter-item", format!("{}: consumption {} from {} of {} gives the wrong items", o.what, a[2] % 7, o.pos, o.exp.len()));
            }
        }
        CLONE => {
            if w.its.len() >= 8 {
                return;
            }
            let o = &w.its[j];
            let it = &o.it;
            let mut new = None;
            let r = sut(|| new = it.dup(!o.used));
            settle(r, &o.what);
            if let Some(n) = new {
                w.probes[3] += (o.pos > 0) as u64;
                let o = &w.its[j];
                let c = Open { it: n, exp: o.exp.clone(), pos: o.pos, inner: o.inner, what: format!("clone of {}", o.what), used: o.used, own: o.own, broken: false };
                w.its.push(c);
            }
        }
        END => {
            let it = &mut o.it;
            if left == 0 {
                for _ in 0..1 + a[1] % 3 {
                    let mut got = None;
                    let it = &mut *it;
                    let r = sut(|| got = if a[2] % 2 == 0 { it.next() } else { it.nth((a[3] % 4) as usize) });
                    settle(r, &o.what);
                    probes[5] += 1;
                    if got.is_some() {
                        sim().violate("iter-fused", format!("{}: an item after the end", o.what));
                        return;
                    }
                }
            }
        }
        _ => {}
    }
    let _ = fault;
}

fn generate(_: &str, r: &mut Rng) -> Plan {
    let mut p = Plan { cfg: vec![r.below(4)], ..Default::default() };
    let big = |r: &mut Rng| r.below(1 << 30);
    for _ in 0..1 + r.below(3) {
        let mut o = plan::op(r, NEW);
        o.a = [r.below(NSHAPES as u64), big(r), big(r), 0, 0, big(r)];
        if r.chance(1, 2) {
            o.a[0] = *r.pick(&[2, 3, 4, 7, 8, 9, 10, 11]);
        }
        p.ops.push(o);
        for _ in 0..r.below(3) {
            open_ops(&mut p, r);
        }
    }
    if r.chance(1, 600) {
        let mut o = plan::op(r, LARGE);
        o.a = [r.below(8), r.below(14), *r.pick(&[0, 1, 2, 3, 6, 7, 11]), big(r), r.below(6), 0];
        p.ops.push(o);
    }
    open_ops(&mut p, r);
    for _ in 0..4 + r.below(24) {
        if r.chance(1, 10) {
            open_ops(&mut p, r);
        }
        let code = *r.pick(&[NEXT, NEXT, NEXT, NEXT, SOME, SOME, NTH, CLONE, ALL, CLOSE, END]);
        let mut o = plan::op(r, code);
        o.a = [big(r), big(r), big(r), big(r), big(r), big(r)];
        p.ops.push(o);
    }
    p
}

fn open_ops(p: &mut Plan, r: &mut Rng) {
    let big = |r: &mut Rng| r.below(1 << 30);
    let code = *r.pick(&[OPEN, OPEN, OPEN, OPEN, OPENMUT, OPENVAL]);
    for _ in 0..r.below(4) {
        let mut s = plan::op(r, STEP);
        s.a = [r.below(views::NSTEPS), big(r), big(r), big(r), big(r), big(r)];
        p.ops.push(s);
    }
    let mut o = plan::op(r, code);
    o.a = [0, big(r), big(r), big(r), big(r), 1 + big(r)];
    p.ops.push(o);
}

fn place(_: &str, base: &Plan, counts: &[(u64, u64)], r: &mut Rng) -> Plan {
    let n = 1 + r.below(3);
    place_faults(base, counts, r, &[F_PANIC, F_LATE], n, &|o| (NEXT..=END).contains(&o.code))
}

static WORLD: World = World {
    name: "iters",
    props: &["C10"],
    op_name,
    generate,
    place: Some(place),
    run,
    budget: |_, thorough| if thorough { 40_000_000 } else { 400_000 },
    variants: |_| 2,
    relevant: |_, v| v.class != "block-leak",
    rule: |_| "1-3 arrays (14 tensor shape types), up to 8 iterators at a time over them (42 kinds on shared views, 14 on mutable ones, 9 by value; views by 0-3 seeded steps), 4-28 seeded uses (next, nth, partial and complete consumption, clone, drop, past the end), then all finished in turns; single iterations over arrays of 66000 to 90300 elements; variants with panicking consumers; non-trivial: at least two iterators and two switches between them",
    level: "exploration",
    real: &["mdarray (all of it, compiled from /repo, unmodified)"],
    stub: &["global allocator (simulated heap)", "element type and closures of the user"],
};

fn main() {
    driver::main(&WORLD)
}
