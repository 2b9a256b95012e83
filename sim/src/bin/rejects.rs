//! World "rejects": chains of mutable views on an array, then requests that break their
//! preconditions. Each has to be refused, with the array as it was and the view still usable.

use mdarray::expr::{self, Apply, Expression};
use mdarray::index::{Cols, Rows};
use mdarray::{Array, Const, Dense, Dyn, DynRank, Layout, Rank, Shape, Strided, Tensor, View, ViewMut, step};
use mdsim::arrs::*;
use mdsim::driver::{self, RunOut, World};
use mdsim::elem::*;
use mdsim::heap;
use mdsim::model::*;
use mdsim::plan::{self, Plan};
use mdsim::rng::{Rng, mix2};
use mdsim::sim::*;
use mdsim::by_shape_all;
use std::ops::Bound;

#[path = "../views.rs"]
mod views;
use views::{Arena, Args, Pos, muts};

const NEW: u16 = 1;
const STEP: u16 = 2;
const RESET: u16 = 3;
const REJECT: u16 = 4;
const ARRAY: u16 = 5;

fn op_name(c: u16) -> &'static str {
    match c {
        NEW => "new",
        STEP => "view_step",
        RESET => "whole_array",
        REJECT => "invalid_request",
        ARRAY => "array",
        _ => "end",
    }
}

pub trait Act<'a, E> {}
impl<'a, E, S: Shape, L: Layout> Act<'a, E> for View<'a, E, S, L> {}

/// One invalid request.
pub struct Ctx<E> {
    kind: u64,
    a: Args,
    p: Pos,
    /// Operand whose dimensions do not fit, and one of lower rank.
    src: Tensor<E, DynRank>,
    low: Tensor<E, DynRank>,
    what: &'static str,
    detail: String,
    out: Option<Out<()>>,
    /// Arguments were refused without a panic.
    returned: bool,
}

pub trait ActMut<'a, E> {
    fn reject(&mut self, c: &mut Ctx<E>);
}

const NREJ: u64 = 44;

fn gval(seed: u64, k: usize) -> u64 {
    mix2(seed, k as u64 + 11)
}

/// A number that is too large: just beyond, or far beyond.
fn beyond(n: usize, x: u64) -> usize {
    match x % 8 {
        0..=3 => n,
        4 => n + 1,
        5 => n + 1 + (x >> 8) as usize % 7,
        6 => usize::MAX,
        _ => 1 << (32 + (x >> 8) % 32),
    }
}

/// Bounds of a range that does not lie within `n` elements.
#[derive(Clone, Copy, Debug)]
enum BadRange {
    Range(usize, usize),
    From(usize),
    Incl(usize, usize),
    To(usize),
    ToIncl(usize),
    Bounds(Bound<usize>, Bound<usize>),
    StepRange(usize, usize, isize),
    StepFrom(usize, isize),
    StepZero,
    Index(usize),
}

fn bad_range(n: usize, x: u64, y: u64) -> BadRange {
    use BadRange::*;
    let inner = if n > 0 { (y % (n as u64 + 1)) as usize } else { 0 };
    let over = match y % 4 {
        0 => usize::MAX,
        1 => n + 2 + (y >> 10) as usize % 5,
        _ => n + 1,
    };
    let st = [1, -1, 2, -2, 3, -3, isize::MAX, isize::MIN][(y >> 20) as usize % 8];
    match x % 22 {
        0 => Range(inner, over),
        1 if n > 0 => {
            // Start behind the end, both within the bounds.
            let e = (y >> 5) as usize % n;
            Range(e + 1 + (y >> 15) as usize % (n - e), e)
        }
        2 => Range(over, over),
        3 => From(over),
        4 => Incl(inner, over - 1),
        5 => Incl(0, usize::MAX),
        6 if n > 1 => Incl(n - 1, (y >> 5) as usize % (n - 1)).fix(),
        7 => To(over),
        8 => ToIncl(over - 1),
        9 => ToIncl(usize::MAX),
        10 => Bounds(Bound::Excluded(usize::MAX), Bound::Unbounded),
        11 => Bounds(Bound::Excluded(n), Bound::Unbounded),
        12 => Bounds(Bound::Included(inner), Bound::Included(over - 1)),
        13 if n > 0 => Bounds(Bound::Excluded(n - 1), Bound::Excluded(n - 1)),
        14 => Bounds(Bound::Unbounded, Bound::Excluded(over)),
        15 => StepRange(inner, over, st),
        16 => StepFrom(over, st),
        17 if n > 0 => {
            let e = (y >> 5) as usize % n;
            StepRange(e + 1, e, st)
        }
        18 if n > 0 => StepZero,
        _ => Index(beyond(n, y)),
    }
}

impl BadRange {
    /// `a..=b` with `a == b + 1` is a valid empty range.
    fn fix(self) -> BadRange {
        match self {
            BadRange::Incl(a, b) if a <= b + 1 => BadRange::Incl(b + 2, b),
            x => x,
        }
    }
}

impl<'a, E: Elem, S: Shape, L: Layout> ActMut<'a, E> for ViewMut<'a, E, S, L> {
    fn reject(&mut self, c: &mut Ctx<E>) {
        let a = c.a;
        let p = c.p.clone();
        let n = p.dims.len();
        let len = p.len();
        let x = mix2(a[2], 3) >> 8;
        let y = mix2(a[2], 5) >> 8;
        let form = mix2(a[2], 7) >> 8;
        // An axis, and one of the dimensions.
        let ax = if n > 0 { (a[1] % n as u64) as usize } else { 0 };
        let size = if n > 0 { p.dims[ax] } else { 0 };
        let dense = p.at.is_empty() || (1..len).all(|k| p.at[k] == p.at[0] + k);
        macro_rules! bad {
            ($what:expr, $($arg:expr),* ; $f:expr) => {{
                c.what = $what;
                c.detail = format!("{:?}", ($(&$arg,)*));
                c.out = Some(sut(|| {
                    let _ = $f;
                }));
            }};
        }
        // The same request on the slice, mutable or not, and by value.
        macro_rules! forms {
            ($what:expr, $($arg:expr),* ; $m:ident, $r:ident, $i:ident ($($v:expr),*)) => {
                match form % 4 {
                    0 => bad!(concat!($what, "_mut"), $($arg),* ; self.$m($($v),*)),
                    1 => bad!($what, $($arg),* ; self.$r($($v),*)),
                    2 => bad!(concat!("into_", $what, " (mut)"), $($arg),* ; self.expr_mut().$i($($v),*)),
                    _ => bad!(concat!("into_", $what), $($arg),* ; self.expr().$i($($v),*)),
                }
            };
        }
        macro_rules! two {
            ($what:expr, $($arg:expr),* ; $m:ident, $r:ident ($($v:expr),*)) => {
                match form % 2 {
                    0 => bad!(concat!($what, "_mut"), $($arg),* ; self.$m($($v),*)),
                    _ => bad!($what, $($arg),* ; self.$r($($v),*)),
                }
            };
        }
        match c.kind {
            0 => {
                let i = if n == 0 { 0 } else { beyond(p.dims[0], x) };
                forms!("at", i; at_mut, at, into_at(i))
            }
            1 => {
                // Dimension or index out of range.
                let (k, i) = if n == 0 || y % 3 == 0 { (beyond(n, x), 0) } else { (ax, beyond(size, x)) };
                forms!("axis_at", k, i; axis_at_mut, axis_at, into_axis_at(k, i))
            }
            2 => {
                let i = if n == 0 { 0 } else { beyond(p.dims[n - 1], x) };
                forms!("axis_at Rows", i; axis_at_mut, axis_at, into_axis_at(Rows, i))
            }
            3 => {
                let i = if n < 2 { 0 } else { beyond(p.dims[n - 2], x) };
                forms!("axis_at Cols", i; axis_at_mut, axis_at, into_axis_at(Cols, i))
            }
            4 => {
                let i = if n < 2 { 0 } else { beyond(p.dims[1], x) };
                forms!("axis_at Const<1>", i; axis_at_mut, axis_at, into_axis_at(Const::<1>, i))
            }
            5 => {
                let i = if n < 3 { 0 } else { beyond(p.dims[2], x) };
                forms!("axis_at Const<2>", i; axis_at_mut, axis_at, into_axis_at(Const::<2>, i))
            }
            6 => {
                let i = if n == 0 { 0 } else { beyond(p.dims[0] + 1, x) };
                forms!("split_at", i; split_at_mut, split_at, into_split_at(i))
            }
            7 => {
                let (k, i) = if n == 0 || y % 3 == 0 { (beyond(n, x), 0) } else { (ax, beyond(size + 1, x)) };
                forms!("split_axis_at", k, i; split_axis_at_mut, split_axis_at, into_split_axis_at(k, i))
            }
            8 => {
                let i = if n == 0 { 0 } else { beyond(p.dims[n - 1] + 1, x) };
                forms!("split_axis_at Rows", i; split_axis_at_mut, split_axis_at, into_split_axis_at(Rows, i))
            }
            9 => {
                let i = if n < 2 { 0 } else { beyond(p.dims[n - 2] + 1, x) };
                forms!("split_axis_at Cols", i; split_axis_at_mut, split_axis_at, into_split_axis_at(Cols, i))
            }
            10 => {
                let i = if n < 2 { 0 } else { beyond(p.dims[1] + 1, x) };
                forms!("split_axis_at Const<1>", i; split_axis_at_mut, split_axis_at, into_split_axis_at(Const::<1>, i))
            }
            11 | 12 => {
                // Not a permutation.
                let mut q = views::perm(n, y);
                match x % 6 {
                    0 if n >= 2 => q[ax] = q[(ax + 1) % n],
                    1 if n >= 1 => q[ax] = n,
                    2 if n >= 1 => q[ax] = n + 1 + (y % 70) as usize,
                    3 if n >= 1 => {
                        q.pop();
                    }
                    4 if n >= 2 => q.insert(ax, q[ax]),
                    5 if n >= 1 => q[ax] += 64,
                    _ => q.push(n),
                }
                match (q.len(), y % 2) {
                    (1, 0) => forms!("permute [1]", q; permute_mut, permute, into_permuted([q[0]])),
                    (2, 0) => forms!("permute [2]", q; permute_mut, permute, into_permuted([q[0], q[1]])),
                    (3, 0) => forms!("permute [3]", q; permute_mut, permute, into_permuted([q[0], q[1], q[2]])),
                    _ => forms!("permute", q; permute_mut, permute, into_permuted(&q[..])),
                }
            }
            13 => {
                // Permutations known at compile time that are none.
                if n == 2 {
                    match x % 3 {
                        0 => forms!("permute (0, 0)", 0; permute_mut, permute, into_permuted((Const::<0>, Const::<0>))),
                        1 => forms!("permute (1, 1)", 0; permute_mut, permute, into_permuted((Const::<1>, Const::<1>))),
                        _ => forms!("permute (0)", 0; permute_mut, permute, into_permuted((Const::<0>,))),
                    }
                } else {
                    match x % 2 {
                        0 => forms!("permute (0, 1)", 0; permute_mut, permute, into_permuted((Const::<0>, Const::<1>))),
                        _ => forms!("permute (1, 0)", 0; permute_mut, permute, into_permuted((Const::<1>, Const::<0>))),
                    }
                }
            }
            14..=16 => {
                // Shapes of another length.
                let mut d = views::factor(len, y);
                let k = (x >> 20) as usize % d.len();
                match x % 7 {
                    0 => d[k] += 1,
                    1 if len > 0 => d[k] -= 1,
                    2 if len > 0 => d.push(2),
                    3 => d = vec![usize::MAX, usize::MAX],
                    4 if len > 0 => {
                        // Not divisible.
                        d = vec![usize::MAX, len + 1];
                        if len > 2 && y % 2 == 0 {
                            if let Some(m) = (2..len).find(|m| len % m != 0) {
                                d = vec![m, usize::MAX];
                            }
                        }
                    }
                    5 => d = vec![1 << 63, 2, len.max(1)],
                    6 => d = vec![1 << 32, 1 << 32, len.max(1)],
                    _ => d[k] += len + 1,
                }
                if product128(&d) == len as u128 && !d.contains(&usize::MAX) {
                    d.push(len + 2);
                    if len == 0 {
                        d = vec![3, 1];
                    }
                }
                match (d.len(), y % 2) {
                    (1, 0) => forms!("reshape [1]", d; reshape_mut, reshape, into_shape([d[0]])),
                    (2, 0) => forms!("reshape [2]", d; reshape_mut, reshape, into_shape([d[0], d[1]])),
                    (3, 0) => forms!("reshape [3]", d; reshape_mut, reshape, into_shape([d[0], d[1], d[2]])),
                    _ => forms!("reshape", d; reshape_mut, reshape, into_shape(&d[..])),
                }
            }
            17 => {
                // Shape with constants.
                if len == 6 {
                    forms!("reshape const", len; reshape_mut, reshape, into_shape((Const::<2>, Const::<2>)))
                } else {
                    forms!("reshape const", len; reshape_mut, reshape, into_shape((Const::<2>, Const::<3>)))
                }
            }
            18 => {
                // Another rank, or constant dimensions that do not match.
                macro_rules! remap {
                    ($s:ty, $l:ty) => {
                        match form % 4 {
                            0 => bad!("remap_mut", stringify!($s), stringify!($l); self.remap_mut::<$s, $l>()),
                            1 => bad!("remap", stringify!($s), stringify!($l); self.remap::<$s, $l>()),
                            2 => bad!("into_mapping (mut)", stringify!($s), stringify!($l); self.expr_mut().into_mapping::<$s, $l>()),
                            _ => bad!("into_mapping", stringify!($s), stringify!($l); self.expr().into_mapping::<$s, $l>()),
                        }
                    };
                }
                match (x % 8, n) {
                    (0, _) if n != 2 || p.dims != [2, 3] => remap!((Const<2>, Const<3>), Strided),
                    (1, _) if n != 2 || p.dims[1] != 3 => remap!((Dyn, Const<3>), Strided),
                    (2, _) if n != 2 || p.dims[0] != 4 => remap!((Const<4>, Dyn), Dense),
                    (3, _) if n != 0 => remap!((), Strided),
                    (_, 1) => remap!(Rank<2>, Strided),
                    (_, 2) => remap!(Rank<3>, Strided),
                    (4 | 5, _) => remap!(Rank<1>, Strided),
                    _ => remap!(Rank<2>, Dense),
                }
            }
            19 if !dense => {
                // Not contiguous.
                match form % 4 {
                    0 => bad!("remap_mut Dense", 0; self.remap_mut::<DynRank, Dense>()),
                    1 => bad!("remap Dense", 0; self.remap::<S, Dense>()),
                    2 => bad!("into_mapping Dense (mut)", 0; self.expr_mut().into_mapping::<S, Dense>()),
                    _ => bad!("into_mapping Dense", 0; self.expr().into_mapping::<DynRank, Dense>()),
                }
            }
            20 => {
                let i = beyond(len, x);
                match form % 2 {
                    0 => bad!("linear index (mut)", i; &mut self[i] as *mut E),
                    _ => bad!("linear index", i; &self[i] as *const E),
                }
            }
            21..=23 => {
                // Index of the wrong rank or out of range.
                let mut i: Vec<usize> = p.dims.iter().enumerate().map(|(k, &d)| if d > 0 { (mix2(y, k as u64) % d as u64) as usize } else { 0 }).collect();
                match x % 4 {
                    0 => i.push(0),
                    1 if n > 0 => {
                        i.pop();
                    }
                    _ if n > 0 => i[ax] = beyond(size, x >> 4),
                    _ => i.push(0),
                }
                match (form % 4, i.len()) {
                    (0, _) => bad!("index (mut)", i; &mut self[&i[..]] as *mut E),
                    (1, 1) => bad!("index [1]", i; &self[[i[0]]] as *const E),
                    (1, 2) => bad!("index [2]", i; &self[[i[0], i[1]]] as *const E),
                    (1, 3) => bad!("index [3]", i; &self[[i[0], i[1], i[2]]] as *const E),
                    (2, 1) => bad!("index [1] (mut)", i; &mut self[[i[0]]] as *mut E),
                    (2, 2) => bad!("index [2] (mut)", i; &mut self[[i[0], i[1]]] as *mut E),
                    (2, 3) => bad!("index [3] (mut)", i; &mut self[[i[0], i[1], i[2]]] as *mut E),
                    _ => bad!("index", i; &self[&i[..]] as *const E),
                }
            }
            24 if views::row_major(&p.dims, |i| self.stride(i)) => {
                // Range of elements.
                let mut v = self.expr_mut().into_mapping::<S, Dense>();
                let b = bad_range(len, x, y);
                macro_rules! elems {
                    ($r:expr) => {
                        if form % 2 == 0 { bad!("elements (mut)", b; v[$r].as_mut_ptr()) } else { bad!("elements", b; v[$r].as_ptr()) }
                    };
                }
                match b {
                    BadRange::Range(s, e) | BadRange::StepRange(s, e, _) => elems!(s..e),
                    BadRange::From(s) | BadRange::StepFrom(s, _) => elems!(s..),
                    BadRange::Incl(s, e) => elems!(s..=e),
                    BadRange::To(e) => elems!(..e),
                    BadRange::ToIncl(e) => elems!(..=e),
                    BadRange::Bounds(s, e) => elems!((s, e)),
                    BadRange::StepZero => elems!(len + 1..),
                    BadRange::Index(i) => elems!(i.max(len + 1)..),
                }
            }
            25 => {
                let i = if n == 2 { beyond(p.dims[0], x) } else { 0 };
                forms!("row", i; row_mut, row, into_row(i))
            }
            26 => {
                let i = if n == 2 { beyond(p.dims[1], x) } else { 0 };
                forms!("col", i; col_mut, col, into_col(i))
            }
            27 => {
                let k = if n != 2 {
                    0
                } else {
                    let m = 1 + (x >> 9) as isize % 3;
                    match x % 6 {
                        0 => isize::MAX,
                        1 => isize::MIN,
                        2 | 3 => p.dims[1] as isize + m,
                        _ => -(p.dims[0] as isize) - m,
                    }
                };
                forms!("diag", k; diag_mut, diag, into_diag(k))
            }
            28 => {
                let k = beyond(n, x);
                if y % 2 == 0 { two!("axis_expr", k; axis_expr_mut, axis_expr(k)) } else { two!("lanes", k; lanes_mut, lanes(k)) }
            }
            29 if n < 3 => match n {
                0 => match x % 5 {
                    0 => two!("rows", 0; rows_mut, rows()),
                    1 => two!("cols", 0; cols_mut, cols()),
                    2 => two!("outer_expr", 0; outer_expr_mut, outer_expr()),
                    3 => two!("lanes Rows", 0; lanes_mut, lanes(Rows)),
                    _ => two!("axis_expr Rows", 0; axis_expr_mut, axis_expr(Rows)),
                },
                1 => match x % 4 {
                    0 => two!("cols", 0; cols_mut, cols()),
                    1 => two!("lanes Cols", 0; lanes_mut, lanes(Cols)),
                    2 => two!("axis_expr Const<1>", 0; axis_expr_mut, axis_expr(Const::<1>)),
                    _ => two!("lanes Const<1>", 0; lanes_mut, lanes(Const::<1>)),
                },
                _ => match x % 2 {
                    0 => two!("axis_expr Const<2>", 0; axis_expr_mut, axis_expr(Const::<2>)),
                    _ => two!("lanes Const<2>", 0; lanes_mut, lanes(Const::<2>)),
                },
            },
            30 => {
                let k = beyond(n, x);
                match form % 3 {
                    0 => bad!("dim", k; self.dim(k)),
                    1 => bad!("stride", k; self.stride(k)),
                    _ => bad!("shape().dim", k; self.shape().dim(k)),
                }
            }
            31..=35 if (1..=4).contains(&n) => {
                // A subarray with one bad part.
                let b = bad_range(size, x, y);
                macro_rules! sub {
                    ($n:expr, $($v:expr),*) => {
                        match form % 4 {
                            0 => bad!(concat!("view_mut of rank ", $n), ax, b; self.remap_mut::<Rank<$n>, L>().view_mut($($v),*)),
                            1 => bad!(concat!("view of rank ", $n), ax, b; self.remap::<Rank<$n>, L>().view($($v),*)),
                            2 => bad!(concat!("into_view (mut) of rank ", $n), ax, b; self.remap_mut::<Rank<$n>, L>().into_view($($v),*)),
                            _ => bad!(concat!("tensor of rank ", $n), ax, b; self.remap::<Rank<$n>, L>().tensor($($v),*)),
                        }
                    };
                }
                macro_rules! ranks {
                    ($r:expr) => {
                        match (n, ax) {
                            (1, _) => sub!(1, $r),
                            (2, 0) => sub!(2, $r, ..),
                            (2, _) => sub!(2, .., $r),
                            (3, 0) => sub!(3, $r, .., ..),
                            (3, 1) => sub!(3, .., $r, ..),
                            (3, _) => sub!(3, .., .., $r),
                            (_, 0 | 1) if ax == 0 => sub!(4, $r, .., .., ..),
                            (_, 1) => sub!(4, .., $r, .., ..),
                            (_, 2) => sub!(4, .., .., $r, ..),
                            _ => sub!(4, .., .., .., $r),
                        }
                    };
                }
                match b {
                    BadRange::Range(s, e) => ranks!(s..e),
                    BadRange::From(s) => ranks!(s..),
                    BadRange::Incl(s, e) => ranks!(s..=e),
                    BadRange::To(e) => ranks!(..e),
                    BadRange::ToIncl(e) => ranks!(..=e),
                    BadRange::Bounds(s, e) => ranks!((s, e)),
                    BadRange::StepRange(s, e, st) => ranks!(step(s..e, st)),
                    BadRange::StepFrom(s, st) => ranks!(step(s.., st)),
                    BadRange::StepZero => ranks!(step(.., 0)),
                    BadRange::Index(i) => ranks!(i),
                }
            }
            36 => {
                // Operand of another shape.
                let d = c.src.dims().to_vec();
                let src = &c.src;
                let seed = a[5];
                match if n == 0 && form % 9 == 7 { 0 } else { form % 9 } {
                    0 => bad!("assign", d; self.assign(src)),
                    1 => bad!("add_assign", d; *self += src),
                    2 => bad!("sub_assign on the slice", d; **self -= src),
                    3 => bad!("zip", d; self.expr_mut().zip(src).for_each(|(x, y)| point(K::Closure, 0, || x.clone_from(y)))),
                    4 => bad!("zip, on the right", d; src.expr().zip(self.expr_mut()).for_each(|(y, x)| point(K::Closure, 0, || x.clone_from(y)))),
                    5 => bad!("zip_with", d; (&mut *self).zip_with(src, |(x, _): (&mut E, &E)| point(K::Closure, 0, || x.set(seed))).for_each(|()| ())),
                    6 => bad!("assign from_fn", d; self.assign(expr::from_fn(&d[..], |_: &[usize]| point(K::Closure, 0, || E::make(seed))))),
                    7 => bad!("zip, read only", d; self.expr().zip(src).for_each(|_| point(K::Closure, 0, || ()))),
                    _ => {
                        let s = std::mem::take(&mut c.src);
                        bad!("assign by value", d; self.assign(s))
                    }
                }
            }
            37 if n > 0 => {
                // Values and exclusive references cannot be repeated along further dimensions.
                let d = c.low.dims().to_vec();
                let seed = a[5];
                let low = std::mem::take(&mut c.low);
                let mut low2 = None;
                match form % 4 {
                    0 => bad!("assign of lower rank by value", d; self.assign(low)),
                    1 => bad!("zip of lower rank by value", d; self.expr_mut().zip(low).for_each(|(x, _)| point(K::Closure, 0, || x.set(seed)))),
                    2 => {
                        low2 = Some(low);
                        let l = low2.as_mut().unwrap();
                        bad!("zip of lower rank, exclusive", d; self.expr().zip(l.expr_mut()).for_each(|(_, y)| point(K::Closure, 0, || y.set(seed))))
                    }
                    _ => bad!("rem_assign of lower rank by value", d; *self %= low),
                }
                drop(low2);
            }
            38 => {
                // Operand of higher rank.
                let d = [&[2][..], &p.dims[..]].concat();
                let seed = a[5];
                match form % 3 {
                    0 => bad!("assign of higher rank", d; self.assign(expr::from_fn(&d[..], |_: &[usize]| point(K::Closure, 0, || E::make(seed))))),
                    1 => bad!("add_assign of higher rank", d; *self += expr::from_fn(&d[..], |_: &[usize]| point(K::Closure, 0, || E::make(seed)))),
                    _ => bad!("zip of higher rank", d; self.expr_mut().zip(expr::from_fn(&d[..], |_: &[usize]| point(K::Closure, 0, || seed))).for_each(|(x, y)| point(K::Closure, 0, || x.set(y)))),
                }
            }
            39 if views::row_major(&p.dims, |i| self.stride(i)) && (1..=3).contains(&n) => {
                // References to nested arrays of other dimensions: the view is given back.
                let base = self.as_ptr() as usize;
                let mut back = None;
                macro_rules! nested {
                    ($s:ty, $t:ty) => {{
                        let v = self.remap_mut::<$s, Dense>();
                        c.what = "TryFrom for nested array reference";
                        c.detail = format!("{:?} {}", p.dims, stringify!($t));
                        c.returned = true;
                        if form % 2 == 0 {
                            c.out = Some(sut(|| match <&mut $t>::try_from(v) {
                                Ok(_) => (),
                                Err(v) => back = Some((v.as_ptr() as usize, (0..v.rank()).map(|k| v.dim(k)).collect::<Vec<_>>())),
                            }));
                        } else {
                            c.out = Some(sut(|| match <&$t>::try_from(v.expr()) {
                                Ok(_) => (),
                                Err(v) => back = Some((v.as_ptr() as usize, (0..v.rank()).map(|k| v.dim(k)).collect::<Vec<_>>())),
                            }));
                        }
                    }};
                }
                match n {
                    1 if p.dims != [3] => nested!((Dyn,), [E; 3]),
                    2 if p.dims != [2, 3] && x % 2 == 0 => nested!((Dyn, Dyn), [[E; 3]; 2]),
                    2 if p.dims != [3, 2] => nested!((Dyn, Dyn), [[E; 2]; 3]),
                    3 if p.dims != [2, 1, 2] => nested!((Dyn, Dyn, Dyn), [[[E; 2]; 1]; 2]),
                    _ => return,
                }
                match back {
                    None => c.returned = false,
                    Some((q, d)) if (q, &d) != (base, &p.dims) => sim().violate("given-back-other", format!("{} gave back another view: {d:?}", c.what)),
                    _ => {}
                }
            }
            40 | 41 => {
                // Lengths that cannot be represented.
                let d: Vec<usize> = match y % 4 {
                    0 => vec![1 << 63, 2],
                    1 => vec![3, 1 << 62, 2],
                    2 => vec![usize::MAX - 1, usize::MAX - 1],
                    _ => vec![1 << 32, 1 << 31, 2],
                };
                let seed = a[5];
                let f = |_: &[usize]| point(K::Closure, 0, || E::make(seed));
                match form % 7 {
                    0 => bad!("Tensor::from_fn of too large a length", d; Tensor::<E, DynRank>::from_fn(&d[..], f)),
                    1 => bad!("Tensor::from_elem of too large a length", d; Tensor::<u64, DynRank>::from_elem(&d[..], 1)),
                    2 => bad!("expr::from_fn of too large a length", d; expr::from_fn(&d[..], f).for_each(drop)),
                    3 => bad!("expr::from_elem of too large a length", d; expr::from_elem(&d[..], 1u64).for_each(drop)),
                    4 => bad!("expr::from_elem of no value and too large a length", d; expr::from_elem(&d[..], ()).for_each(drop)),
                    5 => bad!("Tensor::from_elem of no value and too large a length", d; Tensor::<(), DynRank>::from_elem(&d[..], ())),
                    _ if len == 0 => {
                        // An empty array with too many lanes.
                        let d = [1 << 62, 0, 4];
                        let mut v = self.expr_mut().into_dyn().into_shape(d);
                        if form % 2 == 0 { bad!("lanes of too large a number", d; v.lanes(1)) } else { bad!("lanes_mut of too large a number", d; v.lanes_mut(Const::<1>)) }
                    }
                    _ => bad!("with_capacity of too large a length", d; Tensor::<E, (Dyn,)>::with_capacity(usize::MAX - (x % 9) as usize)),
                }
            }
            42 => match form % 4 {
                0 => {
                    let s: Array<E, (Const<2>, Const<1>)> = Array::from_fn(|_| E::make(a[5]));
                    bad!("Array::into_scalar", 0; s.into_scalar())
                }
                1 => {
                    let s: Array<E, (Const<0>,)> = Array::from_fn(|_| E::make(a[5]));
                    bad!("Array::into_scalar of none", 0; s.into_scalar())
                }
                2 => {
                    let s = std::mem::take(&mut c.src);
                    if s.len() != 1 {
                        bad!("Tensor::into_scalar", 0; s.into_scalar())
                    }
                }
                _ => {
                    let s: Array<E, (Const<2>, Const<2>)> = Array::from_fn(|_| E::make(a[5]));
                    bad!("Array::into_shape", 0; s.into_shape::<(Const<2>, Const<3>)>())
                }
            },
            43 => {
                // A dimension that is not the constant.
                let k = beyond(4, x);
                c.what = "Const::try_from";
                c.detail = format!("{k}");
                c.returned = true;
                let mut back = None;
                c.out = Some(sut(|| back = Const::<3>::try_from(k).err()));
                if back != Some(k) {
                    c.returned = false;
                }
            }
            _ => {}
        }
        if c.out.is_none() || sim().viol.is_some() {
            return;
        }
        // The view is still the same, and usable.
        let now: Vec<*const E> = self.iter().map(|e| e as *const E).collect();
        let d: Vec<usize> = (0..self.rank()).map(|k| self.dim(k)).collect();
        let ok = now.len() == len && d == p.dims;
        if !ok {
            sim().violate("view-changed", format!("{} {}: the view has {} elements, dimensions {d:?} instead of {:?}", c.what, c.detail, now.len(), p.dims));
        }
    }
}

fn product128(d: &[usize]) -> u128 {
    d.iter().fold(1u128, |a, &b| a.saturating_mul(b as u128))
}

enum Base<E> {
    T(Box<dyn Holder<E>>),
}

trait Holder<E> {
    fn view(&mut self) -> muts::V<'_, E>;
    fn base(&mut self) -> *mut E;
}

impl<E: Elem, S: SimShape> Holder<E> for Tensor<E, S> {
    fn view(&mut self) -> muts::V<'_, E> {
        Box::new(self.expr_mut())
    }
    fn base(&mut self) -> *mut E {
        self.as_mut_ptr()
    }
}

impl<E: Elem, const A: usize, const B: usize> Holder<E> for Array<E, (Const<A>, Const<B>)> {
    fn view(&mut self) -> muts::V<'_, E> {
        Box::new(self.expr_mut())
    }
    fn base(&mut self) -> *mut E {
        self.as_mut_ptr()
    }
}

fn make<E: Elem, S: SimShape>(dims: &[usize], seed: u64) -> Base<E> {
    let d = dims.to_vec();
    let s: S = Shape::from_dims(&d);
    let p = Pos::full(&d);
    Base::T(Box::new(Tensor::<E, S>::from_fn(s, |i: &[usize]| E::make(mix2(seed, p.flat(i) as u64)))))
}


struct W<E> {
    base: Option<(Base<E>, Vec<usize>)>,
    steps: Vec<Args>,
    rejected: u64,
    max_depth: u64,
    strided: u64,
}

fn snapshot<E: Elem>(base: *mut E, n: usize, what: &str) -> Option<Vec<Ent>> {
    let mut out = vec![];
    for i in 0..n {
        match unsafe { E::peek(base.add(i)) } {
            Ok((id, val)) => out.push(Ent { id, val }),
            Err(e) => {
                sim().violate(e, format!("{what}: element {i} of the array is not a live element"));
                return None;
            }
        }
    }
    Some(out)
}


fn do_reject<E: Elem>(w: &mut W<E>, a: &Args) {
    let Some((b, dims)) = &mut w.base else { return };
    let Base::T(h) = b;
    let total = product(dims);
    let base = h.base();
    let Some(before) = snapshot(base, total, "before the request") else { return };
    let mut ar = Arena::default();
    let mut p = Pos::full(dims);
    let hp: *mut dyn Holder<E> = h.as_mut();
    // Only one view is in use at any time.
    let mut v = unsafe { (*hp).view() };
    let mut depth = 0;
    for s in &w.steps {
        // The steps themselves are the matter of other worlds: one that does not apply or does
        // not give what it should is left out.
        let mut parts = match sut(|| muts::advance(v, p, s, &mut ar)) {
            Out::Ok(x) => x,
            _ => vec![],
        };
        let n = parts.len();
        let what = "view step";
        let k = if n > 0 { (s[4] % n as u64) as usize } else { 0 };
        let good = n > 0 && muts::check(&parts[k].0, &parts[k].1, base, what);
        sim().viol = None;
        if !good {
            drop(parts);
            v = unsafe { (*hp).view() };
            p = Pos::full(dims);
            continue;
        }
        depth += 1;
        let (x, q) = parts.swap_remove(k);
        v = x;
        p = q;
    }
    let seed = a[5];
    // An operand with other dimensions: of the same rank and one dimension different, or with
    // inner dimensions different.
    let mut sd = p.dims.clone();
    let x = mix2(a[2], 9) >> 8;
    if sd.is_empty() {
        sd.push(2);
    } else {
        let k = (x % sd.len() as u64) as usize;
        match (x >> 8) % 3 {
            0 if sd[k] > 0 => sd[k] -= 1,
            1 if sd.len() > 1 && k > 0 => {
                sd[k] += 1;
                sd.remove(0);
            }
            _ => sd[k] += 1,
        }
    }
    let skip = if p.dims.is_empty() { 0 } else { 1 + (x >> 16) as usize % p.dims.len() };
    let ld = p.dims[skip..].to_vec();
    let src = Tensor::<E, DynRank>::from_fn(&sd[..], |i: &[usize]| E::make(gval(seed, i.len())));
    let low = Tensor::<E, DynRank>::from_fn(&ld[..], |i: &[usize]| E::make(gval(seed, i.len() + 50)));
    let kinds = [K::Clone, K::Eq, K::Op, K::OpAssign, K::Unary, K::Closure, K::Iter, K::Fmt];
    let count = || kinds.iter().map(|&k| sim().kinds[k as usize]).sum::<u64>();
    let c0 = count();
    let mut c = Ctx { kind: a[0] % NREJ, a: *a, p: p.clone(), src, low, what: "", detail: String::new(), out: None, returned: false };
    v.reject(&mut c);
    let calls = count() - c0;
    drop(v);
    drop(ar);
    let what = format!("{} {} on a view {:?}", c.what, c.detail, p.dims);
    let out = c.out.take();
    let returned = c.returned;
    drop(c);
    let Some(out) = out else { return };
    sim().note(|| format!("{what} at {:?}: {}", p.at, out.name()));
    sim().log(7, a[0]);
    if sim().viol.is_some() {
        return;
    }
    w.max_depth = w.max_depth.max(depth);
    if (1..p.len()).any(|k| p.at[k] != p.at[k - 1] + 1) {
        w.strided += 1;
    }
    match out {
        Out::Ok(()) if !returned => sim().violate("accepted-invalid", format!("{what}: not rejected")),
        Out::Ok(()) | Out::Panic(_) => w.rejected += 1,
        _ => sim().violate("unexpected-outcome", what.clone()),
    }
    if calls > 0 {
        sim().violate("user-code-called", format!("{what}: {calls} calls of user code before the request was rejected"));
    }
    if sim().viol.is_some() {
        return;
    }
    let Some(after) = snapshot(base, total, &what) else { return };
    if let Some(i) = (0..total).find(|&i| after[i] != before[i]) {
        sim().violate("changed", format!("{what}: element {i} of the array changed"));
    }
}

fn run_elem<E: Elem>(p: &Plan) -> RunOut {
    sim().reset();
    heap::reset_counts();
    let mut w: W<E> = W { base: None, steps: vec![], rejected: 0, max_depth: 0, strided: 0 };
    let mut out = RunOut::default();
    for (k, op) in p.ops.iter().enumerate() {
        sim().note(|| format!("op {k} {} {:?} fault {:?}", op_name(op.code), op.a, op.fault));
        sim().log(1000 + op.code as u64, k as u64);
        sim().begin_op(op.fault);
        match op.code {
            NEW => {
                let sid = (op.a[0] % NSHAPES as u64) as u8;
                let dims = gen_dims(sid, &op.a[1..3], [12, 30, 60, 120][(p.cfg(1) % 4) as usize]);
                w.steps.clear();
                w.base = None;
                let seed = op.a[5];
                w.base = Some((by_shape_all!(sid, make, E, (&dims, seed)), dims));
            }
            ARRAY => {
                w.steps.clear();
                w.base = None;
                let seed = op.a[5];
                macro_rules! arr {
                    ($a:expr, $b:expr) => {{
                        let q = Pos::full(&[$a, $b]);
                        let x = Array::<E, (Const<$a>, Const<$b>)>::from_fn(|i: &[usize]| E::make(mix2(seed, q.flat(i) as u64)));
                        (Base::T(Box::new(x)), vec![$a, $b])
                    }};
                }
                w.base = Some(match op.a[0] % 4 {
                    0 => arr!(2, 3),
                    1 => arr!(1, 4),
                    2 => arr!(3, 3),
                    _ => arr!(4, 2),
                });
            }
            STEP => w.steps.push(op.a),
            RESET => w.steps.clear(),
            _ => do_reject(&mut w, &op.a),
        }
        sim().end_op();
        out.counts.push((0, 0));
        out.op_index = k;
        out.steps += 1;
        if sim().viol.is_none() {
            if let Some((c, d)) = heap::take_violation() {
                sim().violate(&c, d);
            }
        }
        if sim().viol.is_some() {
            break;
        }
    }
    if sim().viol.is_none() {
        w.base = None;
        let live = sim().live;
        if live != 0 {
            sim().violate("elem-leak", format!("at the end: {live} elements alive"));
        }
        heap::flush();
        if let Some((c, d)) = heap::take_violation() {
            sim().violate(&c, d);
        }
        out.op_index = p.ops.len();
    } else {
        std::mem::forget(w.base.take());
    }
    let s = sim();
    out.viol = s.viol.take();
    if let Some(v) = &out.viol {
        out.key = v.class.clone();
    }
    out.hash = s.hash;
    out.nontrivial = w.rejected > 0;
    out.probes = vec![("rejected_requests", w.rejected), ("requests_on_strided_views", w.strided), ("view_steps_max", w.max_depth)];
    heap::flush();
    out
}

fn run(p: &Plan) -> RunOut {
    run_elem::<Tok>(p)
}

fn generate(_: &str, r: &mut Rng) -> Plan {
    let mut p = Plan { cfg: vec![0, r.below(4)], ..Default::default() };
    let rounds = 1 + r.below(3);
    for _ in 0..rounds {
        let code = if r.chance(1, 8) { ARRAY } else { NEW };
        let mut o = plan::op(r, code);
        o.a[0] = match r.below(4) {
            0 => r.below(NSHAPES as u64),
            1 => 2,
            2 => 3,
            _ => *r.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 10, 11]),
        };
        o.a[1] = r.below(1 << 30);
        o.a[5] = 1 + r.below(1 << 30);
        p.ops.push(o);
        for _ in 0..1 + r.below(3) {
            if r.chance(1, 3) {
                p.ops.push(plan::op(r, RESET));
            }
            for _ in 0..r.below(4) {
                let mut s = plan::op(r, STEP);
                s.a = [r.below(views::NSTEPS), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20)];
                p.ops.push(s);
            }
            for _ in 0..1 + r.below(8) {
                let mut u = plan::op(r, REJECT);
                u.a[0] = r.below(NREJ);
                u.a[1] = r.below(1 << 20);
                u.a[2] = r.below(1 << 40);
                u.a[5] = 1 + r.below(1 << 30);
                p.ops.push(u);
            }
        }
    }
    p
}

static WORLD: World = World {
    name: "rejects",
    props: &["C14"],
    op_name,
    generate,
    place: None,
    run,
    budget: |_, thorough| if thorough { 20_000_000 } else { 120_000 },
    variants: |_| 0,
    relevant: |_, v| v.class != "block-leak",
    rule: |_| "1-3 arrays (14 tensor shape types, 4 array types), chains of 0-9 view steps, 44 kinds of invalid request on the resulting view (index, range, step, split, permutation, reshaping, remapping, diagonal, operand of another shape, nested array), each on the mutable and the shared slice and by value; non-trivial: at least one request was rejected",
    level: "exploration",
    real: &["mdarray (all of it, compiled from /repo, unmodified)"],
    stub: &["global allocator (simulated heap)", "element type and closures of the user"],
};

fn main() {
    driver::main(&WORLD)
}
