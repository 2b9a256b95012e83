//! Chains of view operations on arrays, each step done with static types, and their reference:
//! the list of positions in the base array. Included by the worlds, which define `Act` (what to
//! do with a view) and `ActMut`.

use super::{Act, ActMut};
use mdarray::index::{Cols, Rows};
use mdarray::{Const, Dense, Dyn, DynRank, Layout, Shape, Strided, View, ViewMut, step};
use mdsim::elem::Elem;
use mdsim::model::{bump, product};
use mdsim::rng::mix2;
use mdsim::sim::sim;

/// Reference of a view: dimensions and the position of each element, in row-major order.
#[derive(Clone, Debug, PartialEq)]
pub struct Pos {
    pub dims: Vec<usize>,
    pub at: Vec<usize>,
}

impl Pos {
    pub fn full(dims: &[usize]) -> Pos {
        Pos { dims: dims.to_vec(), at: (0..product(dims)).collect() }
    }

    pub fn len(&self) -> usize {
        self.at.len()
    }

    pub fn flat(&self, idx: &[usize]) -> usize {
        idx.iter().zip(&self.dims).fold(0, |a, (i, d)| a * d + i)
    }

    /// New dimensions; `f` gives the old index of a new one.
    pub fn select(&self, dims: &[usize], f: impl Fn(&[usize]) -> Vec<usize>) -> Pos {
        let mut idx = vec![0; dims.len()];
        let mut at = vec![];
        for _ in 0..product(dims) {
            at.push(self.at[self.flat(&f(&idx))]);
            bump(&mut idx, dims);
        }
        Pos { dims: dims.to_vec(), at }
    }

    pub fn axis_at(&self, ax: usize, i: usize) -> Pos {
        let mut d = self.dims.clone();
        d.remove(ax);
        self.select(&d, |x| {
            let mut x = x.to_vec();
            x.insert(ax, i);
            x
        })
    }

    pub fn range(&self, ax: usize, a: usize, b: usize) -> Pos {
        let mut d = self.dims.clone();
        d[ax] = b - a;
        self.select(&d, |x| {
            let mut x = x.to_vec();
            x[ax] += a;
            x
        })
    }

    /// The lanes along an axis, in row-major order of the other dimensions.
    pub fn lanes(&self, ax: usize) -> Vec<Pos> {
        let mut d = self.dims.clone();
        d.remove(ax);
        let mut idx = vec![0; d.len()];
        let mut out = vec![];
        for _ in 0..product(&d) {
            out.push(self.select(&[self.dims[ax]], |x| {
                let mut y = idx.clone();
                y.insert(ax, x[0]);
                y
            }));
            bump(&mut idx, &d);
        }
        out
    }

    pub fn permute(&self, p: &[usize]) -> Pos {
        let d: Vec<usize> = p.iter().map(|&i| self.dims[i]).collect();
        self.select(&d, |x| {
            let mut y = vec![0; x.len()];
            for (k, &i) in p.iter().enumerate() {
                y[i] = x[k];
            }
            y
        })
    }

    pub fn reshape(&self, d: &[usize]) -> Pos {
        Pos { dims: d.to_vec(), at: self.at.clone() }
    }

    pub fn diag(&self, k: isize) -> Pos {
        let (r, c) = if k < 0 { ((-k) as usize, 0) } else { (0, k as usize) };
        let n = (self.dims[0] - r).min(self.dims[1] - c);
        self.select(&[n], |x| vec![x[0] + r, x[0] + c])
    }
}

/// Selection along one dimension.
#[derive(Clone, Debug)]
pub enum Sel {
    Full,
    At(usize),
    Range(usize, usize),
    Step(usize, usize, isize),
}

impl Pos {
    pub fn view(&self, s: &[Sel]) -> Pos {
        let mut d = vec![];
        for (k, x) in s.iter().enumerate() {
            match x {
                Sel::Full => d.push(self.dims[k]),
                Sel::At(_) => {}
                Sel::Range(a, b) => d.push(b - a),
                Sel::Step(a, b, st) => d.push((b - a).div_ceil(st.unsigned_abs())),
            }
        }
        self.select(&d, |x| {
            let mut it = x.iter();
            s.iter()
                .map(|s| match s {
                    Sel::Full => *it.next().unwrap(),
                    Sel::At(i) => *i,
                    Sel::Range(a, _) => a + it.next().unwrap(),
                    Sel::Step(a, b, st) => {
                        let i = *it.next().unwrap() as isize;
                        if *st > 0 { (*a as isize + i * st) as usize } else { (*b as isize - 1 + i * st) as usize }
                    }
                })
                .collect()
        })
    }
}

/// Views and references that have to outlive what is derived from them.
pub trait Keep {}
impl<T> Keep for T {}

#[derive(Default)]
pub struct Arena(pub Vec<Box<dyn Keep>>);

impl Arena {
    /// # Safety
    /// The arena has to be dropped before anything `v` borrows.
    pub unsafe fn keep<'a, T: 'a>(&mut self, v: T) -> &'a mut T {
        let mut b = Box::new(v);
        let r: *mut T = &mut *b;
        let k: Box<dyn Keep + 'a> = b;
        self.0.push(unsafe { std::mem::transmute::<Box<dyn Keep + 'a>, Box<dyn Keep + 'static>>(k) });
        unsafe { &mut *r }
    }
}

/// The strides are those of a row-major array: every layout fits.
pub fn row_major(dims: &[usize], stride: impl Fn(usize) -> isize) -> bool {
    let mut s = 1;
    for i in (0..dims.len()).rev() {
        if stride(i) != s {
            return false;
        }
        s *= dims[i] as isize;
    }
    true
}

/// The elements have equal distances in memory, or the dimensions stay the same: reshaping has
/// to succeed. (Otherwise, and with dimensions of one element, it may be rejected.)
pub fn reshapes(dims: &[usize], stride: impl Fn(usize) -> isize, new: &[usize]) -> bool {
    if row_major(dims, &stride) {
        return true;
    }
    let n = dims.len();
    let uniform = (1..n).all(|i| stride(i - 1) == stride(i) * dims[i] as isize);
    let unchanged = new.iter().filter(|x| **x != 1).eq(dims.iter());
    dims.iter().all(|x| *x > 1) && (uniform || unchanged)
}

pub type Args = [u64; 6];

pub fn perm(n: usize, x: u64) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    let mut h = x;
    for i in (1..n).rev() {
        h = mix2(h, 17);
        p.swap(i, (h % (i as u64 + 1)) as usize);
    }
    p
}

/// Another factorisation of `n` (for reshaping).
pub fn factor(n: usize, x: u64) -> Vec<usize> {
    let mut d = vec![];
    let mut rest = n;
    let mut h = x;
    let rank = 1 + (x % 4) as usize;
    while d.len() + 1 < rank {
        h = mix2(h, 5);
        let divs: Vec<usize> = if rest == 0 { vec![0, 1, 2, 3] } else { (1..=rest).filter(|k| rest % k == 0).collect() };
        let k = divs[(h % divs.len() as u64) as usize];
        d.push(k);
        if k != 0 && rest != 0 {
            rest /= k;
        }
    }
    d.push(rest);
    d
}

fn rng2(n: usize, a: u64, b: u64) -> (usize, usize) {
    let x = (a % (n as u64 + 1)) as usize;
    let y = (b % (n as u64 + 1)) as usize;
    // Mostly non-empty.
    if x == y && n > 0 { if x < n { (x, n) } else { (0, x) } } else { (x.min(y), x.max(y)) }
}

pub const NSTEPS: u64 = 28;

macro_rules! chain {
    ($mod:ident, $V:ident, $Act:ident, {$($mut:tt)?}, $from_ref:expr,
     $at:ident, $axis_at:ident, $axis_expr:ident, $col:ident, $cols:ident, $diag:ident, $expr:ident,
     $flatten:ident, $iter:ident, $lanes:ident, $outer:ident, $permute:ident, $remap:ident, $reorder:ident,
     $reshape:ident, $row:ident, $rows:ident, $split_at:ident, $split_axis_at:ident, $view:ident) => {
pub mod $mod {
    use super::*;

    /// A view with its types erased.
    pub trait Erased<'a, E>: $Act<'a, E> {
        fn norm(self: Box<Self>, sel: u64) -> Norm<'a, E>;
        fn vdims(&self) -> Vec<usize>;
        fn addr(&self, idx: &[usize]) -> *const E;
    }

    pub type V<'a, E> = Box<dyn Erased<'a, E> + 'a>;
    pub type Part<'a, E> = (V<'a, E>, Pos);

    pub enum Norm<'a, E> {
        D0($V<'a, E, (), Dense>),
        D1($V<'a, E, (Dyn,), Dense>),
        D2($V<'a, E, (Dyn, Dyn), Dense>),
        D3($V<'a, E, (Dyn, Dyn, Dyn), Dense>),
        D4($V<'a, E, (Dyn, Dyn, Dyn, Dyn), Dense>),
        DD($V<'a, E, DynRank, Dense>),
        S1($V<'a, E, (Dyn,), Strided>),
        S2($V<'a, E, (Dyn, Dyn), Strided>),
        S3($V<'a, E, (Dyn, Dyn, Dyn), Strided>),
        SD($V<'a, E, DynRank, Strided>),
        C23($V<'a, E, (Const<2>, Const<3>), Dense>),
        CX3($V<'a, E, (Dyn, Const<3>), Dense>),
        SX3($V<'a, E, (Dyn, Const<3>), Strided>),
        C2X($V<'a, E, (Const<2>, Dyn), Dense>),
        C2XX($V<'a, E, (Const<2>, Dyn, Dyn), Dense>),
    }

    impl<'a, E: Elem, S: Shape, L: Layout> Erased<'a, E> for $V<'a, E, S, L>
    where
        $V<'a, E, S, L>: $Act<'a, E>,
    {
        fn vdims(&self) -> Vec<usize> {
            (0..self.rank()).map(|i| self.dim(i)).collect()
        }

        fn addr(&self, idx: &[usize]) -> *const E {
            let mut p = self.as_ptr();
            for (k, &i) in idx.iter().enumerate() {
                p = p.wrapping_offset(self.stride(k) * i as isize);
            }
            p
        }

        fn norm(self: Box<Self>, sel: u64) -> Norm<'a, E> {
            let d = self.vdims();
            let c = row_major(&d, |i| self.stride(i));
            // The candidates that fit; the general ones are always among them.
            let mut cand = vec![9];
            if c {
                cand.push(5);
                if d.len() <= 4 {
                    cand.extend([d.len(), d.len()]);
                }
                if d == [2, 3] {
                    cand.extend([10, 10]);
                }
                if d.len() == 2 && d[1] == 3 {
                    cand.push(11);
                }
                if d.len() == 2 && d[0] == 2 {
                    cand.push(13);
                }
                if d.len() == 3 && d[0] == 2 {
                    cand.extend([14, 14]);
                }
            }
            if (1..=3).contains(&d.len()) {
                cand.push(5 + d.len());
            }
            if d.len() == 2 && d[1] == 3 {
                cand.push(12);
            }
            let v = *self;
            match cand[(sel % cand.len() as u64) as usize] {
                0 => Norm::D0(v.into_mapping()),
                1 => Norm::D1(v.into_mapping()),
                2 => Norm::D2(v.into_mapping()),
                3 => Norm::D3(v.into_mapping()),
                4 => Norm::D4(v.into_mapping()),
                5 => Norm::DD(v.into_mapping()),
                6 => Norm::S1(v.into_mapping()),
                7 => Norm::S2(v.into_mapping()),
                8 => Norm::S3(v.into_mapping()),
                10 => Norm::C23(v.into_mapping()),
                11 => Norm::CX3(v.into_mapping()),
                12 => Norm::SX3(v.into_mapping()),
                13 => Norm::C2X(v.into_mapping()),
                14 => Norm::C2XX(v.into_mapping()),
                _ => Norm::SD(v.into_mapping()),
            }
        }
    }

    /// Compares a view with its reference: dimensions and the address of each element.
    pub fn check<'a, E: Elem>(v: &V<'a, E>, p: &Pos, base: *const E, what: &str) -> bool {
        let d = v.vdims();
        if d != p.dims {
            sim().violate("view-geometry", format!("{what}: dimensions {d:?} instead of {:?}", p.dims));
            return false;
        }
        let mut idx = vec![0; d.len()];
        for k in 0..p.len() {
            let a = v.addr(&idx);
            if a != base.wrapping_add(p.at[k]) {
                let off = (a as isize - base as isize) / std::mem::size_of::<E>().max(1) as isize;
                sim().violate("view-geometry", format!("{what}: element {idx:?} of {d:?} is at offset {off} instead of {}", p.at[k]));
                return false;
            }
            bump(&mut idx, &d);
        }
        true
    }

    /// Takes the items of an iterator in one of several ways.
    fn take<I: ExactSizeIterator>(mut it: I, how: u64) -> Vec<I::Item> {
        let mut v = vec![];
        match how % 4 {
            0 => {
                for x in it {
                    v.push(x);
                }
            }
            1 => it.for_each(|x| v.push(x)),
            2 => {
                let n = it.len();
                for _ in 0..n / 2 {
                    v.extend(it.next());
                }
                it.for_each(|x| v.push(x));
            }
            _ => {
                while let Some(x) = it.next() {
                    v.push(x);
                }
            }
        }
        v
    }

    macro_rules! body {
        ($v:expr, $p:expr, $a:expr, $ar:expr, $kind:tt) => {{
            let (v, p, a, ar): (_, Pos, &Args, &mut Arena) = ($v, $p, $a, $ar);
            let n = p.dims.len();
            let ax = if n > 0 { (a[1] % n as u64) as usize } else { 0 };
            let len = if n > 0 { p.dims[ax] } else { 0 };
            let idx = if len > 0 { (a[2] % len as u64) as usize } else { 0 };
            let mid = (a[2] % (len as u64 + 1)) as usize;
            let var = a[3];
            macro_rules! one {
                ($x:expr, $q:expr) => {
                    vec![(Box::new($x) as V<'a, E>, $q)]
                };
            }
            macro_rules! two {
                ($x:expr, $ax:expr, $mid:expr) => {{
                    let (x, y) = $x;
                    vec![(Box::new(x) as V<'a, E>, p.range($ax, 0, $mid)), (Box::new(y) as V<'a, E>, p.range($ax, $mid, p.dims[$ax]))]
                }};
            }
            macro_rules! many {
                ($it:expr, $ps:expr) => {{
                    let ps: Vec<Pos> = $ps;
                    let got = take($it, a[4]);
                    if got.len() != ps.len() {
                        sim().violate("partition", format!("step {}: {} parts instead of {}", a[0] % NSTEPS, got.len(), ps.len()));
                        return vec![];
                    }
                    got.into_iter().zip(ps).map(|(x, q)| (Box::new(x) as V<'a, E>, q)).collect()
                }};
            }
            #[allow(unused)]
            macro_rules! slice {
                () => {
                    unsafe { ar.keep(v) }
                };
            }
            match a[0] % NSTEPS {
                // One index along an axis.
                0 if len > 0 => match var % 7 {
                    0 => one!(v.into_axis_at(ax, idx), p.axis_at(ax, idx)),
                    1 if ax == 0 => one!(v.into_at(idx), p.axis_at(0, idx)),
                    2 if ax == 0 => one!(v.into_axis_at(Const::<0>, idx), p.axis_at(0, idx)),
                    3 if ax == 1 => one!(v.into_axis_at(Const::<1>, idx), p.axis_at(1, idx)),
                    1..=3 if ax == 2 => one!(v.into_axis_at(Const::<2>, idx), p.axis_at(2, idx)),
                    4 if ax + 1 == n => one!(v.into_axis_at(Rows, idx), p.axis_at(ax, idx)),
                    5 if ax + 2 == n => one!(v.into_axis_at(Cols, idx), p.axis_at(ax, idx)),
                    _ if ax == 0 => one!(slice!().$at(idx), p.axis_at(0, idx)),
                    _ => one!(slice!().$axis_at(ax, idx), p.axis_at(ax, idx)),
                },
                1 if len > 0 => {
                    if ax + 1 == n {
                        one!(slice!().$axis_at(Rows, idx), p.axis_at(ax, idx))
                    } else if ax + 2 == n && var % 2 == 0 {
                        one!(slice!().$axis_at(Cols, idx), p.axis_at(ax, idx))
                    } else if ax == 0 {
                        one!(slice!().$axis_at(Const::<0>, idx), p.axis_at(0, idx))
                    } else if ax == 1 {
                        one!(slice!().$axis_at(Const::<1>, idx), p.axis_at(1, idx))
                    } else {
                        one!(v.into_axis_at(ax, idx), p.axis_at(ax, idx))
                    }
                }
                // Splits.
                2 if n > 0 => match var % 7 {
                    0 => two!(v.into_split_axis_at(ax, mid), ax, mid),
                    1 if ax == 0 => two!(v.into_split_at(mid), 0, mid),
                    2 if ax == 0 => two!(v.into_split_axis_at(Const::<0>, mid), 0, mid),
                    3 if ax == 1 => two!(v.into_split_axis_at(Const::<1>, mid), 1, mid),
                    4 if ax + 1 == n => two!(v.into_split_axis_at(Rows, mid), ax, mid),
                    5 if ax + 2 == n => two!(v.into_split_axis_at(Cols, mid), ax, mid),
                    _ if ax == 0 => two!(slice!().$split_at(mid), 0, mid),
                    _ => two!(slice!().$split_axis_at(ax, mid), ax, mid),
                },
                3 if n > 0 => {
                    if ax + 1 == n {
                        two!(slice!().$split_axis_at(Rows, mid), ax, mid)
                    } else if ax + 2 == n && var % 2 == 0 {
                        two!(slice!().$split_axis_at(Cols, mid), ax, mid)
                    } else if ax == 0 {
                        two!(slice!().$split_axis_at(Const::<0>, mid), 0, mid)
                    } else if ax == 1 {
                        two!(slice!().$split_axis_at(Const::<1>, mid), 1, mid)
                    } else {
                        two!(v.into_split_axis_at(Const::<2>, mid.min(p.dims[2])), 2, mid.min(p.dims[2]))
                    }
                }
                // Permutations.
                4 => {
                    let q = perm(n, a[2]);
                    if var % 2 == 0 { one!(v.into_permuted(&q[..]), p.permute(&q)) } else { one!(slice!().$permute(&q[..]), p.permute(&q)) }
                }
                5 => {
                    let q: Vec<usize> = (0..n).rev().collect();
                    if var % 2 == 0 { one!(v.into_reordered(), p.permute(&q)) } else { one!(slice!().$reorder(), p.permute(&q)) }
                }
                // Reshaping.
                6 => {
                    let mut d = factor(p.len(), a[2]);
                    if a[2] % 4 == 0 && n > 0 {
                        d = p.dims.clone();
                        if a[2] % 8 == 0 {
                            d.insert((a[3] % (n as u64 + 1)) as usize, 1);
                        }
                    }
                    let ok = reshapes(&p.dims, |i| v.stride(i), &d);
                    let mut g = d.clone();
                    if p.len() > 0 && a[4] % 3 == 0 {
                        // One dimension inferred.
                        let k = (a[5] % g.len() as u64) as usize;
                        g[k] = usize::MAX;
                    }
                    if ok {
                        match (g.len(), var % 3) {
                            (1, 0) => one!(v.into_shape([g[0]]), p.reshape(&d)),
                            (2, 0) => one!(v.into_shape([g[0], g[1]]), p.reshape(&d)),
                            (3, 0) => one!(v.into_shape([g[0], g[1], g[2]]), p.reshape(&d)),
                            (2, 1) => one!(slice!().$reshape((g[0], g[1])), p.reshape(&d)),
                            (_, 2) => one!(slice!().$reshape(&g[..]), p.reshape(&d)),
                            _ => one!(v.into_shape(&g[..]), p.reshape(&d)),
                        }
                    } else {
                        // The memory layout may not be compatible, which has to be detected.
                        let m = v.into_dyn();
                        let m2 = unsafe { ar.keep(m) };
                        let r = mdsim::sim::catch(|| m2.$reshape(&g[..]));
                        match r {
                            Some(x) => one!(x, p.reshape(&d)),
                            None => vec![],
                        }
                    }
                }
                7 => {
                    if reshapes(&p.dims, |i| v.stride(i), &[p.len()]) {
                        if var % 2 == 0 { one!(v.into_flat(), p.reshape(&[p.len()])) } else { one!(slice!().$flatten(), p.reshape(&[p.len()])) }
                    } else {
                        let m2 = slice!();
                        match mdsim::sim::catch(|| m2.$flatten()) {
                            Some(x) => one!(x, p.reshape(&[p.len()])),
                            None => vec![],
                        }
                    }
                }
                // Two dimensions.
                8 | 9 if n == 2 && p.dims[1] > 0 && a[0] % NSTEPS == 8 => {
                    let i = (a[2] % p.dims[1] as u64) as usize;
                    if var % 2 == 0 { one!(v.into_col(i), p.axis_at(1, i)) } else { one!(slice!().$col(i), p.axis_at(1, i)) }
                }
                9 if n == 2 && p.dims[0] > 0 => {
                    let i = (a[2] % p.dims[0] as u64) as usize;
                    if var % 2 == 0 { one!(v.into_row(i), p.axis_at(0, i)) } else { one!(slice!().$row(i), p.axis_at(0, i)) }
                }
                10 if n == 2 => {
                    let span = (p.dims[0] + p.dims[1] + 1) as u64;
                    let k = (a[2] % span) as isize - p.dims[0] as isize;
                    if var % 2 == 0 { one!(v.into_diag(k), p.diag(k)) } else { one!(slice!().$diag(k), p.diag(k)) }
                }
                // Partitions.
                11 if n > 0 => {
                    let ps: Vec<Pos> = (0..len).map(|i| p.axis_at(ax, i)).collect();
                    match var % 6 {
                        0 if ax == 0 => many!(slice!().$outer().into_iter(), ps),
                        1 if ax == 0 => many!(slice!().$axis_expr(Const::<0>).into_iter(), ps),
                        1 | 2 if ax == 1 => many!(slice!().$axis_expr(Const::<1>).into_iter(), ps),
                        3 if ax + 1 == n => many!(slice!().$axis_expr(Rows).into_iter(), ps),
                        4 if ax + 2 == n => many!(slice!().$axis_expr(Cols).into_iter(), ps),
                        _ => many!(slice!().$axis_expr(ax).into_iter(), ps),
                    }
                }
                12 if n > 0 => {
                    let ps = p.lanes(ax);
                    match var % 6 {
                        0 if ax == 0 => many!(slice!().$lanes(Const::<0>).into_iter(), ps),
                        1 if ax == 1 => many!(slice!().$lanes(Const::<1>).into_iter(), ps),
                        2 if ax + 1 == n => many!(slice!().$lanes(Rows).into_iter(), ps),
                        3 if ax + 2 == n => many!(slice!().$lanes(Cols).into_iter(), ps),
                        _ => many!(slice!().$lanes(ax).into_iter(), ps),
                    }
                }
                13 if n > 0 => many!(slice!().$rows().into_iter(), p.lanes(n - 1)),
                14 if n > 1 => many!(slice!().$cols().into_iter(), p.lanes(n - 2)),
                15 => {
                    // Single elements.
                    let ps: Vec<Pos> = p.at.iter().map(|&x| Pos { dims: vec![1], at: vec![x] }).collect();
                    let got = take(slice!().$iter(), a[4]);
                    if got.len() != ps.len() {
                        sim().violate("partition", format!("{} elements instead of {}", got.len(), ps.len()));
                        return vec![];
                    }
                    got.into_iter().zip(ps).map(|(x, q)| (Box::new($V::<E, (Dyn,)>::from($from_ref(x))) as V<'a, E>, q)).collect()
                }
                // Other types for the same view.
                16 => {
                    if var % 3 == 0 {
                        one!(v.into_mapping::<DynRank, Strided>(), p)
                    } else if var % 3 == 1 && row_major(&p.dims, |i| v.stride(i)) {
                        one!(slice!().$remap::<DynRank, Dense>(), p)
                    } else {
                        one!(slice!().$expr(), p)
                    }
                }
                // Ranges, indices and steps (by number of dimensions).
                _ => body!(@view $kind v, p, a, ar, n, one),
            }
        }};
        (@view dynamic $v:ident, $p:ident, $a:ident, $ar:ident, $n:ident, $one:ident) => {{
            $one!($v, $p)
        }};
        (@view 0 $v:ident, $p:ident, $a:ident, $ar:ident, $n:ident, $one:ident) => {{
            $one!($v, $p)
        }};
        (@view $rank:tt $v:ident, $p:ident, $a:ident, $ar:ident, $n:ident, $one:ident) => {{
            let d = $p.dims.clone();
            let full = Sel::Full;
            let h = |k: usize| mix2($a[4] ^ (k as u64) << 40, $a[5]);
            let r = |k: usize| {
                let (x, y) = rng2(d[k], h(k), h(k) >> 20);
                (Sel::Range(x, y), x, y)
            };
            let s = |k: usize| {
                let (x, y) = rng2(d[k], h(k), h(k) >> 20);
                let st = [1, -1, 2, -2, 3, -3][((h(k) >> 50) % 6) as usize];
                (Sel::Step(x, y, st), x, y, st)
            };
            // An index if there is one, otherwise the caller falls back to a range.
            let i = |k: usize| if d[k] > 0 { Some((h(k) % d[k] as u64) as usize) } else { None };
            let _ = (&full, &r, &s, &i);
            view_arms!($rank, $v, $p, $a, $ar, $one, full, r, s, i)
        }};
    }

    macro_rules! view_arms {
        (1, $v:ident, $p:ident, $a:ident, $ar:ident, $one:ident, $f:ident, $r:ident, $s:ident, $i:ident) => {{
            let (q, x, y) = $r(0);
            let (qs, sx, sy, st) = $s(0);
            let n = $p.dims[0];
            match $a[3] % 9 {
                0 => $one!($v.into_view(x..y), $p.view(&[q])),
                1 => $one!($v.into_view(x..), $p.view(&[Sel::Range(x, n)])),
                2 => $one!($v.into_view(..y), $p.view(&[Sel::Range(0, y)])),
                3 if y > x => $one!($v.into_view(x..=y - 1), $p.view(&[q])),
                4 if y > 0 => $one!($v.into_view(..=y - 1), $p.view(&[Sel::Range(0, y)])),
                5 => $one!($v.into_view(..), $p.view(&[$f])),
                6 if n > 0 => {
                    let j = $i(0).unwrap();
                    $one!($v.into_view(j), $p.view(&[Sel::At(j)]))
                }
                7 => $one!($v.into_view((std::ops::Bound::Included(x), std::ops::Bound::Excluded(y))), $p.view(&[q])),
                _ => $one!(unsafe { $ar.keep($v) }.$view(step(sx..sy, st)), $p.view(&[qs])),
            }
        }};
        (2, $v:ident, $p:ident, $a:ident, $ar:ident, $one:ident, $f:ident, $r:ident, $s:ident, $i:ident) => {{
            let (q0, x0, y0) = $r(0);
            let (q1, x1, y1) = $r(1);
            let (s0, a0, b0, t0) = $s(0);
            let (s1, a1, b1, t1) = $s(1);
            match ($a[3] % 14, $i(0), $i(1)) {
                (0, ..) => $one!($v.into_view(x0..y0, x1..y1), $p.view(&[q0, q1])),
                (1, ..) => $one!($v.into_view(x0..y0, ..), $p.view(&[q0, $f])),
                (2, ..) => $one!($v.into_view(.., x1..y1), $p.view(&[$f, q1])),
                (3, Some(i), _) => $one!($v.into_view(i, ..), $p.view(&[Sel::At(i), $f])),
                (4, _, Some(j)) => $one!($v.into_view(.., j), $p.view(&[$f, Sel::At(j)])),
                (5, Some(i), _) => $one!($v.into_view(i, x1..y1), $p.view(&[Sel::At(i), q1])),
                (6, _, Some(j)) => $one!($v.into_view(x0..y0, j), $p.view(&[q0, Sel::At(j)])),
                (7, Some(i), Some(j)) => $one!($v.into_view(i, j), $p.view(&[Sel::At(i), Sel::At(j)])),
                (8, ..) => $one!($v.into_view(step(a0..b0, t0), ..), $p.view(&[s0, $f])),
                (9, ..) => $one!($v.into_view(.., step(a1..b1, t1)), $p.view(&[$f, s1])),
                (10, Some(i), _) => $one!($v.into_view(i, step(a1..b1, t1)), $p.view(&[Sel::At(i), s1])),
                (11, ..) => $one!(unsafe { $ar.keep($v) }.$view(.., ..), $p.view(&[$f, Sel::Full])),
                (12, _, Some(j)) => $one!(unsafe { $ar.keep($v) }.$view(step(a0..b0, t0), j), $p.view(&[s0, Sel::At(j)])),
                _ => $one!(unsafe { $ar.keep($v) }.$view(step(a0..b0, t0), step(a1..b1, t1)), $p.view(&[s0, s1])),
            }
        }};
        (3, $v:ident, $p:ident, $a:ident, $ar:ident, $one:ident, $f:ident, $r:ident, $s:ident, $i:ident) => {{
            let (q0, x0, y0) = $r(0);
            let (q1, x1, y1) = $r(1);
            let (q2, x2, y2) = $r(2);
            let (s1, a1, b1, t1) = $s(1);
            let (s2, a2, b2, t2) = $s(2);
            match ($a[3] % 12, $i(0), $i(1), $i(2)) {
                (0, ..) => $one!($v.into_view(x0..y0, x1..y1, x2..y2), $p.view(&[q0, q1, q2])),
                (1, Some(i), ..) => $one!($v.into_view(i, x1..y1, ..), $p.view(&[Sel::At(i), q1, $f])),
                (2, Some(i), Some(j), _) => $one!($v.into_view(i, j, x2..y2), $p.view(&[Sel::At(i), Sel::At(j), q2])),
                (3, ..) => $one!($v.into_view(x0..y0, .., ..), $p.view(&[q0, $f, Sel::Full])),
                (4, _, Some(j), _) => $one!($v.into_view(.., j, ..), $p.view(&[$f, Sel::At(j), Sel::Full])),
                (5, _, Some(j), Some(k)) => $one!($v.into_view(.., j, k), $p.view(&[$f, Sel::At(j), Sel::At(k)])),
                (6, Some(i), _, Some(k)) => $one!($v.into_view(i, .., k), $p.view(&[Sel::At(i), $f, Sel::At(k)])),
                (7, ..) => $one!($v.into_view(.., step(a1..b1, t1), ..), $p.view(&[$f, s1, Sel::Full])),
                (8, _, _, Some(k)) => $one!(unsafe { $ar.keep($v) }.$view(.., x1..y1, k), $p.view(&[$f, q1, Sel::At(k)])),
                (9, Some(i), ..) => $one!($v.into_view(i, .., ..), $p.view(&[Sel::At(i), $f, Sel::Full])),
                (10, ..) => $one!($v.into_view(.., .., x2..y2), $p.view(&[$f, Sel::Full, q2])),
                _ => $one!(unsafe { $ar.keep($v) }.$view(x0..y0, step(a1..b1, t1), step(a2..b2, t2)), $p.view(&[q0, s1, s2])),
            }
        }};
        (4, $v:ident, $p:ident, $a:ident, $ar:ident, $one:ident, $f:ident, $r:ident, $s:ident, $i:ident) => {{
            let (q0, x0, y0) = $r(0);
            let (q1, x1, y1) = $r(1);
            let (q3, x3, y3) = $r(3);
            let (s2, a2, b2, t2) = $s(2);
            match ($a[3] % 5, $i(0), $i(2)) {
                (0, ..) => $one!($v.into_view(x0..y0, x1..y1, .., x3..y3), $p.view(&[q0, q1, $f, q3])),
                (1, Some(i), _) => $one!($v.into_view(i, x1..y1, .., ..), $p.view(&[Sel::At(i), q1, $f, Sel::Full])),
                (2, _, Some(k)) => $one!($v.into_view(x0..y0, .., k, ..), $p.view(&[q0, $f, Sel::At(k), Sel::Full])),
                (3, Some(i), Some(k)) => $one!($v.into_view(i, .., k, x3..y3), $p.view(&[Sel::At(i), $f, Sel::At(k), q3])),
                _ => $one!(unsafe { $ar.keep($v) }.$view(.., .., step(a2..b2, t2), ..), $p.view(&[$f, Sel::Full, s2, Sel::Full])),
            }
        }};
    }

    macro_rules! stepper {
        ($f:ident, $s:ty, $l:ty, $k:tt) => {
            #[allow(unreachable_patterns, unused_mut, unused_variables)]
            fn $f<'a, E: Elem>($($mut)? v: $V<'a, E, $s, $l>, p: Pos, a: &Args, ar: &mut Arena) -> Vec<Part<'a, E>> {
                body!(v, p, a, ar, $k)
            }
        };
    }
    stepper!(d0, (), Dense, 0);
    stepper!(d1, (Dyn,), Dense, 1);
    stepper!(d2, (Dyn, Dyn), Dense, 2);
    stepper!(d3, (Dyn, Dyn, Dyn), Dense, 3);
    stepper!(d4, (Dyn, Dyn, Dyn, Dyn), Dense, 4);
    stepper!(dd, DynRank, Dense, dynamic);
    stepper!(s1, (Dyn,), Strided, 1);
    stepper!(s2, (Dyn, Dyn), Strided, 2);
    stepper!(s3, (Dyn, Dyn, Dyn), Strided, 3);
    stepper!(sd, DynRank, Strided, dynamic);
    stepper!(c23, (Const<2>, Const<3>), Dense, 2);
    stepper!(cx3, (Dyn, Const<3>), Dense, 2);
    stepper!(sx3, (Dyn, Const<3>), Strided, 2);
    stepper!(c2x, (Const<2>, Dyn), Dense, 2);
    stepper!(c2xx, (Const<2>, Dyn, Dyn), Dense, 3);

    /// One step. Selections give one part, partitions several; none if it does not apply.
    pub fn advance<'a, E: Elem>(v: V<'a, E>, p: Pos, a: &Args, ar: &mut Arena) -> Vec<Part<'a, E>> {
        match v.norm(mix2(a[5], a[3])) {
            Norm::D0(v) => d0(v, p, a, ar),
            Norm::D1(v) => d1(v, p, a, ar),
            Norm::D2(v) => d2(v, p, a, ar),
            Norm::D3(v) => d3(v, p, a, ar),
            Norm::D4(v) => d4(v, p, a, ar),
            Norm::DD(v) => dd(v, p, a, ar),
            Norm::S1(v) => s1(v, p, a, ar),
            Norm::S2(v) => s2(v, p, a, ar),
            Norm::S3(v) => s3(v, p, a, ar),
            Norm::SD(v) => sd(v, p, a, ar),
            Norm::C23(v) => c23(v, p, a, ar),
            Norm::CX3(v) => cx3(v, p, a, ar),
            Norm::SX3(v) => sx3(v, p, a, ar),
            Norm::C2X(v) => c2x(v, p, a, ar),
            Norm::C2XX(v) => c2xx(v, p, a, ar),
        }
    }
}
    };
}

chain!(muts, ViewMut, ActMut, {mut}, std::slice::from_mut,
    at_mut, axis_at_mut, axis_expr_mut, col_mut, cols_mut, diag_mut, expr_mut,
    flatten_mut, iter_mut, lanes_mut, outer_expr_mut, permute_mut, remap_mut, reorder_mut,
    reshape_mut, row_mut, rows_mut, split_at_mut, split_axis_at_mut, view_mut);

chain!(refs, View, Act, {}, std::slice::from_ref,
    at, axis_at, axis_expr, col, cols, diag, expr,
    flatten, iter, lanes, outer_expr, permute, remap, reorder,
    reshape, row, rows, split_at, split_axis_at, view);
