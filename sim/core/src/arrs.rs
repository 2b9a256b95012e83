//! The table of array shapes, and access to arrays that does not go through library iterators.

use crate::elem::Elem;
use crate::model::{Ent, Model, product};
use crate::sim::sim;
use mdarray::{Const, Dyn, DynRank, Shape, Tensor};

pub trait SimShape: Shape + 'static {
    const SID: u8;
    /// Constant sizes; `None` if the rank is dynamic.
    const DIMS: Option<&'static [Option<usize>]>;

    fn rank_ok(rank: usize) -> bool {
        Self::DIMS.is_none_or(|d| d.len() == rank)
    }

    fn dims_ok(dims: &[usize]) -> bool {
        Self::DIMS.is_none_or(|d| d.len() == dims.len() && d.iter().zip(dims).all(|(c, x)| c.is_none_or(|c| c == *x)))
    }

    fn default_dims() -> Vec<usize> {
        match Self::DIMS {
            None => vec![0],
            Some(d) => d.iter().map(|x| x.unwrap_or(0)).collect(),
        }
    }

    fn head_dyn() -> bool {
        Self::DIMS.is_none_or(|d| d.first().is_none_or(|x| x.is_none()))
    }
}

macro_rules! shape {
    ($sid:expr, $t:ty, [$($d:expr),*]) => {
        impl SimShape for $t {
            const SID: u8 = $sid;
            const DIMS: Option<&'static [Option<usize>]> = Some(&[$($d),*]);
        }
    };
}

shape!(0, (), []);
shape!(1, (Dyn,), [None]);
shape!(2, (Dyn, Dyn), [None, None]);
shape!(3, (Dyn, Dyn, Dyn), [None, None, None]);
shape!(4, (Dyn, Dyn, Dyn, Dyn), [None, None, None, None]);
shape!(5, (Dyn, Dyn, Dyn, Dyn, Dyn), [None, None, None, None, None]);
shape!(6, (Dyn, Dyn, Dyn, Dyn, Dyn, Dyn), [None, None, None, None, None, None]);
impl SimShape for DynRank {
    const SID: u8 = 7;
    const DIMS: Option<&'static [Option<usize>]> = None;
}
shape!(8, (Dyn, Const<3>), [None, Some(3)]);
shape!(9, (Const<2>, Dyn), [Some(2), None]);
shape!(10, (Dyn, Const<2>, Dyn), [None, Some(2), None]);
shape!(11, (Const<2>, Const<3>), [Some(2), Some(3)]);
shape!(12, (Const<4>,), [Some(4)]);
shape!(13, (Dyn, Const<0>), [None, Some(0)]);
pub const NSHAPES: u8 = 14;

/// Runs generic code for a shape id.
#[macro_export]
macro_rules! by_shape {
    ($sid:expr, $f:ident, $e:ty, ($($a:expr),* $(,)?)) => {
        // Not all pairs of element and shape types are compiled.
        if const { !<$e as $crate::elem::Elem>::FULL } {
            match $sid {
                2 | 3 | 8 | 9 | 11 => $f::<$e, mdarray::Rank<2>>($($a),*),
                7 | 0 | 5 | 6 => $f::<$e, mdarray::DynRank>($($a),*),
                _ => $f::<$e, mdarray::Rank<1>>($($a),*),
            }
        } else {
            $crate::by_shape_all!($sid, $f, $e, ($($a),*))
        }
    };
}

#[macro_export]
macro_rules! by_shape_all {
    ($sid:expr, $f:ident, $e:ty, ($($a:expr),* $(,)?)) => {
        match $sid {
            0 => $f::<$e, ()>($($a),*),
            1 => $f::<$e, mdarray::Rank<1>>($($a),*),
            2 => $f::<$e, mdarray::Rank<2>>($($a),*),
            3 => $f::<$e, mdarray::Rank<3>>($($a),*),
            4 => $f::<$e, mdarray::Rank<4>>($($a),*),
            5 => $f::<$e, mdarray::Rank<5>>($($a),*),
            6 => $f::<$e, mdarray::Rank<6>>($($a),*),
            7 => $f::<$e, mdarray::DynRank>($($a),*),
            8 => $f::<$e, (mdarray::Dyn, mdarray::Const<3>)>($($a),*),
            9 => $f::<$e, (mdarray::Const<2>, mdarray::Dyn)>($($a),*),
            10 => $f::<$e, (mdarray::Dyn, mdarray::Const<2>, mdarray::Dyn)>($($a),*),
            11 => $f::<$e, (mdarray::Const<2>, mdarray::Const<3>)>($($a),*),
            12 => $f::<$e, (mdarray::Const<4>,)>($($a),*),
            _ => $f::<$e, (mdarray::Dyn, mdarray::Const<0>)>($($a),*),
        }
    };
}

pub fn sid_dims(sid: u8) -> Option<&'static [Option<usize>]> {
    fn d<E, S: SimShape>() -> Option<&'static [Option<usize>]> {
        S::DIMS
    }
    by_shape_all!(sid, d, (), ())
}

/// Dimensions for a shape from raw numbers, at most `max` elements (constant sizes permitting).
pub fn gen_dims(sid: u8, a: &[u64], max: usize) -> Vec<usize> {
    let mut z = crate::rng::Rng::new(a.iter().fold(77, |h, &x| crate::rng::mix2(h, x)));
    let pat: Vec<Option<usize>> = match sid_dims(sid) {
        Some(d) => d.to_vec(),
        None => vec![None; [0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7][z.below(11) as usize]],
    };
    // Now and then one long dimension, so that nothing depends on sizes being small.
    let long = match pat.iter().filter(|c| c.is_none()).count() as u64 {
        n if n > 0 && z.below(14) == 0 => {
            let range = if z.below(3) == 0 { 260 } else { 60 };
            Some((z.below(n) as usize, 10 + z.below(range) as usize))
        }
        _ => None,
    };
    let max = if let Some((_, l)) = long { max.max(l).max(150) } else { max };
    let mut d: Vec<usize> = pat
        .iter()
        .map(|c| {
            c.unwrap_or_else(|| match z.below(12) {
                0 => 0,
                1..=3 => 1,
                4..=6 => 2,
                7..=8 => 3,
                9 => 4,
                10 => 5,
                _ => 1 + z.below(9) as usize,
            })
        })
        .collect();
    let mut keep = usize::MAX;
    if let Some((n, l)) = long {
        keep = (0..d.len()).filter(|&i| pat[i].is_none()).nth(n).unwrap();
        d[keep] = l;
    }
    while product(&d) > max {
        let i = (0..d.len()).filter(|&i| pat[i].is_none() && (i != keep || d.iter().enumerate().all(|(j, &x)| j == i || pat[j].is_some() || x < 2))).max_by_key(|&i| d[i]);
        match i {
            Some(i) if d[i] > 1 => d[i] -= 1,
            _ => break,
        }
    }
    d
}

/// Reads dimensions and contents through the raw pointer. Reports a violation if the array is
/// not valid.
pub fn read<E: Elem, S: SimShape>(t: &Tensor<E, S>, what: &str) -> Option<Model> {
    let rank = t.rank();
    let dims: Vec<usize> = (0..rank).map(|i| t.dim(i)).collect();
    let s = sim();
    if !S::dims_ok(&dims) {
        s.violate("shape-invalid", format!("{what}: dimensions {dims:?} do not fit the shape type"));
        return None;
    }
    let len = dims.iter().try_fold(1usize, |a, &x| a.checked_mul(x));
    let Some(len) = len else {
        s.violate("shape-invalid", format!("{what}: length of {dims:?} overflows"));
        return None;
    };
    if t.len() != len {
        s.violate("shape-invalid", format!("{what}: len() is {} but dimensions are {dims:?}", t.len()));
        return None;
    }
    if t.capacity() < len {
        s.violate("shape-invalid", format!("{what}: capacity {} below length {len}", t.capacity()));
        return None;
    }
    let mut el = Vec::with_capacity(len.min(1 << 20));
    let p = t.as_ptr();
    for i in 0..len {
        match unsafe { E::peek(p.add(i)) } {
            Ok((id, val)) => el.push(Ent { id, val }),
            Err(e) => {
                s.violate(e, format!("{what}: element {i} of {dims:?} is not a live element"));
                return None;
            }
        }
    }
    Some(Model { dims, el })
}
