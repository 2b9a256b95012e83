//! Single steps on arrays with more elements, rows or columns than fit 16 bits: every way of
//! going through them, against index arithmetic. The elements are plain numbers.

use mdarray::expr::Expression;
use mdarray::{DynRank, Layout, Shape, Strided, Tensor, View};
use mdsim::sim::*;

type T2 = (usize, usize);

const DIMS: [[usize; 2]; 8] =
    [[70001, 1], [1, 70003], [300, 301], [2, 40009], [40013, 2], [66000, 0], [5, 13200], [13200, 5]];

/// `item` is the element expected at a position in row-major order.
fn walk<S: Shape, L: Layout>(v: View<'_, u32, S, L>, n: usize, item: &dyn Fn(usize) -> u32, way: u64, x: u64) -> Result<(), String> {
    let at = |k: usize, got: Option<u32>| -> Result<(), String> {
        let want = if k < n { Some(item(k)) } else { None };
        if got == want { Ok(()) } else { Err(format!("element {k} of {n} is {got:?} instead of {want:?}")) }
    };
    let all = |got: &[u32]| -> Result<(), String> {
        for (k, y) in got.iter().enumerate() {
            at(k, Some(*y))?;
        }
        if got.len() == n { Ok(()) } else { Err(format!("{} elements instead of {n}", got.len())) }
    };
    if v.len() != n || v.is_empty() != (n == 0) {
        return Err(format!("length {} instead of {n}", v.len()));
    }
    match way % 12 {
        0 => {
            let mut it = v.iter();
            for k in 0..n {
                if it.len() != n - k {
                    return Err(format!("{} elements left at {k} of {n}", it.len()));
                }
                at(k, it.next().copied())?;
            }
            at(n, it.next().copied())?;
            at(n, it.next().copied())
        }
        1 => {
            let mut got = Vec::with_capacity(n);
            v.iter().for_each(|y| got.push(*y));
            all(&got)
        }
        2 => {
            // In two parts, with a clone in between.
            let k = (x % (n as u64 + 1)) as usize;
            let mut it = v.clone().into_iter();
            let mut got: Vec<u32> = it.by_ref().take(k).copied().collect();
            let rest: Vec<u32> = it.clone().copied().collect();
            got.extend(it.copied());
            all(&got)?;
            if got[k..] == rest[..] { Ok(()) } else { Err(format!("a clone at {k} yields something else")) }
        }
        3 => {
            let mut it = v.iter();
            let mut k = 0;
            let mut h = x;
            while k < n {
                h = mdsim::rng::mix2(h, 9);
                let d = (h % 20000) as usize;
                at(k + d, it.nth(d).copied())?;
                k += d + 1;
            }
            Ok(())
        }
        4 => all(&v.to_tensor().into_vec()),
        5 => all(&v.to_vec()),
        6 => all(&v.clone().map(|y| *y ^ 5).map(|y| y ^ 5).into_iter().collect::<Vec<_>>()),
        7 => {
            let mut k = 0;
            let mut bad = Ok(());
            v.clone().zip(v.clone()).for_each(|(a, b)| {
                if bad.is_ok() {
                    bad = at(k, Some(*a)).and(at(k, Some(*b)));
                }
                k += 1;
            });
            bad?;
            if k == n { Ok(()) } else { Err(format!("{k} elements instead of {n}")) }
        }
        8 => {
            let t = v.to_tensor();
            if *t != *v || *v != *t {
                return Err("not equal to its copy".into());
            }
            if n == 0 {
                return Ok(());
            }
            let k = [0, n - 1, (x % n as u64) as usize, 65535.min(n - 1), 65536.min(n - 1)][(x / 7 % 5) as usize];
            let mut t = t;
            unsafe { *t.as_mut_ptr().add(k) ^= 1 << 30 };
            if *t == *v || *v == *t {
                return Err(format!("equal to a copy with another element {k}"));
            }
            Ok(())
        }
        9 => {
            if n > 0 && !v.contains(&item((x % n as u64) as usize)) {
                return Err("contained element not found".into());
            }
            if v.contains(&u32::MAX) { Err("element found that is not contained".into()) } else { Ok(()) }
        }
        10 => {
            if n == 0 {
                return Ok(());
            }
            let mut h = x;
            for r in 0..60 {
                h = mdsim::rng::mix2(h, 3);
                let k = match r {
                    0 => 0,
                    1 => n - 1,
                    2 => 65535.min(n - 1),
                    3 => 65536.min(n - 1),
                    _ => (h % n as u64) as usize,
                };
                at(k, Some(v[k]))?;
            }
            Ok(())
        }
        _ => {
            let f = v.remap::<DynRank, Strided>();
            let mut got = vec![];
            f.iter().for_each(|y| got.push(*y));
            all(&got)
        }
    }
}

pub fn step(a: &[u64; 6]) {
    let d = DIMS[(a[0] % 8) as usize];
    let [r, c] = d;
    let (view, way, x) = (a[1] % 14, a[2], a[3]);
    let out = sut(|| -> Result<(), String> {
        let mut k = 0;
        let mut t: Tensor<u32, T2> = Tensor::from_fn(d, |i| {
            let n = (i[0] * c + i[1]) as u32;
            if k == n {
                k += 1;
            }
            n
        });
        if k as usize != r * c {
            return Err("generator called out of order".into());
        }
        if a[4] % 3 == 0 {
            // Grown past its size and cut again.
            t.resize(&[r + 1, c + (a[4] / 3 % 2) as usize], 7);
            t.resize(&d, 7);
        }
        let of = |i: usize, j: usize| (i * c + j) as u32;
        let cols = |n: usize| n.max(1);
        match view {
            0 => walk(t.expr(), r * c, &|k| k as u32, way, x),
            1 => walk(t.reorder(), r * c, &|k| of(k % r, k / r), way, x),
            2 => walk(t.permute([1, 0]), r * c, &|k| of(k % r, k / r), way, x),
            3 => walk(t.view(mdarray::step(.., -1), ..), r * c, &|k| of(r - 1 - k / c, k % c), way, x),
            4 => {
                let s = 1 + (x % 5) as isize;
                let w = c.div_ceil(s as usize);
                walk(t.view(.., mdarray::step(.., s)), r * w, &|k| of(k / cols(w), k % cols(w) * s as usize), way, x)
            }
            5 => {
                let w = c.saturating_sub(1);
                walk(t.view(.., ..w), r * w, &|k| of(k / cols(w), k % cols(w)), way, x)
            }
            6 if r > 0 => {
                let i = (x % r as u64) as usize;
                walk(t.row(i), c, &|k| of(i, k), way, x)
            }
            7 if c > 0 => {
                let j = (x % c as u64) as usize;
                walk(t.col(j), r, &|k| of(k, j), way, x)
            }
            8 => walk(t.diag(0), r.min(c), &|k| of(k, k), way, x),
            9 => walk(t.flatten(), r * c, &|k| k as u32, way, x),
            10 => walk(t.reshape([c, r]), r * c, &|k| k as u32, way, x),
            11 => {
                // Outer views, one after the other.
                let mut n = 0;
                if t.outer_expr().len() != r {
                    return Err(format!("{} outer views", t.outer_expr().len()));
                }
                for (i, v) in t.outer_expr().into_iter().enumerate() {
                    if v.len() != c || (c > 0 && (v[0] != of(i, 0) || v[c - 1] != of(i, c - 1))) {
                        return Err(format!("outer view {i}"));
                    }
                    n += 1;
                }
                if n == r { Ok(()) } else { Err(format!("{n} outer views instead of {r}")) }
            }
            12 => {
                let mut n = 0;
                for (j, v) in t.cols().into_iter().enumerate() {
                    if v.len() != r || (r > 0 && (v[0] != of(0, j) || v[r - 1] != of(r - 1, j))) {
                        return Err(format!("column {j}"));
                    }
                    n += 1;
                }
                if n == c { Ok(()) } else { Err(format!("{n} columns instead of {c}")) }
            }
            _ => {
                if x % 2 == 0 {
                    let got: Vec<u32> = t.into_iter().collect();
                    return if got.len() == r * c && got.iter().enumerate().all(|(k, y)| *y == k as u32) {
                        Ok(())
                    } else {
                        Err("by-value iteration".into())
                    };
                }
                let n = r * c;
                let mut k = 0;
                let mut good = true;
                t.expr().enumerate().for_each(|(i, y)| {
                    good &= i == k && *y == k as u32;
                    k += 1;
                });
                if good && k == n { Ok(()) } else { Err(format!("enumeration, {k} elements of {n}")) }
            }
        }
    });
    match out {
        Out::Ok(Ok(())) => {}
        Out::Ok(Err(m)) => sim().violate("large-array", format!("dimensions {d:?}, view {view}, way {}: {m}", way % 12)),
        Out::Panic(m) => sim().violate("unexpected-panic", format!("dimensions {d:?}, view {view}, way {}: {m}", way % 12)),
        _ => {}
    }
}

/// A history of a few operations on one array of such a size, against a list of rows.
pub fn history(a: &[u64; 6]) {
    // Not the one without elements: its dimensions are replaced when something is appended.
    let d = DIMS[[0, 1, 2, 3, 4, 6, 7][(a[0] % 7) as usize]];
    let out = sut(|| -> Result<(), String> {
        let [r, c] = d;
        let mut next = (r * c) as u32;
        let mut fresh = || {
            next += 1;
            next
        };
        let mut t: Tensor<u32, T2> = Tensor::from_fn(d, |i| (i[0] * c + i[1]) as u32);
        let mut m: Vec<Vec<u32>> = (0..r).map(|i| (0..c).map(|j| (i * c + j) as u32).collect()).collect();
        let mut w = c;
        let mut h = a[1];
        for step in 0..3 + a[2] % 3 {
            h = mdsim::rng::mix2(h, 1 + step);
            let what = h % 9;
            h = mdsim::rng::mix2(h, 7);
            let r = m.len();
            let (x, y) = ((h % (r as u64 + 1)) as usize, (h / 100_000 % (r as u64 + 1)) as usize);
            let (x, y) = (x.min(y), x.max(y));
            let few = (h % 3) as usize;
            match what {
                0 => {
                    let (r2, w2) = ([x, r + few, r][(h / 7 % 3) as usize], [w, w + 1, w.max(2) - 1][(h / 11 % 3) as usize]);
                    let v = fresh();
                    t.resize(&[r2, w2], v);
                    m.resize(r2, vec![v; w]);
                    m.iter_mut().for_each(|l| l.resize(w2, v));
                    w = w2;
                }
                1 => {
                    t.truncate(y);
                    m.truncate(y);
                }
                2 => {
                    let got: Vec<u32> = t.drain(x..y).into_iter().collect();
                    let want: Vec<u32> = m.drain(x..y).flatten().collect();
                    if got != want {
                        return Err(format!("drained {x}..{y} of {r}: other elements"));
                    }
                }
                3 => {
                    // Given up in the middle.
                    let k = (h / 3 % 70_000) as usize;
                    let got: Vec<u32> = t.drain(x..y).into_iter().take(k).collect();
                    let want: Vec<u32> = m.drain(x..y).flatten().take(k).collect();
                    if got != want {
                        return Err(format!("drained {x}..{y} of {r}, up to {k}: other elements"));
                    }
                }
                4 => {
                    let mut u = Tensor::<u32, T2>::from_fn([1 + few, w], |_| fresh());
                    for i in 0..1 + few {
                        m.push((0..w).map(|j| u[[i, j]]).collect());
                    }
                    if h % 2 == 0 {
                        t.append(&mut u);
                    } else {
                        t.expand(&u);
                    }
                }
                5 => {
                    let mut u = t.clone();
                    t.append(&mut u);
                    let more = m.clone();
                    m.extend(more);
                }
                6 => {
                    t = t.map(|x| x ^ (1 << 29));
                    m.iter_mut().flatten().for_each(|x| *x ^= 1 << 29);
                }
                7 => {
                    let k = fresh();
                    t += mdarray::expr::fill(k);
                    m.iter_mut().flatten().for_each(|x| *x += k);
                    t.shrink_to_fit();
                }
                _ => {
                    let n = r * w;
                    t = t.into_shape([w, r]).into_dyn().into_vec_shape(n)?.into_shape([r, w]);
                }
            }
            if m.len() * w > 200_000 {
                t.truncate(1000);
                m.truncate(1000);
            }
            if t.dim(1) != w && !m.is_empty() || t.dim(0) != m.len() {
                return Err(format!("after step {step} ({what}): dimensions {:?} instead of [{}, {w}]", t.shape(), m.len()));
            }
            if !t.iter().eq(m.iter().flatten()) {
                return Err(format!("after step {step} ({what}): other elements"));
            }
        }
        Ok(())
    });
    match out {
        Out::Ok(Ok(())) => {}
        Out::Ok(Err(m)) => sim().violate("large-array", format!("dimensions {d:?}, {m}")),
        Out::Panic(m) => sim().violate("unexpected-panic", format!("dimensions {d:?}: {m}")),
        _ => {}
    }
}

trait Flat {
    fn into_vec_shape(self, n: usize) -> Result<Tensor<u32, (usize,)>, String>;
}
impl Flat for Tensor<u32, DynRank> {
    fn into_vec_shape(self, n: usize) -> Result<Tensor<u32, (usize,)>, String> {
        let v = self.into_vec();
        if v.len() != n {
            return Err(format!("{} elements in the vector instead of {n}", v.len()));
        }
        Ok(Tensor::from(v))
    }
}
