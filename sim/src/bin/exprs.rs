//! World "exprs": lazily built expressions with effectful closures, generators, clones and
//! operators. The trace of all calls into user code is compared with the reference evaluation:
//! one group of calls per result element, in row-major order.

use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, DynRank, Rank, Shape, Slice, Strided, Tensor, View};
use mdsim::arrs::*;
use mdsim::driver::{self, RunOut, World, place_faults};
use mdsim::elem::*;
use mdsim::heap;
use mdsim::model::*;
use mdsim::plan::{self, Plan};
use mdsim::rng::{mix, mix2};
use mdsim::rng::Rng;
use mdsim::sim::*;
use std::borrow::Borrow;

type Args = [u64; 6];

const EXPR: u16 = 1;

fn op_name(c: u16) -> &'static str {
    match c {
        EXPR => "expression",
        _ => "end",
    }
}

// ---------------------------------------------------------------------------- reference

fn code(k: K, tag: u64) -> u64 {
    ((k as u64) << 56) | (tag & 0x00ff_ffff_ffff_ffff)
}

fn nodeval(j: u64, ops: &[u64]) -> u64 {
    ops.iter().fold(mix(j ^ 0x5eed), |h, &x| mix2(h, x))
}

/// User closure of node `j`: its operands end up in the trace and in the result.
fn hit(j: u64, ops: &[u64]) -> Tok {
    let v = nodeval(j, ops);
    point(K::Closure, v, || Tok::make(v))
}

// The closures are made in functions without type parameters: otherwise their types contain
// those of the whole expression, more than once per level.

fn un(j: u64) -> impl FnMut(Tok) -> Tok {
    move |x| {
        let r = hit(j, &[x.val()]);
        drop(x);
        r
    }
}

fn un_r(j: u64) -> impl for<'a> FnMut(&'a Tok) -> Tok {
    move |x| hit(j, &[x.val()])
}

fn un_m(j: u64) -> impl for<'a> FnMut(&'a mut Tok) -> Tok {
    move |x| hit(j, &[x.val()])
}

fn bi_rr(j: u64) -> impl for<'a, 'b> FnMut((&'a Tok, &'b Tok)) -> Tok {
    move |(x, y)| hit(j, &[x.val(), y.val()])
}

fn bi_rv(j: u64) -> impl for<'a> FnMut((&'a Tok, Tok)) -> Tok {
    move |(x, y)| {
        let r = hit(j, &[x.val(), y.val()]);
        drop(y);
        r
    }
}

fn bi_vr(j: u64) -> impl for<'a> FnMut((Tok, &'a Tok)) -> Tok {
    move |(x, y)| {
        let r = hit(j, &[x.val(), y.val()]);
        drop(x);
        r
    }
}

fn bi_vm(j: u64) -> impl for<'a> FnMut((Tok, &'a mut Tok)) -> Tok {
    move |(x, y)| {
        let r = hit(j, &[x.val(), y.val()]);
        drop(x);
        r
    }
}

fn bi_vv(j: u64) -> impl FnMut((Tok, Tok)) -> Tok {
    move |(x, y)| {
        let r = hit(j, &[x.val(), y.val()]);
        drop(y);
        drop(x);
        r
    }
}

fn enum_v(j: u64) -> impl FnMut((usize, Tok)) -> Tok {
    move |(i, x)| {
        let r = hit(j, &[i as u64, x.val()]);
        drop(x);
        r
    }
}

fn enum_r(j: u64) -> impl for<'a> FnMut((usize, &'a Tok)) -> Tok {
    move |(i, x)| hit(j, &[i as u64, x.val()])
}

#[allow(clippy::should_implement_trait)]
fn generator(j: u64) -> impl FnMut() -> Tok + Clone {
    move || hit(j, &[])
}

fn at(j: u64, d: Vec<usize>) -> impl for<'a> FnMut(&'a [usize]) -> Tok {
    move |i| hit(j, &[flat(&d, i) as u64])
}

fn at2(j: u64, d: Vec<usize>) -> impl for<'a> FnMut(&'a [usize]) -> Tok {
    move |i| hit(j, &[flat(&d, i) as u64, i.len() as u64])
}

/// Reference of an expression: result and, per element, the calls into user code.
#[derive(Clone)]
struct Spec {
    dims: Vec<usize>,
    vals: Vec<u64>,
    ev: Vec<Vec<u64>>,
    enumerated: bool,
    next: u64,
}

impl Spec {
    fn new(dims: &[usize], vals: Vec<u64>) -> Spec {
        let n = vals.len();
        Spec { dims: dims.to_vec(), vals, ev: vec![vec![]; n], enumerated: false, next: 1 }
    }

    fn len(&self) -> usize {
        self.vals.len()
    }

    fn call(mut self, k: K, f: impl Fn(usize, u64) -> u64) -> Spec {
        for i in 0..self.len() {
            let v = f(i, self.vals[i]);
            self.ev[i].push(code(k, v));
            self.vals[i] = v;
        }
        self
    }

    /// A call whose result is not the element (generators).
    fn aside(mut self, k: K, f: impl Fn(usize) -> u64) -> Spec {
        for i in 0..self.len() {
            self.ev[i].push(code(k, f(i)));
        }
        self
    }

    fn node(self, j: u64, ops: impl Fn(usize, u64) -> Vec<u64>) -> Spec {
        self.call(K::Closure, |i, v| nodeval(j, &ops(i, v)))
    }

    /// Broadcast to more dimensions.
    fn tile(mut self, dims: &[usize]) -> Spec {
        let n = product(dims);
        let m = self.len().max(1);
        self.vals = (0..n).map(|k| self.vals[k % m]).collect();
        self.ev = (0..n).map(|k| self.ev[k % m].clone()).collect();
        self.dims = dims.to_vec();
        self
    }

    fn id(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
}

struct Ctx {
    a: Args,
    fault: u8,
    what: Vec<&'static str>,
    lens: Vec<usize>,
    evaluated: u64,
    interrupted: u64,
}

fn val(seed: u64, k: usize) -> u64 {
    mix2(seed, k as u64 + 3)
}

fn vals(seed: u64, n: usize) -> Vec<u64> {
    (0..n).map(|k| val(seed, k)).collect()
}

fn flat(dims: &[usize], i: &[usize]) -> usize {
    i.iter().zip(dims).fold(0, |a, (i, d)| a * d + i)
}

fn tensor<S: Shape>(dims: &[usize], seed: u64) -> Tensor<Tok, S> {
    let s: S = Shape::from_dims(dims);
    Tensor::from_fn(s, |i: &[usize]| Tok::make(val(seed, flat(dims, i))))
}

/// A base array in which `spaced` finds a strided view of dimensions `dims`.
fn spaced_base(dims: &[usize], seed: u64, how: u64) -> Tensor<Tok, DynRank> {
    let r = dims.len();
    if r == 0 {
        return tensor(dims, seed);
    }
    match how % 3 {
        // Reversed order of dimensions.
        0 => {
            let mut d = dims.to_vec();
            d.reverse();
            Tensor::from_fn(&d[..], |i: &[usize]| {
                let mut i = i.to_vec();
                i.reverse();
                Tok::make(val(seed, flat(dims, &i)))
            })
        }
        // One more inner dimension.
        1 => {
            let mut d = dims.to_vec();
            d.push(3);
            Tensor::from_fn(&d[..], |i: &[usize]| Tok::make(if i[r] == 1 { val(seed, flat(dims, &i[..r])) } else { 77 }))
        }
        // Padding in the last dimension.
        _ => {
            let mut d = dims.to_vec();
            d[r - 1] += 2;
            Tensor::from_fn(&d[..], |i: &[usize]| {
                let mut j = i.to_vec();
                if i[r - 1] == 0 || i[r - 1] > dims[r - 1] {
                    return Tok::make(78);
                }
                j[r - 1] -= 1;
                Tok::make(val(seed, flat(dims, &j)))
            })
        }
    }
}

fn spaced<'a, S: Shape>(t: &'a Tensor<Tok, DynRank>, dims: &[usize], how: u64) -> View<'a, Tok, S, Strided> {
    let r = dims.len();
    if r == 0 {
        return t.expr().into_mapping::<DynRank, Strided>().into_mapping();
    }
    match how % 3 {
        0 => t.expr().into_mapping::<DynRank, Strided>().into_permuted(&(0..r).rev().collect::<Vec<_>>()[..]).into_mapping(),
        1 => unsafe { fix(t.axis_at(r, 1)).into_mapping() },
        _ => {
            let (_, b) = t.split_axis_at(r - 1, 1);
            let b = unsafe { fix(b) };
            let n = dims[r - 1];
            let b: &'a View<'a, Tok, DynRank, Strided> = unsafe { &*(&b as *const _) };
            let (c, _) = b.split_axis_at(r - 1, n);
            unsafe { fix(c).into_mapping() }
        }
    }
}

/// The views of `spaced` borrow from `t` only.
unsafe fn fix<'a, S: Shape, L: mdarray::Layout>(v: View<'_, Tok, S, L>) -> View<'a, Tok, DynRank, Strided> {
    let v: View<'_, Tok, DynRank, Strided> = v.into_mapping();
    unsafe { std::mem::transmute(v) }
}

fn low_dims(dims: &[usize], x: u64) -> Vec<usize> {
    dims[(x % (dims.len() as u64 + 1)) as usize..].to_vec()
}

fn high_dims(dims: &[usize], x: u64) -> Vec<usize> {
    let mut d = match x % 5 {
        0 => vec![2],
        1 => vec![2, 2],
        2 => vec![1],
        3 => vec![3],
        _ => vec![0],
    };
    d.extend_from_slice(dims);
    d
}

// ---------------------------------------------------------------------------- evaluation

/// Compares the trace with the groups of calls expected for each element. `done` elements are
/// complete; if interrupted, the next one may have started.
fn compare(c: &Ctx, ev: &[Vec<u64>], trace: &[u64], interrupted: bool) {
    let keep = |x: u64| !matches!((x >> 56) as u8, k if k == K::Drop as u8 || k == K::Make as u8 || k == K::Access as u8);
    let mut it = trace.iter().copied().filter(|&x| keep(x));
    for (k, g) in ev.iter().enumerate() {
        let mut want = g.clone();
        while !want.is_empty() {
            match it.next() {
                None => {
                    if !interrupted {
                        sim().violate("missing-call", format!("{:?}: element {k} of {}: {} of {} calls missing", c.what, ev.len(), want.len(), g.len()));
                    }
                    return;
                }
                Some(x) => match want.iter().position(|&y| y == x) {
                    Some(p) => _ = want.swap_remove(p),
                    None => {
                        let kind = KNAMES[(x >> 56) as usize];
                        let at = ev.iter().position(|g| g.contains(&x));
                        sim().violate(
                            "wrong-call",
                            format!("{:?}: at element {k} of {}: a {kind} call that belongs to element {at:?} (or was made already)", c.what, ev.len()),
                        );
                        return;
                    }
                },
            }
        }
    }
    if it.next().is_some() {
        sim().violate("extra-call", format!("{:?}: user code called after the last of {} elements", c.what, ev.len()));
    }
}

fn values<'a>(c: &Ctx, got: impl Iterator<Item = &'a Tok>, want: &[u64]) {
    let got: Vec<u64> = got.map(|x| x.val()).collect();
    if got != want {
        let k = (0..got.len().min(want.len())).find(|&k| got[k] != want[k]);
        sim().violate("wrong-value", format!("{:?}: {} elements instead of {}, first difference at {k:?}", c.what, got.len(), want.len()));
    }
}

fn dims_of<S: Shape, L: mdarray::Layout>(s: &Slice<Tok, S, L>) -> Vec<usize> {
    (0..s.rank()).map(|i| s.dim(i)).collect()
}

fn raw<S: Shape>(s: &Slice<Tok, S>) -> impl Iterator<Item = &Tok> {
    let (p, n) = (s.as_ptr(), s.len());
    (0..n).map(move |i| unsafe { &*p.add(i) })
}

/// What is done with an expression: adaptors and evaluators, selected by type.
trait Cont {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx);
}

struct Ev<const KK: u64>;
struct A2<const KK: u64, C>(std::marker::PhantomData<C>);
struct A1<const KK: u64, C>(std::marker::PhantomData<C>);

fn start(c: &mut Ctx) {
    c.evaluated += 1;
    let s = sim();
    s.recorder.as_mut().unwrap().clear();
    s.cb = 0;
    s.fault = c.fault;
}

fn consume(x: Tok) {
    point(K::Closure, mix(x.val()), || ());
    drop(x);
}

/// Checks made before the evaluation.
fn ready(edims: Vec<usize>, sp: &Spec, c: &mut Ctx) -> bool {
    if edims != sp.dims {
        sim().violate("wrong-shape", format!("{:?}: shape {edims:?} instead of {:?}", c.what, sp.dims));
        return false;
    }
    if sim().recorder.as_ref().is_some_and(|r| r.iter().any(|x| (x >> 56) as u8 == K::Closure as u8 || (x >> 56) as u8 == K::Clone as u8)) {
        sim().violate("early-call", format!("{:?}: user code called while the expression was built", c.what));
        return false;
    }
    true
}

/// Judges the outcome; the result is handed back for inspection.
fn judge<R>(c: &mut Ctx, want: &[Vec<u64>], out: Out<R>) -> Option<R> {
    sim().fault = 0;
    let fired = sim().fired;
    match out {
        Out::Ok(r) => {
            let rec = sim().recorder.replace(vec![]).unwrap();
            if fired {
                sim().violate("panic-swallowed", format!("{:?}", c.what));
            } else {
                compare(c, want, &rec, false);
            }
            return Some(r);
        }
        Out::Injected => {
            c.interrupted += 1;
            let rec = sim().recorder.replace(vec![]).unwrap();
            compare(c, want, &rec, true);
        }
        Out::Oom => {}
        Out::Panic(m) => sim().violate("unexpected-panic", format!("{:?}: {m}", c.what)),
    }
    None
}

macro_rules! run {
    ($c:ident, $want:expr, $name:expr, $f:expr, $check:expr) => {{
        $c.what.push($name);
        start($c);
        let out = sut($f);
        if let Some(r) = judge($c, $want, out) {
            if sim().viol.is_none() {
                $check($c, &r);
            }
            if sim().viol.is_some() {
                std::mem::forget(r);
            }
        }
    }};
}

macro_rules! consumer {
    ($want:ident, $sp:ident) => {
        for (k, g) in $want.iter_mut().enumerate() {
            g.push(code(K::Closure, mix($sp.vals[k])));
        }
    };
}

#[allow(unused)]
impl Cont for Ev<0> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    run!(c, &want[..done], "eval", || e.eval(), |c: &mut Ctx, r: &<E::Shape as Shape>::Owned<Tok>| {
            let s: &Slice<Tok, E::Shape> = r.borrow();
            if dims_of(s) != d2 {
                sim().violate("wrong-shape", format!("{:?}: {:?} instead of {d2:?}", c.what, dims_of(s)));
            } else {
                values(c, raw(s), &sv);
            }
        })
    }
}

#[allow(unused)]
impl Cont for Ev<1> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    run!(c, &want[..done], "from_expr", || Tensor::<Tok, E::Shape>::from_expr(e), |c: &mut Ctx, r: &Tensor<Tok, E::Shape>| {
            if dims_of(r) != d2 {
                sim().violate("wrong-shape", format!("{:?}: {:?} instead of {d2:?}", c.what, dims_of(r)));
            } else {
                values(c, raw(r), &sv);
            }
        })
    }
}

#[allow(unused)]
impl Cont for Ev<2> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
        if !dims.is_empty() {
            {
            // Appended to existing rows.
            let mut td = dims.clone();
            td[0] = (c.a[3] % 4) as usize;
            let mut t = tensor::<DynRank>(&td, seed);
            let mut all: Vec<u64> = raw(&t).map(|x| x.val()).collect();
            let old = all.len();
            all.extend(&sv);
            run!(c, &want[..done], "eval_into", || _ = e.eval_into(&mut t), |_: &mut Ctx, _: &()| ());
            let got: Vec<u64> = raw(&t).map(|x| x.val()).collect();
            if sim().viol.is_none() && if sim().fired { got.iter().any(|x| !all.contains(x)) } else { got != all } {
                sim().violate("wrong-value", format!("{:?}: contents after appending", c.what));
            }
            if sim().viol.is_some() {
                std::mem::forget(t);
            }
        }
}
    }
}

#[allow(unused)]
impl Cont for Ev<3> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    run!(c, &want[..done], "collect", || e.into_iter().collect::<Vec<Tok>>(), |c: &mut Ctx, r: &Vec<Tok>| values(c, r.iter(), &sv))
    }
}

#[allow(unused)]
impl Cont for Ev<4> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    run!(c, &want[..done], "next",
            || {
                let mut v = Vec::new();
                let mut it = e.into_iter();
                while let Some(x) = it.next() {
                    v.push(x);
                }
                v
            },
            |c: &mut Ctx, r: &Vec<Tok>| values(c, r.iter(), &sv)
        )
    }
}

#[allow(unused)]
impl Cont for Ev<5> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            // Abandoned after some elements.
            let k = (c.a[4] % (n as u64 + 2)) as usize;
            done = k.min(n);
            run!(c, &want[..done], "next_some",
                || {
                    let mut v = Vec::new();
                    let mut it = e.into_iter();
                    for _ in 0..k {
                        if let Some(x) = it.next() {
                            v.push(x);
                        }
                    }
                    v
                },
                |c: &mut Ctx, r: &Vec<Tok>| values(c, r.iter(), &sv[..done])
            )
        }
    }
}

#[allow(unused)]
impl Cont for Ev<6> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            consumer!(want, sp);
            run!(c, &want[..done], "for_each", || e.for_each(consume), |_: &mut Ctx, _: &()| ())
        }
    }
}

#[allow(unused)]
impl Cont for Ev<7> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            consumer!(want, sp);
            run!(c, &want[..done], "fold",
                || {
                    e.fold(0u64, |acc, x| {
                        let v = mix2(acc, x.val());
                        consume(x);
                        v
                    })
                },
                |c: &mut Ctx, r: &u64| {
                    if *r != sv.iter().fold(0, |h, &x| mix2(h, x)) {
                        sim().violate("wrong-value", format!("{:?}: folded in another order", c.what));
                    }
                }
            )
        }
    }
}

#[allow(unused)]
impl Cont for Ev<8> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            let mut t = tensor::<DynRank>(&dims, seed);
            run!(c, &want[..done], "assign", || t.assign(e), |_: &mut Ctx, _: &()| ());
            if !sim().fired {
                values(c, raw(&t), &sv);
            }
            if sim().viol.is_some() {
                std::mem::forget(t);
            }
        }
    }
}

#[allow(unused)]
impl Cont for Ev<9> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            let mut t = tensor::<DynRank>(&dims, seed);
            let res: Vec<u64> = (0..n).map(|k| opval(16, tv[k], sv[k])).collect();
            for (k, g) in want.iter_mut().enumerate() {
                g.push(code(K::OpAssign, res[k]));
            }
            run!(c, &want[..done], "add_assign", || t += e, |_: &mut Ctx, _: &()| ());
            if !sim().fired {
                values(c, raw(&t), &res);
            }
            if sim().viol.is_some() {
                std::mem::forget(t);
            }
        }
    }
}

#[allow(unused)]
impl Cont for Ev<10> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            let t = tensor::<DynRank>(&dims, seed);
            let res: Vec<u64> = (0..n).map(|k| opval(0, tv[k], sv[k])).collect();
            for (k, g) in want.iter_mut().enumerate() {
                g.push(code(K::Op, res[k]));
            }
            run!(c, &want[..done], "tensor+expr", || t + e, |c: &mut Ctx, r: &Tensor<Tok, DynRank>| values(c, raw(r), &res))
        }
    }
}

#[allow(unused)]
impl Cont for Ev<11> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            let t = tensor::<DynRank>(&dims, seed);
            let res: Vec<u64> = (0..n).map(|k| nodeval(990, &[tv[k], sv[k]])).collect();
            for (k, g) in want.iter_mut().enumerate() {
                g.push(code(K::Closure, res[k]));
            }
            run!(c, &want[..done], "zip_with",
                || Apply::zip_with(t, e, bi_vv(990)),
                |c: &mut Ctx, r: &Tensor<Tok, DynRank>| values(c, raw(r), &res)
            )
        }
    }
}

#[allow(unused)]
impl Cont for Ev<12> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
        if E::IS_REPEATABLE && !sp.enumerated {
            {
            let hd = high_dims(&dims, c.a[3]);
            let big = Spec { ..sp.clone() }.tile(&hd);
            want = big.ev.clone();
            done = want.len();
            let mut t = tensor::<DynRank>(&hd, seed);
            run!(c, &want[..done], "assign_broadcast", || t.assign(e), |_: &mut Ctx, _: &()| ());
            if !sim().fired {
                values(c, raw(&t), &big.vals);
            }
            if sim().viol.is_some() {
                std::mem::forget(t);
            }
        }
}
    }
}

#[allow(unused)]
impl Cont for Ev<13> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            // Some single steps, then the rest in one go.
            let k = (c.a[4] % (n as u64 + 2)) as usize;
            run!(c, &want[..done], "next_fold",
                || {
                    let mut v = Vec::new();
                    let mut it = e.into_iter();
                    for _ in 0..k {
                        if let Some(x) = it.next() {
                            v.push(x);
                        }
                    }
                    it.for_each(|x| v.push(x));
                    v
                },
                |c: &mut Ctx, r: &Vec<Tok>| values(c, r.iter(), &sv)
            )
        }
    }
}

#[allow(unused)]
impl Cont for Ev<14> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            // Never evaluated.
            want.clear();
            done = 0;
            run!(c, &want[..done], "dropped", || drop(e), |_: &mut Ctx, _: &()| ())
        }
    }
}

#[allow(unused)]
impl Cont for Ev<15> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            // Through a strided target.
            let mut td = dims.clone();
            td.reverse();
            let mut t = tensor::<DynRank>(&td, seed);
            let perm: Vec<usize> = (0..dims.len()).rev().collect();
            run!(c, &want[..done], "assign_permuted", || t.permute_mut(&perm[..]).assign(e), |_: &mut Ctx, _: &()| ());
            if !sim().fired && sim().viol.is_none() {
                let got: Vec<u64> = raw(&t).map(|x| x.val()).collect();
                let mut idx = vec![0; dims.len()];
                for k in 0..n {
                    let mut j = idx.clone();
                    j.reverse();
                    if got[flat(&td, &j)] != sv[k] {
                        sim().violate("wrong-value", format!("{:?}: element {k} of a permuted target", c.what));
                        break;
                    }
                    bump(&mut idx, &dims);
                }
            }
            if sim().viol.is_some() {
                std::mem::forget(t);
            }
        }
    }
}

#[allow(unused)]
impl Cont for Ev<16> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            consumer!(want, sp);
            let mut k = 0;
            run!(c, &want[..done], "for_loop",
                || {
                    for x in e {
                        k += 1;
                        consume(x);
                    }
                    k
                },
                |c: &mut Ctx, r: &usize| {
                    if *r != n {
                        sim().violate("wrong-value", format!("{:?}: {r} elements instead of {n}", c.what));
                    }
                }
            )
        }
    }
}

#[allow(unused)]
impl Cont for Ev<17> {
    fn go<E: Expression<Item = Tok>>(e: E, sp: Spec, c: &mut Ctx) {
        if !ready((0..e.rank()).map(|i| e.dim(i)).collect(), &sp, c) {
            return;
        }
        let n = sp.len();
        let seed = c.a[5] ^ 0xeea1;
        let (dims, d2) = (sp.dims.clone(), sp.dims.clone());
        let tv = vals(seed, n);
        let (mut want, mut done) = (sp.ev.clone(), n);
        let sv = sp.vals.clone();
                    {
            // The last element only: all are evaluated, one after the other.
            run!(c, &want[..done], "last", || e.into_iter().last(), |c: &mut Ctx, r: &Option<Tok>| {
                if r.as_ref().map(|x| x.val()) != sv.last().copied() {
                    sim().violate("wrong-value", format!("{:?}: last element", c.what));
                }
            })
        }
    }
}

// ---------------------------------------------------------------------------- adaptors

#[allow(unused)]
impl<C: Cont> Cont for A2<0, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let seed = c.a[5] ^ 0x22;
        let j = sp.id();
                    C::go(e, sp, c)
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A2<1, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let seed = c.a[5] ^ 0x22;
        let j = sp.id();
                    {
            c.what.push("map");
            let sp = sp.node(j, |_, v| vec![v]);
            C::go(
                e.map(un(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A2<2, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let seed = c.a[5] ^ 0x22;
        let j = sp.id();
                    {
            c.what.push("low.zip");
            let ld = low_dims(&dims, c.a[2] / 64);
            let low = tensor::<DynRank>(&ld, seed);
            let lv = vals(seed, product(&ld));
            let m = lv.len().max(1);
            let sp = sp.node(j, |i, v| vec![lv[i % m], v]);
            C::go(
                low.expr().zip(e).map(bi_rv(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A2<3, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let seed = c.a[5] ^ 0x22;
        let j = sp.id();
                    {
            c.what.push("zip_strided");
            let how = c.a[2] / 64;
            let t = spaced_base(&dims, seed, how);
            let v = spaced::<DynRank>(&t, &dims, how);
            let tv = vals(seed, sp.len());
            let sp = sp.node(j, |i, v| vec![v, tv[i]]);
            C::go(
                e.zip(v).map(bi_vr(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A2<4, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let seed = c.a[5] ^ 0x22;
        let j = sp.id();
        if E::IS_REPEATABLE && !sp.enumerated {
            {
            c.what.push("big.zip");
            let hd = high_dims(&dims, c.a[2] / 64);
            let big = tensor::<DynRank>(&hd, seed);
            let bv = vals(seed, product(&hd));
            let sp = sp.tile(&hd).node(j, |i, v| vec![bv[i], v]);
            C::go(
                big.expr().zip(e).map(bi_rv(j)),
                sp,
                c,
            )
        }
}
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<0, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    C::go(e, sp, c)
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<1, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("map");
            let sp = sp.node(j, |_, v| vec![v]);
            C::go(
                e.map(un(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<2, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("zip");
            let t = tensor::<E::Shape>(&dims, seed);
            let sp = sp.node(j, |i, v| vec![v, tv[i]]);
            C::go(
                e.zip(&t).map(bi_vr(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<3, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("zip_low");
            let ld = low_dims(&dims, c.a[2]);
            let low = tensor::<DynRank>(&ld, seed);
            let lv = vals(seed, product(&ld));
            let m = lv.len().max(1);
            let sp = sp.node(j, |i, v| vec![v, lv[i % m]]);
            C::go(
                e.zip(&low).map(bi_vr(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<4, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("low.zip");
            let how = c.a[3] / 16;
            let ld = low_dims(&dims, c.a[2]);
            let low = spaced_base(&ld, seed, how);
            let lv = vals(seed, product(&ld));
            let m = lv.len().max(1);
            let sp = sp.node(j, |i, v| vec![lv[i % m], v]);
            C::go(
                spaced::<DynRank>(&low, &ld, how).zip(e).map(bi_rv(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<5, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("enumerate");
            let mut sp = sp.node(j, |i, v| vec![i as u64, v]);
            sp.enumerated = true;
            C::go(
                e.enumerate().map(enum_v(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<6, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("zip_fill_with");
            let g = nodeval(j2, &[]);
            let sp = sp.aside(K::Closure, |_| g).node(j, |_, v| vec![v, g]);
            C::go(
                e.zip(expr::fill_with(generator(j2))).map(bi_vv(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<7, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("zip_from_fn");
            let d = dims.clone();
            let g = |i: usize| nodeval(j2, &[i as u64]);
            let sp = sp.aside(K::Closure, g).node(j, |i, v| vec![v, g(i)]);
            let s: E::Shape = Shape::from_dims(&dims);
            C::go(
                e.zip(expr::from_fn(s, at(j2, d))).map(bi_vv(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<8, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
        if E::IS_REPEATABLE && !sp.enumerated {
            {
            c.what.push("big.zip");
            let hd = high_dims(&dims, c.a[2]);
            let big = tensor::<DynRank>(&hd, seed);
            let bv = vals(seed, product(&hd));
            let sp = sp.tile(&hd).node(j, |i, v| vec![bv[i], v]);
            C::go(
                big.expr().zip(e).map(bi_rv(j)),
                sp,
                c,
            )
        }
}
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<9, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("map+ref");
            let t = tensor::<E::Shape>(&dims, seed);
            let sp = sp.node(j, |_, v| vec![v]).call(K::Op, |i, v| opval(0, v, tv[i]));
            C::go(
                e.map(un(j)) + &t,
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<10, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("value.zip");
            let t = tensor::<E::Shape>(&dims, seed);
            let sp = sp.node(j, |i, v| vec![tv[i], v]);
            C::go(
                t.into_expr().zip(e).map(bi_vv(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<11, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("fill.zip");
            let x0 = val(seed, 5);
            let f = expr::fill(Tok::make(x0));
            let sp = sp.aside(K::Clone, |_| x0).node(j, |_, v| vec![x0, v]);
            C::go(
                f.zip(e).map(bi_vv(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<12, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("zip_strided");
            let how = c.a[2];
            let t = spaced_base(&dims, seed, how);
            let v = spaced::<E::Shape>(&t, &dims, how);
            let sp = sp.node(j, |i, v| vec![v, tv[i]]);
            C::go(
                e.zip(v).map(bi_vr(j)),
                sp,
                c,
            )
        }
    }
}

#[allow(unused)]
impl<C: Cont> Cont for A1<13, C> {
    fn go<E: Expression<Item = Tok>>(e: E, mut sp: Spec, c: &mut Ctx) {
        let dims = sp.dims.clone();
        let n = sp.len();
        let seed = c.a[5] ^ 0x11;
        let (j, j2) = (sp.id(), sp.id());
        let tv = vals(seed, n);
                    {
            c.what.push("zip_mut");
            let mut t = tensor::<E::Shape>(&dims, seed);
            let sp = sp.node(j, |i, v| vec![v, tv[i]]);
            C::go(
                e.zip(&mut t).map(bi_vm(j)),
                sp,
                c,
            )
        }
    }
}

// ---------------------------------------------------------------------------- leaves

struct L<const KK: u64>;

#[allow(unused)]
impl L<0> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        l!("from_fn",
            expr::from_fn(shape, at2(0, dims.to_vec())),
            Spec::new(dims, vec![0; n]).node(0, |i, _| vec![i as u64, dims.len() as u64])
        )
    }
}

#[allow(unused)]
impl L<1> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = tensor::<S>(dims, seed);
            l!("ref.map", t.expr().map(un_r(0)), sp0().node(0, |_, v| vec![v]))
        }
    }
}

#[allow(unused)]
impl L<2> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = tensor::<S>(dims, seed);
            l!("cloned", expr::cloned(&t), sp0().call(K::Clone, |_, v| v))
        }
    }
}

#[allow(unused)]
impl L<3> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = spaced_base(dims, seed, how);
            l!("strided.cloned", spaced::<S>(&t, dims, how).cloned(), sp0().call(K::Clone, |_, v| v))
        }
    }
}

#[allow(unused)]
impl L<4> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = spaced_base(dims, seed, how);
            l!("strided.map", expr::map(spaced::<S>(&t, dims, how), un_r(0)), sp0().node(0, |_, v| vec![v]))
        }
    }
}

#[allow(unused)]
impl L<5> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let x = val(seed, 1);
            l!("from_elem", expr::from_elem(shape, Tok::make(x)), Spec::new(dims, vec![x; n]).call(K::Clone, |_, v| v))
        }
    }
}

#[allow(unused)]
impl L<6> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = tensor::<S>(dims, seed);
            l!("value", t.into_expr(), sp0())
        }
    }
}

#[allow(unused)]
impl L<7> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = tensor::<S>(dims, seed);
            l!("value.map",
                t.into_expr().map(un(0)),
                sp0().node(0, |_, v| vec![v])
            )
        }
    }
}

#[allow(unused)]
impl L<8> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let mut t = tensor::<S>(dims, seed);
            l!("mut.map", t.expr_mut().map(un_m(0)), sp0().node(0, |_, v| vec![v]));
        }
    }
}

#[allow(unused)]
impl L<9> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let (t, u) = (tensor::<S>(dims, seed), tensor::<S>(dims, s2));
            l!("ref-ref", &t - &u, sp0().call(K::Op, |i, v| opval(1, v, uv[i])))
        }
    }
}

#[allow(unused)]
impl L<10> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = tensor::<S>(dims, seed);
            l!("-ref", -&t, sp0().call(K::Unary, |_, v| unval(0, v)))
        }
    }
}

#[allow(unused)]
impl L<11> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let u = tensor::<S>(dims, s2);
            l!("from_fn*ref",
                expr::from_fn(shape, at(0, dims.to_vec())) * &u,
                Spec::new(dims, vec![0; n]).node(0, |i, _| vec![i as u64]).call(K::Op, |i, v| opval(2, v, uv[i]))
            )
        }
    }
}

#[allow(unused)]
impl L<12> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = tensor::<S>(dims, seed);
            let u = spaced_base(dims, s2, how);
            l!("zip.map",
                expr::zip(&t, spaced::<S>(&u, dims, how)).map(bi_rr(0)),
                sp0().node(0, |i, v| vec![v, uv[i]])
            )
        }
    }
}

#[allow(unused)]
impl L<13> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let (t, u) = (tensor::<S>(dims, seed), tensor::<S>(dims, s2));
            l!("zip_with", Apply::zip_with(&t, &u, bi_rr(0)), sp0().node(0, |i, v| vec![v, uv[i]]))
        }
    }
}

#[allow(unused)]
impl L<14> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = tensor::<S>(dims, seed);
            l!("fill_with^ref",
                expr::fill_with(generator(0)) ^ &t,
                sp0().aside(K::Closure, |_| nodeval(0, &[])).call(K::Op, |_, v| opval(7, nodeval(0, &[]), v))
            )
        }
    }
}

#[allow(unused)]
impl L<15> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = tensor::<S>(dims, seed);
            let mut sp = sp0().node(0, |i, v| vec![i as u64, v]);
            sp.enumerated = true;
            l!("enumerate.map", expr::enumerate(&t).map(enum_r(0)), sp)
        }
    }
}

#[allow(unused)]
impl L<16> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            // An operator with a by-value operand on the left of a lazy one.
            let t = tensor::<S>(dims, seed);
            let u = tensor::<S>(dims, s2);
            l!("value_expr-ref", t.into_expr() - &u, sp0().call(K::Op, |i, v| opval(1, v, uv[i])))
        }
    }
}

#[allow(unused)]
impl L<17> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let n = product(dims);
        let seed = c.a[5];
        let s2 = seed ^ 0x99;
        let (tv, uv) = (vals(seed, n), vals(s2, n));
        let shape: S = Shape::from_dims(dims);
        let sp0 = || Spec::new(dims, vals(seed, n));
        let how = c.a[3];
        macro_rules! l {
            ($name:expr, $e:expr, $sp:expr) => {{
                c.what.push($name);
                C::go($e, $sp, c)
            }};
        }
        {
            let t = tensor::<S>(dims, seed);
            l!("apply", (&t).apply(un_r(0)), Spec::new(dims, tv.clone()).node(0, |_, v| vec![v]))
        }
    }
}

#[allow(unused)]
impl L<18> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let seed = c.a[5];
    let r = dims.len();
    let m = (c.a[3] / 7 % 4) as usize;
    let n = product(dims);
    fn sum<S: Shape, L: mdarray::Layout>(v: &View<Tok, S, L>) -> u64 {
        let mut h = 1;
        v.iter().for_each(|x| h = mix2(h, x.val()));
        h
    }
    let lane = |ax: usize| {
        let mut d = dims.to_vec();
        d.insert(ax, m);
        let sums: Vec<u64> = {
            let mut idx = vec![0; r];
            (0..n)
                .map(|_| {
                    let mut h = 1;
                    for k in 0..m {
                        let mut i = idx.clone();
                        i.insert(ax, k);
                        h = mix2(h, val(seed, flat(&d, &i)));
                    }
                    bump(&mut idx, dims);
                    h
                })
                .collect()
        };
        (d, sums)
    };
    {
            let ax = (c.a[3] % (r as u64 + 1)) as usize;
            let (d, sums) = lane(ax);
            let t = tensor::<DynRank>(&d, seed);
            c.what.push("lanes.map");
            C::go(t.lanes(ax).map(|v| hit(0, &[sum(&v)])), Spec::new(dims, sums).node(0, |_, v| vec![v]), c)
        }
    }
}

#[allow(unused)]
impl L<19> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let seed = c.a[5];
    let r = dims.len();
    let m = (c.a[3] / 7 % 4) as usize;
    let n = product(dims);
    fn sum<S: Shape, L: mdarray::Layout>(v: &View<Tok, S, L>) -> u64 {
        let mut h = 1;
        v.iter().for_each(|x| h = mix2(h, x.val()));
        h
    }
    let lane = |ax: usize| {
        let mut d = dims.to_vec();
        d.insert(ax, m);
        let sums: Vec<u64> = {
            let mut idx = vec![0; r];
            (0..n)
                .map(|_| {
                    let mut h = 1;
                    for k in 0..m {
                        let mut i = idx.clone();
                        i.insert(ax, k);
                        h = mix2(h, val(seed, flat(&d, &i)));
                    }
                    bump(&mut idx, dims);
                    h
                })
                .collect()
        };
        (d, sums)
    };
    {
            let (d, sums) = lane(1);
            let t = tensor::<Rank<2>>(&d, seed);
            c.what.push("rows.map");
            C::go(t.rows().map(|v| hit(0, &[sum(&v)])), Spec::new(dims, sums).node(0, |_, v| vec![v]), c)
        }
    }
}

#[allow(unused)]
impl L<20> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let seed = c.a[5];
    let r = dims.len();
    let m = (c.a[3] / 7 % 4) as usize;
    let n = product(dims);
    fn sum<S: Shape, L: mdarray::Layout>(v: &View<Tok, S, L>) -> u64 {
        let mut h = 1;
        v.iter().for_each(|x| h = mix2(h, x.val()));
        h
    }
    let lane = |ax: usize| {
        let mut d = dims.to_vec();
        d.insert(ax, m);
        let sums: Vec<u64> = {
            let mut idx = vec![0; r];
            (0..n)
                .map(|_| {
                    let mut h = 1;
                    for k in 0..m {
                        let mut i = idx.clone();
                        i.insert(ax, k);
                        h = mix2(h, val(seed, flat(&d, &i)));
                    }
                    bump(&mut idx, dims);
                    h
                })
                .collect()
        };
        (d, sums)
    };
    {
            let (d, sums) = lane(0);
            let t = tensor::<Rank<2>>(&d, seed);
            c.what.push("cols.map");
            C::go(t.cols().map(|v| hit(0, &[sum(&v)])), Spec::new(dims, sums).node(0, |_, v| vec![v]), c)
        }
    }
}

#[allow(unused)]
impl L<21> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let seed = c.a[5];
    let r = dims.len();
    let m = (c.a[3] / 7 % 4) as usize;
    let n = product(dims);
    fn sum<S: Shape, L: mdarray::Layout>(v: &View<Tok, S, L>) -> u64 {
        let mut h = 1;
        v.iter().for_each(|x| h = mix2(h, x.val()));
        h
    }
    let lane = |ax: usize| {
        let mut d = dims.to_vec();
        d.insert(ax, m);
        let sums: Vec<u64> = {
            let mut idx = vec![0; r];
            (0..n)
                .map(|_| {
                    let mut h = 1;
                    for k in 0..m {
                        let mut i = idx.clone();
                        i.insert(ax, k);
                        h = mix2(h, val(seed, flat(&d, &i)));
                    }
                    bump(&mut idx, dims);
                    h
                })
                .collect()
        };
        (d, sums)
    };
    {
            let (d, sums) = lane(1);
            let t = tensor::<DynRank>(&d, seed);
            c.what.push("outer_expr.map");
            C::go(t.outer_expr().map(|v| hit(0, &[sum(&v)])), Spec::new(dims, sums).node(0, |_, v| vec![v]), c)
        }
    }
}

#[allow(unused)]
impl L<22> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        let seed = c.a[5];
    let r = dims.len();
    let m = (c.a[3] / 7 % 4) as usize;
    let n = product(dims);
    fn sum<S: Shape, L: mdarray::Layout>(v: &View<Tok, S, L>) -> u64 {
        let mut h = 1;
        v.iter().for_each(|x| h = mix2(h, x.val()));
        h
    }
    let lane = |ax: usize| {
        let mut d = dims.to_vec();
        d.insert(ax, m);
        let sums: Vec<u64> = {
            let mut idx = vec![0; r];
            (0..n)
                .map(|_| {
                    let mut h = 1;
                    for k in 0..m {
                        let mut i = idx.clone();
                        i.insert(ax, k);
                        h = mix2(h, val(seed, flat(&d, &i)));
                    }
                    bump(&mut idx, dims);
                    h
                })
                .collect()
        };
        (d, sums)
    };
    {
            let (d, sums) = lane(1);
            let t = tensor::<Rank<3>>(&d, seed);
            c.what.push("lanes_mid.map");
            C::go(t.lanes(Const::<1>).map(|v| hit(0, &[sum(&v)])), Spec::new(dims, sums).node(0, |_, v| vec![v]), c)
        }
    }
}

#[allow(unused)]
impl L<23> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        const D: [usize; 2] = [2, 3];
    let seed = c.a[5];
    let mk = |s: u64| Array::<Tok, (Const<2>, Const<3>)>::from_fn(|i: &[usize]| Tok::make(val(s, flat(&D, i))));
    let s2 = seed ^ 0x99;
    let uv = vals(s2, 6);
    let sp0 = || Spec::new(&D, vals(seed, 6));
    let a = mk(seed);
    {
            c.what.push("array.into_expr");
            C::go(a.into_expr(), sp0(), c)
        }
    }
}

#[allow(unused)]
impl L<24> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        const D: [usize; 2] = [2, 3];
    let seed = c.a[5];
    let mk = |s: u64| Array::<Tok, (Const<2>, Const<3>)>::from_fn(|i: &[usize]| Tok::make(val(s, flat(&D, i))));
    let s2 = seed ^ 0x99;
    let uv = vals(s2, 6);
    let sp0 = || Spec::new(&D, vals(seed, 6));
    let a = mk(seed);
    {
            let b = mk(s2);
            c.what.push("array_ref+array_ref");
            C::go(&a + &b, sp0().call(K::Op, |i, v| opval(0, v, uv[i])), c)
        }
    }
}

#[allow(unused)]
impl L<25> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        const D: [usize; 2] = [2, 3];
    let seed = c.a[5];
    let mk = |s: u64| Array::<Tok, (Const<2>, Const<3>)>::from_fn(|i: &[usize]| Tok::make(val(s, flat(&D, i))));
    let s2 = seed ^ 0x99;
    let uv = vals(s2, 6);
    let sp0 = || Spec::new(&D, vals(seed, 6));
    let a = mk(seed);
    {
            c.what.push("array_ref.map");
            C::go((&a).apply(un_r(0)), sp0().node(0, |_, v| vec![v]), c)
        }
    }
}

#[allow(unused)]
impl L<26> {
    fn go<S: SimShape, C: Cont>(dims: &[usize], c: &mut Ctx) {
        const D: [usize; 2] = [2, 3];
    let seed = c.a[5];
    let mk = |s: u64| Array::<Tok, (Const<2>, Const<3>)>::from_fn(|i: &[usize]| Tok::make(val(s, flat(&D, i))));
    let s2 = seed ^ 0x99;
    let uv = vals(s2, 6);
    let sp0 = || Spec::new(&D, vals(seed, 6));
    let a = mk(seed);
    {
            c.what.push("array.cloned");
            C::go(a.expr().cloned(), sp0().call(K::Clone, |_, v| v), c)
        }
    }
}

macro_rules! paths {
    ($(($sid:expr, $k:expr, $s:ty, $c:ty),)*) => {
        static PATHS: &[(u8, fn(&[usize], &mut Ctx))] = &[$(($sid, L::<$k>::go::<$s, $c>),)*];
    };
}

// Which combinations are compiled: generated by mkpaths.py.
include!("../paths.rs");


fn run(p: &Plan) -> RunOut {
    sim().reset();
    heap::reset_counts();
    let mut out = RunOut::default();
    let (mut evaluated, mut interrupted, mut empty, mut deep) = (0, 0, 0, 0);
    for (k, op) in p.ops.iter().enumerate() {
        sim().note(|| format!("op {k} {} {:?} fault {:?}", op_name(op.code), op.a, op.fault));
        sim().log(1000 + op.code as u64, k as u64);
        sim().begin_op(op.fault);
        let fault = std::mem::replace(&mut sim().fault, 0);
        sim().recorder = Some(Vec::new());
        let mut c = Ctx { a: op.a, fault, what: vec![], lens: vec![], evaluated: 0, interrupted: 0 };
        let max = [6, 24, 60][(op.a[1] % 3) as usize];
        let (sid, f) = PATHS[(op.a[0] % PATHS.len() as u64) as usize];
        let dims = gen_dims(sid, &op.a[1..3], max);
        let r = sut(|| f(&dims, &mut c));
        if let Out::Panic(m) = r {
            sim().violate("unexpected-panic", format!("{:?} of {dims:?}: {m}", c.what));
        }
        sim().fault = 0;
        sim().recorder = None;
        sim().note(|| format!("{:?} of {dims:?}", c.what));
        evaluated += c.evaluated;
        interrupted += c.interrupted;
        empty += (product(&dims) == 0) as u64;
        deep = deep.max(c.what.len() as u64);
        let _ = &c.lens;
        let live = sim().live;
        if sim().viol.is_none() && live != 0 && sim().fired_in != Some(K::Drop) {
            sim().violate("elem-leak", format!("{:?} of {dims:?}: {live} elements alive afterwards", c.what));
        }
        sim().live = 0;
        sim().end_op();
        out.counts.push((sim().cb, 0));
        out.op_index = k;
        out.steps += 1;
        if sim().viol.is_none() {
            if let Some((c, d)) = heap::take_violation() {
                sim().violate(&c, d);
            }
        }
        if sim().viol.is_some() {
            break;
        }
    }
    heap::flush();
    let s = sim();
    if s.viol.is_none() {
        if let Some((c, d)) = heap::take_violation() {
            s.violate(&c, d);
        }
        out.op_index = p.ops.len();
    }
    out.viol = s.viol.take();
    if let Some(v) = &out.viol {
        out.key = v.class.clone();
    }
    out.hash = s.hash;
    out.nontrivial = evaluated > 0 && (interrupted > 0 || p.ops.iter().all(|o| o.fault.is_none()));
    out.probes = vec![("evaluations", evaluated), ("interrupted_evaluations", interrupted), ("empty_operands", empty), ("deepest_expression_max", deep)];
    out
}

fn generate(_: &str, r: &mut Rng) -> Plan {
    let mut p = Plan { cfg: vec![0], ..Default::default() };
    for _ in 0..1 + r.below(3) {
        let mut o = plan::op(r, EXPR);
        o.a = [r.below(1 << 40), r.below(1 << 30), r.below(1 << 30), r.below(1 << 30), r.below(1 << 30), 1 + r.below(1 << 40)];
        p.ops.push(o);
    }
    p
}

fn place(_: &str, base: &Plan, counts: &[(u64, u64)], r: &mut Rng) -> Plan {
    let n = 1 + r.below(2);
    place_faults(base, counts, r, &[F_PANIC, F_LATE], n, &|_| true)
}

static WORLD: World = World {
    name: "exprs",
    props: &["C12"],
    op_name,
    generate,
    place: Some(place),
    run,
    budget: |_, thorough| if thorough { 40_000_000 } else { 500_000 },
    variants: |_| 3,
    relevant: |_, v| v.class != "block-leak",
    rule: |_| "1-3 expressions per run: 18 leaf kinds on 7 shape types and 9 kinds on lanes, axes and inline arrays, 14 adaptors, 5 further adaptors, 18 evaluators; a run without faults fixes the number of user calls, then variants with 1-2 user panics; non-trivial: at least one evaluation, and one interrupted if faults were planned",
    level: "exploration",
    real: &["mdarray (all of it, compiled from /repo, unmodified)"],
    stub: &["global allocator (simulated heap)", "element type, closures and generators of the user"],
};

fn main() {
    driver::main(&WORLD)
}
