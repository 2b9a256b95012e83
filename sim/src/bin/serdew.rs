//! World "serdew": arrays written to and read from streams that fail, end early, deliver ragged
//! data or announce wrong lengths at chosen calls.

use mdarray::{Array, Const, Dyn, DynRank, Layout, Shape, Tensor, View, ViewMut};
use mdsim::arrs::*;
use mdsim::by_shape_all;
use mdsim::driver::{self, RunOut, World, place_faults};
use mdsim::elem::*;
use mdsim::heap;
use mdsim::model::*;
use mdsim::plan::{self, Plan};
use mdsim::rng::{Rng, mix2};
use mdsim::sim::*;
use serde::de::{self, Deserialize, DeserializeSeed, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{self, Debug, Write};

#[path = "../views.rs"]
mod views;
use views::{Arena, Args, Pos, refs};

const NEW: u16 = 1;
const STEP: u16 = 2;
const RESET: u16 = 3;
const SER: u16 = 4;
const FMT: u16 = 5;
const DE: u16 = 6;

fn op_name(c: u16) -> &'static str {
    match c {
        NEW => "new",
        STEP => "view_step",
        RESET => "whole_array",
        SER => "serialize",
        FMT => "format",
        DE => "deserialize",
        _ => "end",
    }
}

/// Error of a stream; `injected` tells those of the fault plan from those of the library.
#[derive(Debug)]
struct SErr {
    injected: bool,
    msg: String,
}

fn injected() -> SErr {
    let _p = heap::Pause::new();
    SErr { injected: true, msg: "injected".into() }
}

impl fmt::Display for SErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.msg)
    }
}
impl std::error::Error for SErr {}
impl de::Error for SErr {
    fn custom<T: fmt::Display>(m: T) -> SErr {
        let msg = m.to_string();
        SErr { injected: msg.contains("injected by the element"), msg }
    }
}
impl ser::Error for SErr {
    fn custom<T: fmt::Display>(m: T) -> SErr {
        SErr { injected: false, msg: m.to_string() }
    }
}

// ---------------------------------------------------------------------------- documents

#[derive(Clone, Debug, PartialEq)]
enum Doc {
    Val(u64),
    Str,
    Seq { hint: Option<usize>, items: Vec<Doc> },
}

impl Doc {
    fn rect(dims: &[usize], next: &mut u64, seed: u64) -> Doc {
        if dims.is_empty() {
            *next += 1;
            return Doc::Val(mix2(seed, *next));
        }
        Doc::Seq { hint: Some(dims[0]), items: (0..dims[0]).map(|_| Doc::rect(&dims[1..], next, seed)).collect() }
    }

    fn nodes(&mut self) -> Vec<*mut Doc> {
        let mut v = vec![self as *mut Doc];
        if let Doc::Seq { items, .. } = self {
            for x in items {
                v.extend(x.nodes());
            }
        }
        v
    }

    /// Dimensions and values if this is an array of the given constant and dynamic sizes.
    fn ideal(&self, pat: &[Option<usize>]) -> Option<(Vec<usize>, Vec<u64>)> {
        match (self, pat.first()) {
            (Doc::Val(v), None) => Some((vec![], vec![*v])),
            (Doc::Seq { items, .. }, Some(c)) => {
                if c.is_some_and(|c| c != items.len()) {
                    return None;
                }
                let mut dims: Option<Vec<usize>> = None;
                let mut vals = vec![];
                for x in items {
                    let (d, v) = x.ideal(&pat[1..])?;
                    if dims.as_ref().is_some_and(|e| *e != d) {
                        return None;
                    }
                    dims = Some(d);
                    vals.extend(v);
                }
                let mut d = vec![items.len()];
                d.extend(dims.unwrap_or_else(|| pat[1..].iter().map(|c| c.unwrap_or(0)).collect()));
                Some((d, vals))
            }
            _ => None,
        }
    }

    fn text(&self) -> String {
        match self {
            Doc::Val(_) => "x".into(),
            Doc::Str => "\"\"".into(),
            Doc::Seq { items, .. } if items.len() > 50 => format!("[{} and so on, {} in all]", items[0].text(), items.len()),
            Doc::Seq { items, .. } => format!("[{}]", items.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ")),
        }
    }
}

// ---------------------------------------------------------------------------- source

struct Src<'d>(&'d Doc);
struct Items<'d> {
    items: &'d [Doc],
    at: usize,
    hint: Option<usize>,
}

impl<'de, 'd> SeqAccess<'de> for Items<'d> {
    type Error = SErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SErr> {
        if io(K::De, 2 + self.at as u64, F_SRC) {
            return Err(injected());
        }
        match self.items.get(self.at) {
            None => Ok(None),
            Some(x) => {
                self.at += 1;
                seed.deserialize(Src(x)).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

impl<'de, 'd> de::Deserializer<'de> for Src<'d> {
    type Error = SErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SErr> {
        if io(K::De, 1, F_SRC) {
            return Err(injected());
        }
        match self.0 {
            Doc::Val(x) => v.visit_u64(*x),
            Doc::Str => v.visit_str("text"),
            Doc::Seq { hint, items } => {
                let r = v.visit_seq(Items { items, at: 0, hint: *hint })?;
                // The closing bracket.
                if io(K::De, 3, F_SRC) {
                    drop(r);
                    return Err(injected());
                }
                Ok(r)
            }
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

// ---------------------------------------------------------------------------- sink

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Seq(Option<usize>),
    Val(u64),
    End,
}

#[derive(Default)]
struct Rec {
    ev: Vec<Ev>,
}

struct Ser<'r>(&'r mut Rec);
struct SerSeq<'r>(&'r mut Rec);

fn put(r: &mut Rec, e: Ev) {
    let _p = heap::Pause::new();
    r.ev.push(e);
}

macro_rules! unsupported {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => {
        $(#[allow(unused)] fn $f(self, $(_: $t),*) -> Result<$r, SErr> { Err(ser::Error::custom(stringify!($f))) })*
    };
}
type Imp = ser::Impossible<(), SErr>;

impl<'r> ser::Serializer for Ser<'r> {
    type Ok = ();
    type Error = SErr;
    type SerializeSeq = SerSeq<'r>;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;

    fn serialize_u64(self, v: u64) -> Result<(), SErr> {
        if io(K::Ser, v, F_SINK) {
            return Err(injected());
        }
        put(self.0, Ev::Val(v));
        Ok(())
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<SerSeq<'r>, SErr> {
        if io(K::Ser, 1, F_SINK) {
            return Err(injected());
        }
        put(self.0, Ev::Seq(len));
        Ok(SerSeq(self.0))
    }
    unsupported! {
        serialize_bool(bool) -> (); serialize_i8(i8) -> (); serialize_i16(i16) -> (); serialize_i32(i32) -> ();
        serialize_i64(i64) -> (); serialize_u8(u8) -> (); serialize_u16(u16) -> (); serialize_u32(u32) -> ();
        serialize_f32(f32) -> (); serialize_f64(f64) -> (); serialize_char(char) -> (); serialize_str(&str) -> ();
        serialize_bytes(&[u8]) -> (); serialize_none() -> (); serialize_unit() -> ();
        serialize_unit_struct(&'static str) -> (); serialize_unit_variant(&'static str, u32, &'static str) -> ();
        serialize_tuple(usize) -> Imp; serialize_tuple_struct(&'static str, usize) -> Imp;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Imp; serialize_map(Option<usize>) -> Imp;
        serialize_struct(&'static str, usize) -> Imp; serialize_struct_variant(&'static str, u32, &'static str, usize) -> Imp;
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), SErr> {
        Err(ser::Error::custom("some"))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), SErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), SErr> {
        Err(ser::Error::custom("variant"))
    }
}

impl ser::SerializeSeq for SerSeq<'_> {
    type Ok = ();
    type Error = SErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SErr> {
        if io(K::Ser, 2, F_SINK) {
            return Err(injected());
        }
        v.serialize(Ser(self.0))?;
        if io(K::Ser, 3, F_SINK) {
            return Err(injected());
        }
        Ok(())
    }
    fn end(self) -> Result<(), SErr> {
        if io(K::Ser, 4, F_SINK) {
            return Err(injected());
        }
        put(self.0, Ev::End);
        Ok(())
    }
}

fn expected_events(p: &Pos, vals: &[u64]) -> Vec<Ev> {
    fn go(dims: &[usize], it: &mut std::slice::Iter<'_, u64>, out: &mut Vec<Ev>) {
        match dims.first() {
            None => out.push(Ev::Val(*it.next().unwrap())),
            Some(&n) => {
                out.push(Ev::Seq(Some(n)));
                for _ in 0..n {
                    go(&dims[1..], it, out);
                }
                out.push(Ev::End);
            }
        }
    }
    let mut out = vec![];
    go(&p.dims, &mut vals.iter(), &mut out);
    out
}

/// Parses what the sink received.
fn to_doc(ev: &mut std::slice::Iter<'_, Ev>) -> Option<Doc> {
    match ev.next()? {
        Ev::Val(v) => Some(Doc::Val(*v)),
        Ev::Seq(hint) => {
            let mut items = vec![];
            while ev.as_slice().first() != Some(&Ev::End) {
                items.push(to_doc(ev)?);
            }
            ev.next();
            Some(Doc::Seq { hint: *hint, items })
        }
        Ev::End => None,
    }
}

struct Text {
    s: String,
}

impl fmt::Write for Text {
    fn write_str(&mut self, x: &str) -> fmt::Result {
        if io(K::Fmt, x.len() as u64, F_SINK) {
            return Err(fmt::Error);
        }
        let _p = heap::Pause::new();
        self.s.push_str(x);
        Ok(())
    }
}

/// Reference for the debug format: nested lists, done by the standard library.
struct Lists<'a>(&'a [usize], &'a [u64]);
impl Debug for Lists<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0.first() {
            None => {
                write!(f, "<{:x}>", self.1[0] & 0xffff)
            }
            Some(&n) => {
                let row = product(&self.0[1..]);
                f.debug_list().entries((0..n).map(|k| Lists(&self.0[1..], &self.1[k * row..(k + 1) * row]))).finish()
            }
        }
    }
}

// ---------------------------------------------------------------------------- C08

pub struct Ctx {
    p: Pos,
    vals: Vec<u64>,
    sel: u64,
    done: bool,
}

pub trait Act<'a, E> {
    fn ser(&mut self, c: &mut Ctx);
    fn form(&mut self, c: &mut Ctx);
}

pub trait ActMut<'a, E> {}
impl<'a, E, S: Shape, L: Layout> ActMut<'a, E> for ViewMut<'a, E, S, L> {}

fn serialize_check(c: &mut Ctx, what: &str, f: impl FnOnce(&mut Rec) -> Result<(), SErr>) -> Option<Vec<Ev>> {
    c.done = true;
    let want = expected_events(&c.p, &c.vals);
    let mut rec = Rec::default();
    let out = sut(|| f(&mut rec));
    let s = sim();
    let dims = &c.p.dims;
    s.note(|| format!("serialize {what} {dims:?}: {} after {} of {} events", out.name(), rec.ev.len(), want.len()));
    let n = rec.ev.len().min(want.len());
    if rec.ev[..n] != want[..n] || rec.ev.len() > want.len() {
        let k = (0..n).find(|&k| rec.ev[k] != want[k]).unwrap_or(n);
        s.violate("ser-output", format!("serialize {what} {dims:?}: event {k} is {:?} instead of {:?}", rec.ev.get(k), want.get(k)));
        return None;
    }
    match out {
        Out::Ok(Ok(())) => {
            if s.fired {
                s.violate("error-swallowed", format!("serialize {what} {dims:?}: the sink failed but the call succeeded"));
            } else if rec.ev.len() != want.len() {
                s.violate("ser-output", format!("serialize {what} {dims:?}: {} of {} events", rec.ev.len(), want.len()));
            } else {
                return Some(rec.ev);
            }
        }
        Out::Ok(Err(e)) => {
            if !s.fired {
                s.violate("spurious-error", format!("serialize {what} {dims:?}: {}", e.msg));
            } else if !e.injected {
                s.violate("wrong-error", format!("serialize {what} {dims:?}: {} instead of the error of the sink", e.msg));
            }
        }
        Out::Panic(m) => s.violate("unexpected-panic", format!("serialize {what} {dims:?}: {m}")),
        Out::Injected | Out::Oom => {}
    }
    None
}

fn format_check(c: &mut Ctx, what: &str, x: &dyn Debug) {
    c.done = true;
    let l = Lists(&c.p.dims, &c.vals);
    let mut t = Text { s: String::new() };
    let (want, out) = match c.sel % 4 {
        0 => (format!("{l:#?}"), sut(|| write!(t, "{x:#?}"))),
        1 => (format!("{l:6?}"), sut(|| write!(t, "{x:6?}"))),
        2 => (format!("a{l:?}b"), sut(|| write!(t, "a{x:?}b"))),
        _ => (format!("{l:?}"), sut(|| write!(t, "{x:?}"))),
    };
    let s = sim();
    let dims = &c.p.dims;
    s.note(|| format!("format {what} {dims:?}: {} after {} of {} bytes", out.name(), t.s.len(), want.len()));
    if !want.starts_with(&t.s) {
        s.violate("fmt-output", format!("format {what} {dims:?}: {:?} instead of {want:?}", t.s));
        return;
    }
    match out {
        Out::Ok(Ok(())) => {
            if s.fired {
                s.violate("error-swallowed", format!("format {what} {dims:?}: the sink failed but the call succeeded"));
            } else if t.s != want {
                s.violate("fmt-output", format!("format {what} {dims:?}: {:?} instead of {want:?}", t.s));
            }
        }
        Out::Ok(Err(_)) => {
            if !s.fired {
                s.violate("spurious-error", format!("format {what} {dims:?}"));
            }
        }
        Out::Panic(m) => s.violate("unexpected-panic", format!("format {what} {dims:?}: {m}")),
        Out::Injected | Out::Oom => {}
    }
}

fn tensor_vals<E: Elem, S: Shape>(t: &Tensor<E, S>) -> Option<(Vec<usize>, Vec<u64>)> {
    let dims: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
    let n = dims.iter().try_fold(1usize, |a, &x| a.checked_mul(x))?;
    if n != t.len() || n > t.capacity() {
        sim().violate("shape-invalid", format!("deserialized: len() {} with dimensions {dims:?}", t.len()));
        return None;
    }
    vals_at::<E>(t.as_ptr(), n).map(|v| (dims, v))
}

fn vals_at<E: Elem>(p: *const E, n: usize) -> Option<Vec<u64>> {
    let mut v = vec![];
    let mut ids = vec![];
    for i in 0..n {
        match unsafe { E::peek(p.add(i)) } {
            Ok((id, x)) => {
                v.push(x);
                ids.push(id);
            }
            Err(e) => {
                sim().violate(e, format!("element {i} is not a live element"));
                return None;
            }
        }
    }
    ids.sort();
    if !E::ZST && ids.windows(2).any(|w| w[0] == w[1]) {
        sim().violate("elem-shared", "an element occurs twice".into());
        return None;
    }
    Some(v)
}

impl<'a, E: Elem, S: Shape, L: Layout> Act<'a, E> for View<'a, E, S, L> {
    fn ser(&mut self, c: &mut Ctx) {
        if S::RANK.is_none() {
            return;
        }
        let ev = match c.sel % 3 {
            0 => serialize_check(c, "slice", |r| (**self).serialize(Ser(r))),
            _ => serialize_check(c, "view", |r| self.serialize(Ser(r))),
        };
        let Some(ev) = ev else { return };
        if c.p.len() == 0 {
            return;
        }
        let Some(doc) = to_doc(&mut ev.iter()) else {
            sim().violate("ser-output", "unbalanced output".into());
            return;
        };
        // Read it back, without faults.
        let f = std::mem::replace(&mut sim().fault, 0);
        let t = must("round trip", || Tensor::<E, S>::deserialize(Src(&doc)));
        match t {
            Some(Ok(t)) => {
                if let Some((d, v)) = tensor_vals(&t) {
                    if d != c.p.dims || v != c.vals {
                        sim().violate("round-trip", format!("array {:?} comes back as {d:?} or with other elements", c.p.dims));
                    }
                }
            }
            Some(Err(e)) => sim().violate("round-trip", format!("array {:?} is rejected: {}", c.p.dims, e.msg)),
            None => {}
        }
        sim().fault = f;
    }

    fn form(&mut self, c: &mut Ctx) {
        format_check(c, "view", self)
    }
}

trait Holder<E> {
    fn view(&self) -> refs::V<'_, E>;
    fn base(&self) -> *const E;
    /// The same with the owning and the mutable view type.
    fn direct(&mut self, c: &mut Ctx, ser: bool);
}

impl<E: Elem, S: SimShape> Holder<E> for Tensor<E, S> {
    fn view(&self) -> refs::V<'_, E> {
        Box::new(self.expr())
    }
    fn base(&self) -> *const E {
        self.as_ptr()
    }
    fn direct(&mut self, c: &mut Ctx, ser: bool) {
        match (c.sel / 16 % 2, ser) {
            (0, true) if S::RANK.is_some() => _ = serialize_check(c, "tensor", |r| self.serialize(Ser(r))),
            (_, true) if S::RANK.is_some() => _ = serialize_check(c, "mutable view", |r| self.expr_mut().serialize(Ser(r))),
            (_, true) => {}
            (0, _) => format_check(c, "tensor", self),
            _ => format_check(c, "mutable view", &self.expr_mut()),
        }
    }
}

impl<E: Elem, const A: usize, const B: usize> Holder<E> for Array<E, (Const<A>, Const<B>)> {
    fn view(&self) -> refs::V<'_, E> {
        Box::new(self.expr())
    }
    fn base(&self) -> *const E {
        self.as_ptr()
    }
    fn direct(&mut self, c: &mut Ctx, ser: bool) {
        match (c.sel / 16 % 2, ser) {
            (0, true) => _ = serialize_check(c, "array", |r| self.serialize(Ser(r))),
            (_, true) => _ = serialize_check(c, "mutable view", |r| self.expr_mut().serialize(Ser(r))),
            (0, _) => format_check(c, "array", self),
            _ => format_check(c, "mutable view", &self.expr_mut()),
        }
    }
}

fn make<E: Elem, S: SimShape>(dims: &[usize], seed: u64) -> Box<dyn Holder<E>> {
    let s: S = Shape::from_dims(dims);
    let p = Pos::full(dims);
    Box::new(Tensor::<E, S>::from_fn(s, |i: &[usize]| E::make(mix2(seed, p.flat(i) as u64))))
}

fn snapshot<E: Elem>(p: *const E, n: usize) -> Vec<Option<(u32, u64)>> {
    (0..n).map(|i| unsafe { E::peek(p.add(i)) }.ok()).collect()
}

struct W<E> {
    base: Option<(Box<dyn Holder<E>>, Vec<usize>)>,
    steps: Vec<Args>,
    interrupted: u64,
    acts: u64,
    strided: u64,
    malformed: u64,
    lying: u64,
    accepted: u64,
}

fn out_op<E: Elem>(w: &mut W<E>, a: &Args, ser: bool) {
    let Some((h, dims)) = &mut w.base else { return };
    let total = product(dims);
    let base = h.base();
    let before = snapshot(base, total);
    let mut ar = Arena::default();
    let mut p = Pos::full(dims);
    let hp: *mut dyn Holder<E> = h.as_mut();
    let mut v = unsafe { (*hp).view() };
    let mut whole = true;
    for s in &w.steps {
        let what = format!("view step {} on {:?}", s[0] % views::NSTEPS, p.dims);
        let mut parts = must(&what, || refs::advance(v, p, s, &mut ar)).unwrap_or_default();
        if sim().viol.is_some() {
            return;
        }
        if parts.is_empty() {
            drop(parts);
            v = unsafe { (*hp).view() };
            p = Pos::full(dims);
            whole = true;
            continue;
        }
        whole = false;
        let n = parts.len();
        let (x, q) = parts.swap_remove((s[4] % n as u64) as usize);
        v = x;
        p = q;
        if !refs::check(&v, &p, base, &what) {
            return;
        }
    }
    if (1..p.len()).any(|k| p.at[k] != p.at[k - 1] + 1) {
        w.strided += 1;
    }
    let vals = p.at.iter().map(|&i| before[i].unwrap().1).collect();
    let mut c = Ctx { p, vals, sel: a[1], done: false };
    sim().cb = 0;
    if whole && a[0] % 2 == 0 {
        drop(v);
        drop(ar);
        unsafe { (*hp).direct(&mut c, ser) };
    } else {
        if ser { v.ser(&mut c) } else { v.form(&mut c) }
        drop(v);
        drop(ar);
    }
    sim().fault = 0;
    w.acts += c.done as u64;
    w.interrupted += sim().fired as u64;
    if snapshot(base, total) != before {
        sim().violate("array-changed", "the array changed while it was written".into());
    }
}

// ---------------------------------------------------------------------------- C07

/// A document for the given sizes, from raw numbers: rectangular, then perhaps damaged.
fn document(pat: &[Option<usize>], a: &Args) -> (Doc, Option<&'static str>) {
    let mut z = Rng::new(mix2(a[1], 0xd0c));
    let mut dims: Vec<usize> = pat.iter().map(|c| c.unwrap_or_else(|| *z.pick(&[0, 1, 1, 2, 2, 3, 4, 7]))).collect();
    while product(&dims) > 90 {
        match (0..dims.len()).filter(|&i| pat[i].is_none()).max_by_key(|&i| dims[i]) {
            Some(i) => dims[i] -= 1,
            None => break,
        }
    }
    // Now and then a long one.
    let long = match mix2(a[1], 0x1096) % 50_000 {
        0 => 70_000,
        1..=9 => 5_000,
        10..=60 => 600,
        _ => 0,
    };
    if long > 0 {
        if let Some(i) = (0..dims.len()).find(|&i| pat[i].is_none()) {
            for k in i + 1..dims.len() {
                if pat[k].is_none() {
                    dims[k] = 1 + (a[1] >> 8) as usize % 2;
                }
            }
            dims[i] = long;
        }
    }
    let mut next = 0;
    let mut doc = Doc::rect(&dims, &mut next, a[5]);
    let mut damage = None;
    for _ in 0..match a[2] % 6 {
        0..=2 => 0,
        3 | 4 => 1,
        _ => 2,
    } {
        let nodes = doc.nodes();
        let n = nodes[z.below(nodes.len() as u64) as usize];
        let n = unsafe { &mut *n };
        let fresh = Doc::Val(mix2(a[5], 900 + z.below(50)));
        match n {
            Doc::Seq { items, .. } => match z.below(7) {
                0 => {
                    items.pop();
                    damage = Some("short");
                }
                1 => {
                    let x = items.last().cloned().unwrap_or(fresh);
                    items.push(x);
                    damage = Some("long");
                }
                2 => {
                    items.clear();
                    damage = Some("emptied");
                }
                3 => {
                    *n = fresh;
                    damage = Some("value for sequence");
                }
                4 => {
                    if !items.is_empty() {
                        items.remove(0);
                    }
                    damage = Some("first missing");
                }
                5 => {
                    let x = std::mem::replace(n, Doc::Str);
                    *n = Doc::Seq { hint: Some(1), items: vec![x] };
                    damage = Some("too deep");
                }
                _ => {
                    let at = z.below(items.len() as u64 + 1) as usize;
                    items.insert(at, Doc::Seq { hint: None, items: vec![] });
                    damage = Some("empty sequence inserted");
                }
            },
            x => {
                if z.chance(1, 2) {
                    *x = Doc::Str;
                    damage = Some("text for value");
                } else {
                    *x = Doc::Seq { hint: None, items: vec![fresh] };
                    damage = Some("sequence for value");
                }
            }
        }
    }
    // Length hints.
    let style = a[3] % 20;
    for n in doc.nodes() {
        if let Doc::Seq { hint, items } = unsafe { &mut *n } {
            let style = if style == 7 { z.below(7) } else { style };
            *hint = match style {
                0 | 1 => Some(items.len()),
                2 => None,
                3 => Some(z.below(12) as usize),
                4 => Some(usize::MAX),
                5 => Some(*z.pick(&[1 << 40, 1 << 60, usize::MAX / 2, usize::MAX / 8 + 1, isize::MAX as usize / 4])),
                6 => Some(items.len() + 1 + z.below(3000) as usize),
                8..=12 => None,
                13..=16 => Some(z.below(12) as usize),
                _ => Some(items.len()),
            };
        }
    }
    (doc, damage)
}

fn judge<R>(w_acc: &mut u64, out: Out<Result<R, SErr>>, ideal: &Option<(Vec<usize>, Vec<u64>)>, doc: &Doc, what: &str, zst: bool,
    get: impl FnOnce(&R) -> Option<(Vec<usize>, Vec<u64>)>) {
    let s = sim();
    let fired = s.fired;
    s.fault = 0;
    s.note(|| format!("deserialize {what} {}: {} {}", doc.text(), out.name(), match &out { Out::Ok(Err(e)) => &e.msg, _ => "" }));
    match out {
        Out::Ok(Ok(t)) => {
            if fired {
                s.violate("error-swallowed", format!("{what} from {}: the source failed but the call succeeded", doc.text()));
                std::mem::forget(t);
                return;
            }
            if let Some((d, v)) = get(&t) {
                match ideal {
                    None => s.violate("accepted-malformed", format!("{what} from {}: accepted as {d:?}", doc.text())),
                    Some((wd, wv)) => {
                        *w_acc += 1;
                        if d != *wd || (!zst && v != *wv) {
                            s.violate("wrong-array", format!("{what} from {}: {d:?} instead of {wd:?}, or other elements", doc.text()));
                        }
                    }
                }
            }
            if s.viol.is_some() {
                std::mem::forget(t);
            } else {
                must("drop", || drop(t));
            }
        }
        Out::Ok(Err(e)) => {
            if fired {
                if !e.injected {
                    s.violate("wrong-error", format!("{what} from {}: {:?} instead of the error of the source", doc.text(), e.msg));
                }
            } else if ideal.is_some() {
                s.violate("spurious-error", format!("{what} from {}: {}", doc.text(), e.msg));
            }
        }
        Out::Panic(m) => s.violate("unexpected-panic", format!("{what} from {}: {m}", doc.text())),
        Out::Oom => s.violate("unexpected-oom", format!("{what} from {}: asked for an unreasonable amount of memory", doc.text())),
        Out::Injected => {}
    }
}

fn de_tensor<E: Elem, S: SimShape>(a: &Args, acc: &mut u64) -> (bool, bool) {
    let Some(pat) = S::DIMS else { return (false, false) };
    let (doc, _) = document(pat, a);
    let ideal = doc.ideal(pat);
    let lying = !matches!(a[3] % 20, 0 | 1 | 17..);
    let what = format!("tensor {pat:?} of {}", E::NAME);
    let f = std::mem::replace(&mut sim().fault, 0);
    let mut place = None;
    if a[4] % 4 == 0 {
        // In place, over existing contents.
        let dims: Vec<usize> = pat.iter().map(|c| c.unwrap_or(2)).collect();
        let s: S = Shape::from_dims(&dims);
        place = Some(Tensor::<E, S>::from_fn(s, |_: &[usize]| E::make(5)));
    }
    sim().fault = f;
    sim().cb = 0;
    match place {
        None => {
            let out = sut(|| Tensor::<E, S>::deserialize(Src(&doc)));
            judge(acc, out, &ideal, &doc, &what, E::ZST, |t| tensor_vals(t));
        }
        Some(mut t) => {
            let out = sut(|| Tensor::<E, S>::deserialize_in_place(Src(&doc), &mut t));
            let tp = &t;
            judge(acc, out, &ideal, &doc, &what, E::ZST, |_| tensor_vals(tp));
            // Whatever the outcome, the place is valid.
            if sim().viol.is_none() {
                tensor_vals(&t);
            }
            if sim().viol.is_some() {
                std::mem::forget(t);
            }
        }
    }
    (ideal.is_none(), lying)
}

fn de_array<E: Elem>(a: &Args, acc: &mut u64) -> (bool, bool) {
    macro_rules! arr {
        ($s:ty, [$($d:expr),*]) => {{
            let pat: &[Option<usize>] = &[$(Some($d)),*];
            let (doc, _) = document(pat, a);
            let ideal = doc.ideal(pat);
            let what = format!("array {pat:?} of {}", E::NAME);
            sim().cb = 0;
            let out = sut(|| Array::<E, $s>::deserialize(Src(&doc)));
            judge(acc, out, &ideal, &doc, &what, E::ZST, |t: &Array<E, $s>| {
                let d: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
                vals_at::<E>(t.as_ptr(), product(&d)).map(|v| (d, v))
            });
            (ideal.is_none(), !matches!(a[3] % 20, 0 | 1 | 17..))
        }};
    }
    match a[0] / 64 % 7 {
        0 => arr!((), []),
        1 => arr!((Const<3>,), [3]),
        2 => arr!((Const<2>, Const<3>), [2, 3]),
        3 => arr!((Const<1>, Const<2>, Const<2>), [1, 2, 2]),
        4 => arr!((Const<2>, Const<0>), [2, 0]),
        5 => arr!((Const<0>,), [0]),
        _ => arr!((Const<2>, Const<1>, Const<2>, Const<2>), [2, 1, 2, 2]),
    }
}

fn de_op<E: Elem>(a: &Args, acc: &mut u64) -> (bool, bool) {
    if a[0] % 5 == 0 {
        return de_array::<E>(a, acc);
    }
    match a[0] / 64 % 20 {
        k @ 0..14 => by_shape_all!(k as u8, de_tensor, E, (a, acc)),
        14 => de_tensor::<E, (Dyn, Dyn, Dyn)>(a, acc),
        15 | 16 => de_tensor::<E, (Dyn, Dyn)>(a, acc),
        17 => de_tensor::<E, (Const<2>, Dyn)>(a, acc),
        18 => de_tensor::<E, (Const<2>, Const<3>)>(a, acc),
        _ => de_tensor::<E, (Dyn,)>(a, acc),
    }
}

// ---------------------------------------------------------------------------- runs

fn run(p: &Plan) -> RunOut {
    sim().reset();
    heap::reset_counts();
    let mut w: W<Tok> = W { base: None, steps: vec![], interrupted: 0, acts: 0, strided: 0, malformed: 0, lying: 0, accepted: 0 };
    let mut out = RunOut::default();
    for (k, op) in p.ops.iter().enumerate() {
        sim().note(|| format!("op {k} {} {:?} fault {:?}", op_name(op.code), op.a, op.fault));
        sim().log(1000 + op.code as u64, k as u64);
        sim().begin_op(op.fault);
        match op.code {
            NEW => {
                w.steps.clear();
                w.base = None;
                let seed = op.a[5];
                macro_rules! arr {
                    ($a:expr, $b:expr) => {{
                        let q = Pos::full(&[$a, $b]);
                        let x = Array::<Tok, (Const<$a>, Const<$b>)>::from_fn(|i: &[usize]| Tok::make(mix2(seed, q.flat(i) as u64)));
                        (Box::new(x) as Box<dyn Holder<Tok>>, vec![$a, $b])
                    }};
                }
                w.base = Some(match op.a[3] % 16 {
                    0 => arr!(2, 3),
                    1 => arr!(1, 4),
                    2 => arr!(3, 0),
                    _ => {
                        let sid = (op.a[0] % NSHAPES as u64) as u8;
                        let dims = gen_dims(sid, &op.a[1..3], [12, 30, 60][(p.cfg(1) % 3) as usize]);
                        (by_shape_all!(sid, make, Tok, (&dims, seed)), dims)
                    }
                });
            }
            STEP => w.steps.push(op.a),
            RESET => w.steps.clear(),
            SER => out_op(&mut w, &op.a, true),
            FMT => out_op(&mut w, &op.a, false),
            _ => {
                let before = (sim().live, sim().zst_live);
                let (bad, lying) = match op.a[0] % 16 {
                    0 | 1 => de_op::<Zst>(&op.a, &mut w.accepted),
                    2 => de_op::<Boxed>(&op.a, &mut w.accepted),
                    _ => de_op::<Tok>(&op.a, &mut w.accepted),
                };
                w.acts += 1;
                w.malformed += bad as u64;
                w.lying += lying as u64;
                w.interrupted += sim().fired as u64;
                let after = (sim().live, sim().zst_live);
                if sim().viol.is_none() && after != before {
                    sim().violate("elem-leak", format!("elements alive: {before:?} before and {after:?} after reading"));
                }
            }
        }
        sim().end_op();
        out.counts.push((if op.code >= SER { sim().cb } else { 0 }, 0));
        out.op_index = k;
        out.steps += 1;
        if sim().viol.is_none() {
            if let Some((c, d)) = heap::take_violation() {
                sim().violate(&c, d);
            }
        }
        if sim().viol.is_some() {
            break;
        }
    }
    if sim().viol.is_none() {
        w.base = None;
        let live = sim().live;
        if live != 0 {
            sim().violate("elem-leak", format!("at the end: {live} elements alive"));
        }
        heap::flush();
        if let Some((c, d)) = heap::take_violation() {
            sim().violate(&c, d);
        }
        out.op_index = p.ops.len();
    } else {
        std::mem::forget(w.base.take());
    }
    let s = sim();
    out.viol = s.viol.take();
    if let Some(v) = &out.viol {
        out.key = v.class.clone();
    }
    out.hash = s.hash;
    out.nontrivial = w.acts > 0 && (w.interrupted > 0 || p.ops.iter().all(|o| o.fault.is_none()));
    out.probes = vec![
        ("stream_operations", w.acts),
        ("interrupted", w.interrupted),
        ("through_strided_views", w.strided),
        ("malformed_documents", w.malformed),
        ("wrong_or_missing_length_hints", w.lying),
        ("documents_accepted", w.accepted),
    ];
    heap::flush();
    out
}

fn generate(prop: &str, r: &mut Rng) -> Plan {
    let mut p = Plan { cfg: vec![0, r.below(3)], ..Default::default() };
    if prop == "C07" {
        for _ in 0..1 + r.below(4) {
            let mut o = plan::op(r, DE);
            for k in 0..6 {
                o.a[k] = r.below(1 << 30);
            }
            p.ops.push(o);
        }
        return p;
    }
    for _ in 0..1 + r.below(2) {
        let mut o = plan::op(r, NEW);
        o.a[0] = match r.below(3) {
            0 => r.below(NSHAPES as u64),
            _ => *r.pick(&[1, 2, 3, 4, 5, 8, 9, 10, 11]),
        };
        o.a[1] = r.below(1 << 30);
        o.a[5] = 1 + r.below(1 << 30);
        p.ops.push(o);
        for _ in 0..1 + r.below(3) {
            for _ in 0..r.below(4) {
                let mut s = plan::op(r, STEP);
                s.a = [r.below(views::NSTEPS), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20), r.below(1 << 20)];
                p.ops.push(s);
            }
            for _ in 0..1 + r.below(2) {
                let code = if r.chance(1, 3) { FMT } else { SER };
                let mut u = plan::op(r, code);
                u.a[1] = r.below(1 << 20);
                p.ops.push(u);
            }
            if r.chance(1, 3) {
                p.ops.push(plan::op(r, RESET));
            }
        }
    }
    p
}

fn place(prop: &str, base: &Plan, counts: &[(u64, u64)], r: &mut Rng) -> Plan {
    let kinds: &[u8] = if prop == "C07" { &[F_SRC, F_SRC, F_SRC, F_PANIC] } else { &[F_SINK, F_SINK, F_SINK, F_PANIC] };
    let n = 1 + r.below(3);
    place_faults(base, counts, r, kinds, n, &|o| o.code >= SER)
}

static WORLD: World = World {
    name: "serdew",
    props: &["C07", "C08"],
    op_name,
    generate,
    place: Some(place),
    run,
    budget: |_, thorough| if thorough { 40_000_000 } else { 400_000 },
    variants: |_| 3,
    relevant: |_, _| true,
    rule: |p| match p {
        "C07" => "1-4 documents per run for 13 tensor and 7 array shape types (3 element types), rectangular or damaged in 1-2 places (9 kinds of damage), length hints exact, missing, wrong or absurd, into a new array or in place; a run without faults fixes the number of stream calls, then variants where the source (or the element) fails or panics at 1-3 seeded calls; non-trivial: at least one document, and one interrupted if faults were planned",
        _ => "1-2 arrays (14 tensor shape types, 3 array types), chains of 0-9 view steps (28 kinds), serialized through slice, view, mutable view and owner types or formatted in 4 formats; a run without faults fixes the number of sink calls, then variants where the sink (or the element) fails or panics at 1-3 seeded calls; fault-free output is read back; non-trivial: at least one write, and one interrupted if faults were planned",
    },
    level: "exploration",
    real: &["mdarray (all of it, compiled from /repo, unmodified)", "serde", "core::fmt"],
    stub: &["global allocator (simulated heap)", "element type of the user", "serde data source and sink", "text sink"],
};

fn main() {
    let _: Option<DynRank> = None;
    driver::main(&WORLD)
}
