//! Element types of the simulated user. Identity and value live in the ledger of `sim`.

use crate::rng::{mix, mix2};
use crate::sim::{F_SINK, F_SRC, K, io, point, sim};
use serde::de::{Deserialize, Deserializer, Visitor};
use serde::ser::{Serialize, Serializer};
use std::fmt;

/// Value of an element that is not equal to itself, like NaN.
pub const UNEQUAL: u64 = 0x7ff8_0000_dead_0001;

/// The value of `a op b`: not commutative, different for each operator.
pub fn opval(op: u8, a: u64, b: u64) -> u64 {
    mix2(a.wrapping_mul(3).wrapping_add(op as u64 + 1), b)
}

pub fn unval(op: u8, a: u64) -> u64 {
    mix(a ^ (0xabc0 + op as u64))
}

pub trait Arith:
    Sized
    + Clone
    + PartialEq
    + std::hash::Hash
    + fmt::Debug
    + std::ops::Add<Self, Output = Self>
    + for<'a> std::ops::Add<&'a Self, Output = Self>
    + std::ops::Sub<Self, Output = Self>
    + for<'a> std::ops::Sub<&'a Self, Output = Self>
    + std::ops::Mul<Self, Output = Self>
    + for<'a> std::ops::Mul<&'a Self, Output = Self>
    + std::ops::Shl<Self, Output = Self>
    + for<'a> std::ops::Shl<&'a Self, Output = Self>
    + std::ops::BitXor<Self, Output = Self>
    + for<'a> std::ops::BitXor<&'a Self, Output = Self>
    + std::ops::Neg<Output = Self>
    + std::ops::Not<Output = Self>
    + std::ops::AddAssign<Self>
    + for<'a> std::ops::AddAssign<&'a Self>
    + std::ops::SubAssign<Self>
    + for<'a> std::ops::SubAssign<&'a Self>
    + std::ops::RemAssign<Self>
    + for<'a> std::ops::RemAssign<&'a Self>
    + std::ops::ShrAssign<Self>
    + for<'a> std::ops::ShrAssign<&'a Self>
    + std::ops::BitOrAssign<Self>
    + for<'a> std::ops::BitOrAssign<&'a Self>
{
}

pub trait Elem: Arith + Serialize + for<'x> Deserialize<'x> + Send + Sync + 'static {
    const NAME: &'static str;
    const ZST: bool;
    /// Used with all shape types.
    const FULL: bool = false;
    /// Has a destructor, so that leaks can be seen.
    const DROPS: bool = true;

    /// Creates an element (not a fault point).
    fn make(val: u64) -> Self;

    /// Reads identity and value without calling user code.
    ///
    /// # Safety
    /// `p` must be readable.
    unsafe fn peek(p: *const Self) -> Result<(u32, u64), &'static str>;

    fn val(&self) -> u64 {
        match unsafe { Self::peek(self) } {
            Ok((_, v)) => v,
            Err(e) => {
                sim().violate(e, format!("element of type {} used by user code", Self::NAME));
                0
            }
        }
    }

    fn id(&self) -> u32 {
        unsafe { Self::peek(self) }.map(|x| x.0).unwrap_or(0)
    }

    fn set(&mut self, v: u64) {
        if Self::ZST {
            return;
        }
        match unsafe { Self::peek(self) } {
            Ok((id, _)) => sim().recs[id as usize].val = v,
            Err(e) => sim().violate(e, format!("element of type {} modified by user code", Self::NAME)),
        }
    }
}

fn known(id: u32) -> Result<(u32, u64), &'static str> {
    match sim().recs.get(id as usize) {
        Some(r) if r.live => Ok((id, r.val)),
        Some(_) if id != 0 => Err("elem-dead"),
        _ => Err("elem-garbage"),
    }
}

fn forget_id<E: Elem>(p: *const E) -> bool {
    match unsafe { E::peek(p) } {
        Ok((id, _)) => {
            let s = sim();
            s.recs[id as usize].live = false;
            s.live -= 1;
            true
        }
        Err("elem-dead") => {
            sim().violate("elem-double-drop", format!("element of type {} destroyed twice", E::NAME));
            false
        }
        Err(_) => {
            sim().violate("elem-garbage-drop", format!("destructor of {} ran on something that is not an element", E::NAME));
            false
        }
    }
}

fn chk(id: u32) -> u32 {
    mix(id as u64 ^ 0x7070) as u32 | 1
}

pub struct Tok {
    id: u32,
    chk: u32,
}

#[repr(align(64))]
pub struct Fat {
    id: u32,
    pad: [u32; 3],
    chk: u32,
}

#[repr(C)]
pub struct Odd([u8; 5]);

pub struct Zst;

/// Has no destructor (`needs_drop` is false), but is not `Copy`.
pub struct Plain {
    id: u32,
    chk: u32,
}

/// Owns a separate memory block.
pub struct Boxed(*mut [u32; 2]);
unsafe impl Send for Boxed {}
unsafe impl Sync for Boxed {}

impl Elem for Tok {
    const NAME: &'static str = "Tok";
    const ZST: bool = false;
    const FULL: bool = true;
    fn make(val: u64) -> Self {
        let id = sim().new_id(val);
        Tok { id, chk: chk(id) }
    }
    unsafe fn peek(p: *const Self) -> Result<(u32, u64), &'static str> {
        let (id, c) = unsafe { ((&raw const (*p).id).read(), (&raw const (*p).chk).read()) };
        if c != chk(id) { Err("elem-garbage") } else { known(id) }
    }
}

impl Elem for Plain {
    const NAME: &'static str = "Plain";
    const ZST: bool = false;
    const DROPS: bool = false;
    fn make(val: u64) -> Self {
        let id = sim().new_id(val);
        Plain { id, chk: chk(id) }
    }
    unsafe fn peek(p: *const Self) -> Result<(u32, u64), &'static str> {
        let (id, c) = unsafe { ((&raw const (*p).id).read(), (&raw const (*p).chk).read()) };
        if c != chk(id) { Err("elem-garbage") } else { known(id) }
    }
}

impl Elem for Fat {
    const NAME: &'static str = "Fat";
    const ZST: bool = false;
    fn make(val: u64) -> Self {
        let id = sim().new_id(val);
        Fat { id, pad: [id ^ 7; 3], chk: chk(id) }
    }
    unsafe fn peek(p: *const Self) -> Result<(u32, u64), &'static str> {
        if p as usize % 64 != 0 {
            return Err("elem-misaligned");
        }
        let (id, c, pad) =
            unsafe { ((&raw const (*p).id).read(), (&raw const (*p).chk).read(), (&raw const (*p).pad).read()) };
        if c != chk(id) || pad != [id ^ 7; 3] { Err("elem-garbage") } else { known(id) }
    }
}

impl Elem for Odd {
    const NAME: &'static str = "Odd";
    const ZST: bool = false;
    fn make(val: u64) -> Self {
        let id = sim().new_id(val);
        let b = id.to_le_bytes();
        Odd([b[0], b[1], b[2], b[3], chk(id) as u8])
    }
    unsafe fn peek(p: *const Self) -> Result<(u32, u64), &'static str> {
        let b = unsafe { (&raw const (*p).0).read() };
        let id = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        if b[4] != chk(id) as u8 { Err("elem-garbage") } else { known(id) }
    }
}

impl Elem for Zst {
    const NAME: &'static str = "Zst";
    const ZST: bool = true;
    fn make(_: u64) -> Self {
        sim().zst_live += 1;
        Zst
    }
    unsafe fn peek(_: *const Self) -> Result<(u32, u64), &'static str> {
        if sim().zst_live <= 0 { Err("elem-dead") } else { Ok((0, 0)) }
    }
}

impl Elem for Boxed {
    const NAME: &'static str = "Boxed";
    const ZST: bool = false;
    fn make(val: u64) -> Self {
        let id = sim().new_id(val);
        let _p = crate::heap::Pause::new();
        let p = Box::into_raw(Box::new([id, chk(id)]));
        sim().boxes.insert(p as usize, id);
        Boxed(p)
    }
    unsafe fn peek(p: *const Self) -> Result<(u32, u64), &'static str> {
        let b = unsafe { (&raw const (*p).0).read() };
        match sim().boxes.get(&(b as usize)) {
            Some(&id) => known(id),
            None => Err("elem-dead"),
        }
    }
}

macro_rules! binop {
    ($t:ty, $n:expr, $tr:ident, $f:ident) => {
        impl std::ops::$tr<$t> for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                let (a, b) = (self.val(), o.val());
                let r = point(K::Op, opval($n, a, b), || <$t>::make(opval($n, a, b)));
                // Explicit: a result is not dropped if the destructor of an argument panics
                // at the end of the function (rust-lang/rust#47949).
                drop(o);
                drop(self);
                r
            }
        }
        impl std::ops::$tr<&$t> for $t {
            type Output = $t;
            fn $f(self, o: &$t) -> $t {
                let (a, b) = (self.val(), o.val());
                let r = point(K::Op, opval($n, a, b), || <$t>::make(opval($n, a, b)));
                // Explicit: a result is not dropped if the destructor of an argument panics
                // at the end of the function (rust-lang/rust#47949).
                drop(o);
                drop(self);
                r
            }
        }
        impl std::ops::$tr<$t> for &$t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                let (a, b) = (self.val(), o.val());
                let r = point(K::Op, opval($n, a, b), || <$t>::make(opval($n, a, b)));
                // Explicit: a result is not dropped if the destructor of an argument panics
                // at the end of the function (rust-lang/rust#47949).
                drop(o);
                drop(self);
                r
            }
        }
        impl std::ops::$tr<&$t> for &$t {
            type Output = $t;
            fn $f(self, o: &$t) -> $t {
                let (a, b) = (self.val(), o.val());
                let r = point(K::Op, opval($n, a, b), || <$t>::make(opval($n, a, b)));
                // Explicit: a result is not dropped if the destructor of an argument panics
                // at the end of the function (rust-lang/rust#47949).
                drop(o);
                drop(self);
                r
            }
        }
    };
}

macro_rules! binassign {
    ($t:ty, $n:expr, $tr:ident, $f:ident) => {
        impl std::ops::$tr<$t> for $t {
            fn $f(&mut self, o: $t) {
                let v = opval($n + 16, self.val(), o.val());
                point(K::OpAssign, v, || self.set(v))
            }
        }
        impl std::ops::$tr<&$t> for $t {
            fn $f(&mut self, o: &$t) {
                let v = opval($n + 16, self.val(), o.val());
                point(K::OpAssign, v, || self.set(v))
            }
        }
    };
}

macro_rules! elem {
    ($t:ident) => {
        impl Clone for $t {
            fn clone(&self) -> Self {
                let v = self.val();
                point(K::Clone, v, || <$t>::make(v))
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &$t) -> bool {
                let (a, b) = (self.val(), o.val());
                point(K::Eq, a ^ b, || a == b && a != UNEQUAL)
            }
        }
        impl Eq for $t {}
        impl std::hash::Hash for $t {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                let v = self.val();
                point(K::Eq, v, || h.write_u64(v))
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let v = self.val();
                if io(K::Fmt, v, F_SINK) {
                    return Err(fmt::Error);
                }
                write!(f, "<{:x}>", v & 0xffff)
            }
        }
        impl std::ops::Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                let v = unval(0, self.val());
                let r = point(K::Unary, v, || <$t>::make(v));
                drop(self);
                r
            }
        }
        impl std::ops::Not for $t {
            type Output = $t;
            fn not(self) -> $t {
                let v = unval(1, self.val());
                let r = point(K::Unary, v, || <$t>::make(v));
                drop(self);
                r
            }
        }
        impl std::ops::Neg for &$t {
            type Output = $t;
            fn neg(self) -> $t {
                let v = unval(0, self.val());
                let r = point(K::Unary, v, || <$t>::make(v));
                drop(self);
                r
            }
        }
        impl std::ops::Not for &$t {
            type Output = $t;
            fn not(self) -> $t {
                let v = unval(1, self.val());
                let r = point(K::Unary, v, || <$t>::make(v));
                drop(self);
                r
            }
        }
        binop!($t, 0, Add, add);
        binop!($t, 1, Sub, sub);
        binop!($t, 2, Mul, mul);
        binop!($t, 3, Div, div);
        binop!($t, 4, Rem, rem);
        binop!($t, 5, BitAnd, bitand);
        binop!($t, 6, BitOr, bitor);
        binop!($t, 7, BitXor, bitxor);
        binop!($t, 8, Shl, shl);
        binop!($t, 9, Shr, shr);
        binassign!($t, 0, AddAssign, add_assign);
        binassign!($t, 1, SubAssign, sub_assign);
        binassign!($t, 2, MulAssign, mul_assign);
        binassign!($t, 3, DivAssign, div_assign);
        binassign!($t, 4, RemAssign, rem_assign);
        binassign!($t, 5, BitAndAssign, bitand_assign);
        binassign!($t, 6, BitOrAssign, bitor_assign);
        binassign!($t, 7, BitXorAssign, bitxor_assign);
        binassign!($t, 8, ShlAssign, shl_assign);
        binassign!($t, 9, ShrAssign, shr_assign);
        impl Arith for $t {}
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u64(self.val())
            }
        }
        impl<'a> Deserialize<'a> for $t {
            fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
                struct Vis;
                impl<'a> Visitor<'a> for Vis {
                    type Value = $t;
                    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        f.write_str("an element")
                    }
                    fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<$t, E> {
                        if io(K::De, v, F_SRC) {
                            return Err(E::custom("injected by the element"));
                        }
                        Ok(<$t>::make(v))
                    }
                }
                d.deserialize_u64(Vis)
            }
        }
    };
}

elem!(Tok);
elem!(Fat);
elem!(Odd);
elem!(Plain);
elem!(Zst);
elem!(Boxed);

// `point` may panic: mark the element destroyed first.
macro_rules! real_drop {
    ($t:ident) => {
        impl Drop for $t {
            fn drop(&mut self) {
                let v = unsafe { <$t>::peek(self) }.map(|x| x.1).unwrap_or(1);
                forget_id(self as *const $t);
                point(K::Drop, v, || ());
            }
        }
    };
}
real_drop!(Tok);
real_drop!(Fat);
real_drop!(Odd);

impl Drop for Zst {
    fn drop(&mut self) {
        let s = sim();
        if s.zst_live <= 0 {
            s.violate("elem-double-drop", "more zero-sized elements destroyed than created".into());
        }
        s.zst_live -= 1;
        point(K::Drop, 0, || ());
    }
}

impl Drop for Boxed {
    fn drop(&mut self) {
        let v = unsafe { Boxed::peek(self) }.map(|x| x.1).unwrap_or(1);
        if forget_id(self as *const Boxed) {
            let _p = crate::heap::Pause::new();
            sim().boxes.remove(&(self.0 as usize));
            unsafe { drop(Box::from_raw(self.0)) };
        }
        point(K::Drop, v, || ());
    }
}
