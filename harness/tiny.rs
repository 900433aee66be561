// The wide integers of the crate over a word of W instead of 128 bits: the
// generic code (UInt<W>) is that of /repo/src/big_uint, only the word differs.
#![no_std]
#![allow(dead_code, unused)]
extern crate alloc;
extern crate std;

#[path = "@REPO@/src/big_uint/mod.rs"]
mod big_uint;

use big_uint::{BigUInt, DivRem, HiLo, UInt};
use core::ops::*;

#[derive(Clone, Copy, Debug, Default, Eq, Ord, PartialEq, PartialOrd)]
pub(crate) struct T(u8);

const W: u32 = @W@;
const H: u32 = W / 2;
const M: u8 = (1 << W) - 1;
const ML: u8 = (1 << H) - 1;

fn w(x: u8) -> T {
    T(x & M)
}

impl core::fmt::Display for T {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        core::fmt::Display::fmt(&self.0, f)
    }
}

impl HiLo for T {
    type T = u8;
    fn from_hi_lo(hi: u8, lo: u8) -> Self {
        w(hi << H | lo & ML)
    }
    fn hi_t(&self) -> u8 {
        self.0 >> H
    }
    fn lo_t(&self) -> u8 {
        self.0 & ML
    }
    fn hi(&self) -> Self {
        T(self.0 >> H)
    }
    fn lo(&self) -> Self {
        T(self.0 & ML)
    }
    fn as_vec_u128(&self) -> alloc::vec::Vec<u128> {
        [self.0 as u128].to_vec()
    }
}

impl BigUInt for T {
    type SubUInt = u8;
    const ZERO: Self = T(0);
    const ONE: Self = T(1);
    const TWO: Self = T(2);
    const MAX: Self = T(M);
    const BITS: u32 = W;
    fn is_even(&self) -> bool {
        self.0 & 1 == 0
    }
    fn is_odd(&self) -> bool {
        self.0 & 1 == 1
    }
    fn leading_zeros(&self) -> u32 {
        (self.0 << (8 - W) | 128 >> W).leading_zeros()
    }
    fn trailing_zeros(&self) -> u32 {
        (self.0 | 1 << W).trailing_zeros()
    }
    fn incr(&mut self) {
        *self = w(self.0.wrapping_add(1))
    }
    fn decr(&mut self) {
        *self = w(self.0.wrapping_sub(1))
    }
    fn overflowing_add(&self, r: &Self) -> (Self, bool) {
        let t = self.0 + r.0;
        (w(t), t > M)
    }
    fn wrapping_add(&self, r: &Self) -> Self {
        w(self.0.wrapping_add(r.0))
    }
    fn overflowing_sub(&self, r: &Self) -> (Self, bool) {
        (w(self.0.wrapping_sub(r.0)), self.0 < r.0)
    }
    fn wrapping_sub(&self, r: &Self) -> Self {
        w(self.0.wrapping_sub(r.0))
    }
    fn overflowing_mul(&self, r: &Self) -> (Self, bool) {
        let t = self.0 as u16 * r.0 as u16;
        (w(t as u8), t > M as u16)
    }
    fn widening_mul(&self, r: &Self) -> (Self, Self) {
        let t = self.0 as u16 * r.0 as u16;
        (w(t as u8), T((t >> W) as u8))
    }
    fn rounding_div(&self, r: &Self) -> Self {
        let (q, m) = (self.0 / r.0, 2 * (self.0 % r.0));
        w(q + (m > r.0 || m == r.0 && q & 1 == 1) as u8)
    }
    fn rounding_div_pow2(&self, n: u32) -> Self {
        let (q, r) = self.widening_shr(n);
        w(q.0 + (r.0 > M / 2 + 1 || r.0 == M / 2 + 1 && q.0 & 1 == 1) as u8)
    }
    fn rem_pow2(&self, n: u32) -> Self {
        T(w(self.0 << n).0 >> n)
    }
}

macro_rules! ops {
    ($($tr:ident $m:ident $w:ident,)*) => {$(
        impl $tr for T {
            type Output = T;
            fn $m(self, r: T) -> T { w(self.0.$w(r.0)) }
        }
        impl<'a> $tr<T> for &'a T {
            type Output = T;
            fn $m(self, r: T) -> T { w(self.0.$w(r.0)) }
        }
        impl<'a> $tr<&'a T> for &'a T {
            type Output = T;
            fn $m(self, r: &T) -> T { w(self.0.$w(r.0)) }
        }
    )*}
}
ops!(Add add wrapping_add, Sub sub wrapping_sub, Mul mul wrapping_mul,
     Div div wrapping_div, Rem rem wrapping_rem, BitAnd bitand bitand,
     BitOr bitor bitor,);
macro_rules! asg {
    ($($tr:ident $m:ident $w:ident,)*) => {$(
        impl<'a> $tr<&'a T> for T {
            fn $m(&mut self, r: &T) { *self = w(self.0.$w(r.0)) }
        }
    )*}
}
asg!(AddAssign add_assign wrapping_add, SubAssign sub_assign wrapping_sub,
     MulAssign mul_assign wrapping_mul, BitAndAssign bitand_assign bitand,
     BitOrAssign bitor_assign bitor,);
macro_rules! small {
    ($($u:ty)*) => {$(
        impl Add<$u> for T {
            type Output = T;
            fn add(self, r: $u) -> T { w(self.0.wrapping_add(r as u8)) }
        }
        impl Sub<$u> for T {
            type Output = T;
            fn sub(self, r: $u) -> T { w(self.0.wrapping_sub(r as u8)) }
        }
        impl<'a> AddAssign<&'a $u> for T {
            fn add_assign(&mut self, r: &$u) {
                *self = w(self.0.wrapping_add(*r as u8))
            }
        }
        impl<'a> SubAssign<&'a $u> for T {
            fn sub_assign(&mut self, r: &$u) {
                *self = w(self.0.wrapping_sub(*r as u8))
            }
        }
    )*}
}
small!(u8 u128);
impl Shl<u32> for T {
    type Output = T;
    fn shl(self, n: u32) -> T {
        w(self.0 << (n & 7))
    }
}
impl Shr<u32> for T {
    type Output = T;
    fn shr(self, n: u32) -> T {
        T(self.0 >> (n & 7))
    }
}
impl Shl<u32> for &T {
    type Output = T;
    fn shl(self, n: u32) -> T {
        w(self.0 << (n & 7))
    }
}
impl Shr<u32> for &T {
    type Output = T;
    fn shr(self, n: u32) -> T {
        T(self.0 >> (n & 7))
    }
}
impl ShlAssign<u32> for T {
    fn shl_assign(&mut self, n: u32) {
        *self = *self << n
    }
}
impl ShrAssign<u32> for T {
    fn shr_assign(&mut self, n: u32) {
        *self = *self >> n
    }
}
impl DivRem<u128> for T {
    type Output = (T, u128);
    fn div_rem(self, r: u128) -> (T, u128) {
        (T((self.0 as u128 / r) as u8), self.0 as u128 % r)
    }
}
impl DivRem for T {
    type Output = (T, T);
    fn div_rem(self, r: T) -> (T, T) {
        (T(self.0 / r.0), T(self.0 % r.0))
    }
}
impl<'a> DivRem<&'a T> for &'a T {
    type Output = (T, T);
    fn div_rem(self, r: &T) -> (T, T) {
        (T(self.0 / r.0), T(self.0 % r.0))
    }
}
impl From<bool> for T {
    fn from(b: bool) -> T {
        T(b as u8)
    }
}
impl From<u128> for T {
    fn from(v: u128) -> T {
        w(v as u8)
    }
}
impl<'a> From<&'a u128> for T {
    fn from(v: &u128) -> T {
        w(*v as u8)
    }
}
impl<'a> From<&'a [u128]> for T {
    fn from(v: &[u128]) -> T {
        w(v[0] as u8)
    }
}

pub(crate) type T2 = UInt<T>;

fn t2(x: u16) -> T2 {
    T2::from_hi_lo(w((x >> W) as u8), w(x as u8))
}
fn u2(x: T2) -> u16 {
    (x.hi_t().0 as u16) << W | x.lo_t().0 as u16
}

/// UInt<T> by T, as U512 by U256 and U256 by U128
#[no_mangle]
pub extern "C" fn t_div21(q: &mut u16, r: &mut u16, x: u16, y: u16) {
    let (a, b) = (&t2(x)).div_rem(&w(y as u8));
    *q = u2(a);
    *r = b.0 as u16;
}
/// UInt<T> by UInt<T>, as U256 by U256
#[no_mangle]
pub extern "C" fn t_div22(q: &mut u16, r: &mut u16, x: u16, y: u16) {
    let (a, b) = (&t2(x)).div_rem(&t2(y));
    *q = u2(a);
    *r = u2(b);
}
