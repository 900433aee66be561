// Harness: C-ABI entry points over the public API of `f256`.
// A value travels as [u128; 2] = [hi, lo] (the order of `f256::to_bits`).
#![allow(improper_ctypes_definitions)]
#![allow(clippy::missing_safety_doc)]

use core::cmp::Ordering;
use core::num::FpCategory;
use f256::f256;

type W = [u128; 2];

#[inline(always)]
fn g(a: &W) -> f256 {
    f256::from_bits((a[0], a[1]))
}
#[inline(always)]
fn p(f: f256) -> W {
    let (h, l) = f.to_bits();
    [h, l]
}
#[inline(always)]
fn ord(o: Ordering) -> u32 {
    match o {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    }
}

macro_rules! un {
    ($($n:ident: $x:ident => $e:expr),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $n(r: &mut W, a: &W) { let $x = g(a); *r = p($e); }
    )* };
}
macro_rules! bin {
    ($($n:ident: $x:ident, $y:ident => $e:expr),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $n(r: &mut W, a: &W, b: &W) {
            let $x = g(a); let $y = g(b); *r = p($e);
        }
    )* };
}
macro_rules! tern {
    ($($n:ident: $x:ident, $y:ident, $z:ident => $e:expr),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $n(r: &mut W, a: &W, b: &W, c: &W) {
            let $x = g(a); let $y = g(b); let $z = g(c); *r = p($e);
        }
    )* };
}
macro_rules! un_n {
    ($($n:ident: $x:ident, $k:ident => $e:expr),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $n(r: &mut W, a: &W, $k: u32) { let $x = g(a); *r = p($e); }
    )* };
}
macro_rules! pred {
    ($($n:ident: $x:ident => $e:expr),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $n(a: &W) -> u32 { let $x = g(a); ($e) as u32 }
    )* };
}
macro_rules! rel {
    ($($n:ident: $x:ident, $y:ident => $e:expr),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $n(a: &W, b: &W) -> u32 {
            let $x = g(a); let $y = g(b); ($e) as u32
        }
    )* };
}

bin! {
    h_add: x, y => x + y,
    h_sub: x, y => x - y,
    h_mul: x, y => x * y,
    h_div: x, y => x / y,
    h_rem: x, y => x % y,
    h_max: x, y => x.max(y),
    h_min: x, y => x.min(y),
    h_sos: x, y => x.sum_of_squares(y),
    h_atan2: x, y => x.atan2(&y),
    h_sqadd: x, y => x.square_add(y),
    h_log: x, y => x.log(y),
}
tern! {
    h_fma: x, y, z => x.mul_add(y, z),
    h_clamp: x, y, z => x.clamp(y, z),
}
un! {
    h_neg: x => -x,
    h_abs: x => x.abs(),
    h_trunc: x => x.trunc(),
    h_floor: x => x.floor(),
    h_ceil: x => x.ceil(),
    h_round: x => x.round(),
    h_rte: x => x.round_tie_even(),
    h_fract: x => x.fract(),
    h_ulp: x => x.ulp(),
    h_recip: x => x.recip(),
    h_sqrt: x => x.sqrt(),
    h_mul2: x => x.mul2(),
    h_div2: x => x.div2(),
    h_square: x => x.square(),
    h_todeg: x => x.to_degrees(),
    h_torad: x => x.to_radians(),
    h_sin: x => x.sin(),
    h_cos: x => x.cos(),
    h_tan: x => x.tan(),
    h_asin: x => x.asin(),
    h_acos: x => x.acos(),
    h_atan: x => x.atan(),
    h_ln: x => x.ln(),
    h_ln1p: x => x.ln_1p(),
    h_log2: x => x.log2(),
    h_log10: x => x.log10(),
}
un_n! {
    h_mulpow2: x, n => x.mul_pow2(n),
    h_divpow2: x, n => x.div_pow2(n),
}
pred! {
    h_isnan: x => x.is_nan(),
    h_isinf: x => x.is_infinite(),
    h_isfin: x => x.is_finite(),
    h_issub: x => x.is_subnormal(),
    h_isnorm: x => x.is_normal(),
    h_isspos: x => x.is_sign_positive(),
    h_issneg: x => x.is_sign_negative(),
    h_eqzero: x => x.eq_zero(),
    h_isspecial: x => x.is_special(),
    h_classify: x => match x.classify() {
        FpCategory::Nan => 0u32, FpCategory::Infinite => 1,
        FpCategory::Zero => 2, FpCategory::Subnormal => 3,
        FpCategory::Normal => 4 },
}
rel! {
    h_eq: x, y => x == y,
    h_ne: x, y => x != y,
    h_lt: x, y => x < y,
    h_le: x, y => x <= y,
    h_gt: x, y => x > y,
    h_ge: x, y => x >= y,
    h_pcmp: x, y => match x.partial_cmp(&y) { None => 3, Some(o) => ord(o) },
    h_tcmp: x, y => ord(x.total_cmp(&y)),
}

#[no_mangle]
pub extern "C" fn h_split(r: &mut [u128; 4], a: &W) {
    let (i, f) = g(a).split();
    let (i, f) = (p(i), p(f));
    *r = [i[0], i[1], f[0], f[1]];
}
#[no_mangle]
pub extern "C" fn h_sincos(r: &mut [u128; 4], a: &W) {
    let (i, f) = g(a).sin_cos();
    let (i, f) = (p(i), p(f));
    *r = [i[0], i[1], f[0], f[1]];
}
#[no_mangle]
pub extern "C" fn h_parse(r: &mut W, s: *const u8, n: usize) -> u32 {
    let s = unsafe {
        core::str::from_utf8_unchecked(core::slice::from_raw_parts(s, n))
    };
    match s.parse::<f256>() {
        Ok(f) => { *r = p(f); 1 }
        Err(_) => 0,
    }
}
#[no_mangle]
pub extern "C" fn h_encode(r: &mut W, s: u32, t: i32, c: &W) {
    *r = p(f256::from_sign_exp_signif(s, t, (c[0], c[1])));
}
#[no_mangle]
pub extern "C" fn h_decode(r: &mut W, st: &mut [u32; 2], a: &W) {
    let (s, t, c) = g(a).as_sign_exp_signif();
    *r = [c.0, c.1];
    *st = [s, t as u32];
}

// ---- conversions --------------------------------------------------------
macro_rules! from_int {
    ($($n:ident: $t:ty, $u:ty);* $(;)?) => { $(
        #[no_mangle]
        pub extern "C" fn $n(r: &mut W, x: $u) { *r = p(f256::from(x as $t)); }
    )* };
}
from_int! {
    h_from_u8: u8, u8; h_from_u16: u16, u16; h_from_u32: u32, u32;
    h_from_u64: u64, u64; h_from_i8: i8, u8; h_from_i16: i16, u16;
    h_from_i32: i32, u32; h_from_i64: i64, u64;
}
#[no_mangle]
pub extern "C" fn h_from_bool(r: &mut W, x: u8) {
    *r = p(f256::from(u8::from(x & 1 == 1)));
}
#[no_mangle]
pub extern "C" fn h_from_u128(r: &mut W, x: &[u128; 1]) {
    *r = p(f256::from(x[0]));
}
#[no_mangle]
pub extern "C" fn h_from_i128(r: &mut W, x: &[u128; 1]) {
    *r = p(f256::from(x[0] as i128));
}
#[no_mangle]
pub extern "C" fn h_from_f32(r: &mut W, x: u32) {
    *r = p(f256::from(f32::from_bits(x)));
}
#[no_mangle]
pub extern "C" fn h_from_f64(r: &mut W, x: u64) {
    *r = p(f256::from(f64::from_bits(x)));
}
#[inline(always)]
fn wb(b: [u8; 32]) -> W {
    let mut h = [0u8; 16];
    let mut l = [0u8; 16];
    h.copy_from_slice(&b[..16]);
    l.copy_from_slice(&b[16..]);
    [u128::from_be_bytes(h), u128::from_be_bytes(l)]
}
#[inline(always)]
fn bw(w: &W) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[..16].copy_from_slice(&w[0].to_be_bytes());
    b[16..].copy_from_slice(&w[1].to_be_bytes());
    b
}
// the bytes, first byte most significant, as a 256-bit word
#[no_mangle]
pub extern "C" fn h_to_be(r: &mut W, a: &W) { *r = wb(g(a).to_be_bytes()); }
#[no_mangle]
pub extern "C" fn h_to_le(r: &mut W, a: &W) { *r = wb(g(a).to_le_bytes()); }
#[no_mangle]
pub extern "C" fn h_to_ne(r: &mut W, a: &W) { *r = wb(g(a).to_ne_bytes()); }
#[no_mangle]
pub extern "C" fn h_from_be(r: &mut W, a: &W) { *r = p(f256::from_be_bytes(bw(a))); }
#[no_mangle]
pub extern "C" fn h_from_le(r: &mut W, a: &W) { *r = p(f256::from_le_bytes(bw(a))); }
#[no_mangle]
pub extern "C" fn h_from_ne(r: &mut W, a: &W) { *r = p(f256::from_ne_bytes(bw(a))); }
un! { h_bits: x => x, h_negref: x => -&x }

// ---- operator forms -----------------------------------------------------
macro_rules! forms {
    ($($a:ident $b:ident $c:ident $d:ident $e:ident: $op:tt $oa:tt);* $(;)?) => { $(
        #[no_mangle]
        pub extern "C" fn $a(r: &mut W, a: &W, b: &W) { let (x, y) = (g(a), g(b)); *r = p(&x $op y); }
        #[no_mangle]
        pub extern "C" fn $b(r: &mut W, a: &W, b: &W) { let (x, y) = (g(a), g(b)); *r = p(x $op &y); }
        #[no_mangle]
        pub extern "C" fn $c(r: &mut W, a: &W, b: &W) { let (x, y) = (g(a), g(b)); *r = p(&x $op &y); }
        #[no_mangle]
        pub extern "C" fn $d(r: &mut W, a: &W, b: &W) { let (mut x, y) = (g(a), g(b)); x $oa y; *r = p(x); }
        #[no_mangle]
        pub extern "C" fn $e(r: &mut W, a: &W, b: &W) { let (mut x, y) = (g(a), g(b)); x $oa &y; *r = p(x); }
    )* };
}
forms! {
    h_add_rv h_add_vr h_add_rr h_add_av h_add_ar: + +=;
    h_sub_rv h_sub_vr h_sub_rr h_sub_av h_sub_ar: - -=;
    h_mul_rv h_mul_vr h_mul_rr h_mul_av h_mul_ar: * *=;
    h_div_rv h_div_vr h_div_rr h_div_av h_div_ar: / /=;
    h_rem_rv h_rem_vr h_rem_rr h_rem_av h_rem_ar: % %=;
}

// ---- constants ----------------------------------------------------------
#[no_mangle]
pub extern "C" fn h_const(r: &mut W, k: u32) {
    *r = p(match k {
        0 => f256::NAN, 1 => f256::INFINITY, 2 => f256::NEG_INFINITY,
        3 => f256::ZERO, 4 => f256::NEG_ZERO, 5 => f256::ONE,
        6 => f256::NEG_ONE, 7 => f256::TWO, 8 => f256::TEN,
        9 => f256::EPSILON, 10 => f256::MAX, 11 => f256::MIN,
        12 => f256::MIN_POSITIVE, _ => f256::MIN_GT_ZERO,
    });
}
