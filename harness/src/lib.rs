// @generated by gen.py -- one extern "C" entry point per micromath API.
//
// micromath is compiled here as the ordinary no_std dependency that its users get,
// so method calls inside it resolve exactly as they do for them (under `cargo test`
// the std inherent float methods shadow some of micromath's own).
#![no_std]
#![allow(clippy::missing_safety_doc)]
use micromath::statistics::trim::Trim;
use micromath::statistics::{Mean, StdDev, Variance};
use micromath::vector::*;
use micromath::{F32Ext, Quaternion, F32};

#[link(name = "c")]
extern "C" {
    fn abort() -> !;
}
// core is compiled for unwinding and refers to this symbol; nothing here unwinds
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    unsafe { abort() }
}

#[no_mangle] pub extern "C" fn f_abs(x: f32) -> f32 { F32::abs(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_asin(x: f32) -> f32 { F32::asin(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_atan(x: f32) -> f32 { F32::atan(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_ceil(x: f32) -> f32 { F32::ceil(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_cos(x: f32) -> f32 { F32::cos(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_cosh(x: f32) -> f32 { F32::cosh(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_exp(x: f32) -> f32 { F32::exp(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_floor(x: f32) -> f32 { F32::floor(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_fract(x: f32) -> f32 { F32::fract(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_inv(x: f32) -> f32 { F32::inv(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_invsqrt(x: f32) -> f32 { F32::invsqrt(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_ln(x: f32) -> f32 { F32::ln(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_log10(x: f32) -> f32 { F32::log10(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_log2(x: f32) -> f32 { F32::log2(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_recip(x: f32) -> f32 { F32::recip(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_round(x: f32) -> f32 { F32::round(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_signum(x: f32) -> f32 { F32::signum(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_sin(x: f32) -> f32 { F32::sin(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_sqrt(x: f32) -> f32 { F32::sqrt(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_tan(x: f32) -> f32 { F32::tan(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_trunc(x: f32) -> f32 { F32::trunc(F32(x)).0 }
#[no_mangle] pub extern "C" fn f_atan_norm(x: f32) -> f32 { F32::atan_norm(F32(x)).0 }
#[no_mangle] pub extern "C" fn e_abs(x: f32) -> f32 { F32Ext::abs(x) }
#[no_mangle] pub extern "C" fn e_acos(x: f32) -> f32 { F32Ext::acos(x) }
#[no_mangle] pub extern "C" fn e_asin(x: f32) -> f32 { F32Ext::asin(x) }
#[no_mangle] pub extern "C" fn e_atan(x: f32) -> f32 { F32Ext::atan(x) }
#[no_mangle] pub extern "C" fn e_ceil(x: f32) -> f32 { F32Ext::ceil(x) }
#[no_mangle] pub extern "C" fn e_cos(x: f32) -> f32 { F32Ext::cos(x) }
#[no_mangle] pub extern "C" fn e_exp(x: f32) -> f32 { F32Ext::exp(x) }
#[no_mangle] pub extern "C" fn e_floor(x: f32) -> f32 { F32Ext::floor(x) }
#[no_mangle] pub extern "C" fn e_fract(x: f32) -> f32 { F32Ext::fract(x) }
#[no_mangle] pub extern "C" fn e_inv(x: f32) -> f32 { F32Ext::inv(x) }
#[no_mangle] pub extern "C" fn e_invsqrt(x: f32) -> f32 { F32Ext::invsqrt(x) }
#[no_mangle] pub extern "C" fn e_ln(x: f32) -> f32 { F32Ext::ln(x) }
#[no_mangle] pub extern "C" fn e_log10(x: f32) -> f32 { F32Ext::log10(x) }
#[no_mangle] pub extern "C" fn e_log2(x: f32) -> f32 { F32Ext::log2(x) }
#[no_mangle] pub extern "C" fn e_recip(x: f32) -> f32 { F32Ext::recip(x) }
#[no_mangle] pub extern "C" fn e_round(x: f32) -> f32 { F32Ext::round(x) }
#[no_mangle] pub extern "C" fn e_signum(x: f32) -> f32 { F32Ext::signum(x) }
#[no_mangle] pub extern "C" fn e_sin(x: f32) -> f32 { F32Ext::sin(x) }
#[no_mangle] pub extern "C" fn e_sqrt(x: f32) -> f32 { F32Ext::sqrt(x) }
#[no_mangle] pub extern "C" fn e_tan(x: f32) -> f32 { F32Ext::tan(x) }
#[no_mangle] pub extern "C" fn e_trunc(x: f32) -> f32 { F32Ext::trunc(x) }
#[no_mangle] pub extern "C" fn e_atan_norm(x: f32) -> f32 { F32Ext::atan_norm(x) }
#[no_mangle] pub extern "C" fn f_atan2(x: f32, y: f32) -> f32 { F32::atan2(F32(x), F32(y)).0 }
#[no_mangle] pub extern "C" fn f_copysign(x: f32, y: f32) -> f32 { F32::copysign(F32(x), F32(y)).0 }
#[no_mangle] pub extern "C" fn f_div_euclid(x: f32, y: f32) -> f32 { F32::div_euclid(F32(x), F32(y)).0 }
#[no_mangle] pub extern "C" fn f_hypot(x: f32, y: f32) -> f32 { F32::hypot(F32(x), F32(y)).0 }
#[no_mangle] pub extern "C" fn f_log(x: f32, y: f32) -> f32 { F32::log(F32(x), F32(y)).0 }
#[no_mangle] pub extern "C" fn f_powf(x: f32, y: f32) -> f32 { F32::powf(F32(x), F32(y)).0 }
#[no_mangle] pub extern "C" fn f_rem_euclid(x: f32, y: f32) -> f32 { F32::rem_euclid(F32(x), F32(y)).0 }
#[no_mangle] pub extern "C" fn e_atan2(x: f32, y: f32) -> f32 { F32Ext::atan2(x, y) }
#[no_mangle] pub extern "C" fn e_copysign(x: f32, y: f32) -> f32 { F32Ext::copysign(x, y) }
#[no_mangle] pub extern "C" fn e_div_euclid(x: f32, y: f32) -> f32 { F32Ext::div_euclid(x, y) }
#[no_mangle] pub extern "C" fn e_hypot(x: f32, y: f32) -> f32 { F32Ext::hypot(x, y) }
#[no_mangle] pub extern "C" fn e_log(x: f32, y: f32) -> f32 { F32Ext::log(x, y) }
#[no_mangle] pub extern "C" fn e_powf(x: f32, y: f32) -> f32 { F32Ext::powf(x, y) }
#[no_mangle] pub extern "C" fn e_rem_euclid(x: f32, y: f32) -> f32 { F32Ext::rem_euclid(x, y) }
#[no_mangle] pub extern "C" fn e_atan2_norm(x: f32, y: f32) -> f32 { F32Ext::atan2_norm(x, y) }

#[no_mangle] pub extern "C" fn f_powi(x: f32, n: i32) -> f32 { F32(x).powi(n).0 }
#[no_mangle] pub extern "C" fn e_powi(x: f32, n: i32) -> f32 { F32Ext::powi(x, n) }
#[no_mangle] pub extern "C" fn f_mul_add(x: f32, y: f32, z: f32) -> f32 { F32(x).mul_add(F32(y), F32(z)).0 }
#[no_mangle] pub extern "C" fn e_mul_add(x: f32, y: f32, z: f32) -> f32 { F32Ext::mul_add(x, y, z) }
#[no_mangle] pub extern "C" fn f_sin_cos(x: f32, o: &mut [f32; 2]) { let (s, c) = F32(x).sin_cos(); *o = [s.0, c.0] }
#[no_mangle] pub extern "C" fn e_sin_cos(x: f32, o: &mut [f32; 2]) { let (s, c) = F32Ext::sin_cos(x); *o = [s, c] }

#[no_mangle] pub extern "C" fn op_add_pp(x: f32, y: f32) -> f32 { x + y }
#[no_mangle] pub extern "C" fn op_add_ff(x: f32, y: f32) -> f32 { (F32(x) + F32(y)).0 }
#[no_mangle] pub extern "C" fn op_add_fp(x: f32, y: f32) -> f32 { (F32(x) + y).0 }
#[no_mangle] pub extern "C" fn op_add_pf(x: f32, y: f32) -> f32 { (x + F32(y)).0 }
#[no_mangle] pub extern "C" fn op_add_aff(x: f32, y: f32) -> f32 { let mut a = F32(x); a += F32(y); a.0 }
#[no_mangle] pub extern "C" fn op_add_afp(x: f32, y: f32) -> f32 { let mut a = F32(x); a += y; a.0 }
#[no_mangle] pub extern "C" fn op_add_apf(x: f32, y: f32) -> f32 { let mut a = x; a += F32(y); a }
#[no_mangle] pub extern "C" fn op_sub_pp(x: f32, y: f32) -> f32 { x - y }
#[no_mangle] pub extern "C" fn op_sub_ff(x: f32, y: f32) -> f32 { (F32(x) - F32(y)).0 }
#[no_mangle] pub extern "C" fn op_sub_fp(x: f32, y: f32) -> f32 { (F32(x) - y).0 }
#[no_mangle] pub extern "C" fn op_sub_pf(x: f32, y: f32) -> f32 { (x - F32(y)).0 }
#[no_mangle] pub extern "C" fn op_sub_aff(x: f32, y: f32) -> f32 { let mut a = F32(x); a -= F32(y); a.0 }
#[no_mangle] pub extern "C" fn op_sub_afp(x: f32, y: f32) -> f32 { let mut a = F32(x); a -= y; a.0 }
#[no_mangle] pub extern "C" fn op_sub_apf(x: f32, y: f32) -> f32 { let mut a = x; a -= F32(y); a }
#[no_mangle] pub extern "C" fn op_mul_pp(x: f32, y: f32) -> f32 { x * y }
#[no_mangle] pub extern "C" fn op_mul_ff(x: f32, y: f32) -> f32 { (F32(x) * F32(y)).0 }
#[no_mangle] pub extern "C" fn op_mul_fp(x: f32, y: f32) -> f32 { (F32(x) * y).0 }
#[no_mangle] pub extern "C" fn op_mul_pf(x: f32, y: f32) -> f32 { (x * F32(y)).0 }
#[no_mangle] pub extern "C" fn op_mul_aff(x: f32, y: f32) -> f32 { let mut a = F32(x); a *= F32(y); a.0 }
#[no_mangle] pub extern "C" fn op_mul_afp(x: f32, y: f32) -> f32 { let mut a = F32(x); a *= y; a.0 }
#[no_mangle] pub extern "C" fn op_mul_apf(x: f32, y: f32) -> f32 { let mut a = x; a *= F32(y); a }
#[no_mangle] pub extern "C" fn op_div_pp(x: f32, y: f32) -> f32 { x / y }
#[no_mangle] pub extern "C" fn op_div_ff(x: f32, y: f32) -> f32 { (F32(x) / F32(y)).0 }
#[no_mangle] pub extern "C" fn op_div_fp(x: f32, y: f32) -> f32 { (F32(x) / y).0 }
#[no_mangle] pub extern "C" fn op_div_pf(x: f32, y: f32) -> f32 { (x / F32(y)).0 }
#[no_mangle] pub extern "C" fn op_div_aff(x: f32, y: f32) -> f32 { let mut a = F32(x); a /= F32(y); a.0 }
#[no_mangle] pub extern "C" fn op_div_afp(x: f32, y: f32) -> f32 { let mut a = F32(x); a /= y; a.0 }
#[no_mangle] pub extern "C" fn op_div_apf(x: f32, y: f32) -> f32 { let mut a = x; a /= F32(y); a }
#[no_mangle] pub extern "C" fn op_rem_pp(x: f32, y: f32) -> f32 { x % y }
#[no_mangle] pub extern "C" fn op_rem_ff(x: f32, y: f32) -> f32 { (F32(x) % F32(y)).0 }
#[no_mangle] pub extern "C" fn op_rem_fp(x: f32, y: f32) -> f32 { (F32(x) % y).0 }
#[no_mangle] pub extern "C" fn op_rem_pf(x: f32, y: f32) -> f32 { (x % F32(y)).0 }
#[no_mangle] pub extern "C" fn op_rem_aff(x: f32, y: f32) -> f32 { let mut a = F32(x); a %= F32(y); a.0 }
#[no_mangle] pub extern "C" fn op_rem_afp(x: f32, y: f32) -> f32 { let mut a = F32(x); a %= y; a.0 }
#[no_mangle] pub extern "C" fn op_neg_p(x: f32) -> f32 { -x }
#[no_mangle] pub extern "C" fn op_neg_f(x: f32) -> f32 { (-F32(x)).0 }
#[no_mangle] pub extern "C" fn cmp_eq_pp(x: f32, y: f32) -> u8 { (x == y) as u8 }
#[no_mangle] pub extern "C" fn cmp_eq_ff(x: f32, y: f32) -> u8 { (F32(x) == F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_eq_fp(x: f32, y: f32) -> u8 { (F32(x) == y) as u8 }
#[no_mangle] pub extern "C" fn cmp_eq_pf(x: f32, y: f32) -> u8 { (x == F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_ne_pp(x: f32, y: f32) -> u8 { (x != y) as u8 }
#[no_mangle] pub extern "C" fn cmp_ne_ff(x: f32, y: f32) -> u8 { (F32(x) != F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_ne_fp(x: f32, y: f32) -> u8 { (F32(x) != y) as u8 }
#[no_mangle] pub extern "C" fn cmp_ne_pf(x: f32, y: f32) -> u8 { (x != F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_lt_pp(x: f32, y: f32) -> u8 { (x < y) as u8 }
#[no_mangle] pub extern "C" fn cmp_lt_ff(x: f32, y: f32) -> u8 { (F32(x) < F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_lt_fp(x: f32, y: f32) -> u8 { (F32(x) < y) as u8 }
#[no_mangle] pub extern "C" fn cmp_lt_pf(x: f32, y: f32) -> u8 { (x < F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_le_pp(x: f32, y: f32) -> u8 { (x <= y) as u8 }
#[no_mangle] pub extern "C" fn cmp_le_ff(x: f32, y: f32) -> u8 { (F32(x) <= F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_le_fp(x: f32, y: f32) -> u8 { (F32(x) <= y) as u8 }
#[no_mangle] pub extern "C" fn cmp_le_pf(x: f32, y: f32) -> u8 { (x <= F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_gt_pp(x: f32, y: f32) -> u8 { (x > y) as u8 }
#[no_mangle] pub extern "C" fn cmp_gt_ff(x: f32, y: f32) -> u8 { (F32(x) > F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_gt_fp(x: f32, y: f32) -> u8 { (F32(x) > y) as u8 }
#[no_mangle] pub extern "C" fn cmp_gt_pf(x: f32, y: f32) -> u8 { (x > F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_ge_pp(x: f32, y: f32) -> u8 { (x >= y) as u8 }
#[no_mangle] pub extern "C" fn cmp_ge_ff(x: f32, y: f32) -> u8 { (F32(x) >= F32(y)) as u8 }
#[no_mangle] pub extern "C" fn cmp_ge_fp(x: f32, y: f32) -> u8 { (F32(x) >= y) as u8 }
#[no_mangle] pub extern "C" fn cmp_ge_pf(x: f32, y: f32) -> u8 { (x >= F32(y)) as u8 }

fn ordc(o: Option<core::cmp::Ordering>) -> u8 { match o { None => 3, Some(core::cmp::Ordering::Less) => 0, Some(core::cmp::Ordering::Equal) => 1, Some(core::cmp::Ordering::Greater) => 2 } }
#[no_mangle] pub extern "C" fn cmp_ord_pp(x: f32, y: f32) -> u8 { ordc(x.partial_cmp(&y)) }
#[no_mangle] pub extern "C" fn cmp_ord_ff(x: f32, y: f32) -> u8 { ordc(F32(x).partial_cmp(&F32(y))) }
#[no_mangle] pub extern "C" fn cmp_ord_fp(x: f32, y: f32) -> u8 { ordc(F32(x).partial_cmp(&y)) }
#[no_mangle] pub extern "C" fn cmp_ord_pf(x: f32, y: f32) -> u8 { ordc(x.partial_cmp(&F32(y))) }
#[no_mangle] pub extern "C" fn cv_f32(x: f32) -> f32 { F32::from(x).into() }
#[no_mangle] pub extern "C" fn cv_i8(x: i8) -> f32 { F32::from(x).0 }
#[no_mangle] pub extern "C" fn cv_u8(x: u8) -> f32 { F32::from(x).0 }
#[no_mangle] pub extern "C" fn cv_i16(x: i16) -> f32 { F32::from(x).0 }
#[no_mangle] pub extern "C" fn cv_u16(x: u16) -> f32 { F32::from(x).0 }
#[no_mangle] pub extern "C" fn cv_to_bits(x: f32) -> u32 { F32(x).to_bits() }
#[no_mangle] pub extern "C" fn cv_from_bits(x: u32) -> f32 { F32::from_bits(x).0 }
#[no_mangle] pub extern "C" fn cls_f(x: f32) -> u8 { let x = F32(x); (x.is_nan() as u8) | (x.is_infinite() as u8) << 1 | (x.is_finite() as u8) << 2 | (x.is_sign_positive() as u8) << 3 | (x.is_sign_negative() as u8) << 4 }
#[no_mangle] pub extern "C" fn cls_p(x: f32) -> u8 { (x.is_nan() as u8) | (x.is_infinite() as u8) << 1 | (x.is_finite() as u8) << 2 | (x.is_sign_positive() as u8) << 3 | (x.is_sign_negative() as u8) << 4 }
#[no_mangle] pub extern "C" fn consts_f(o: &mut [f32; 9]) { *o = [F32::ZERO.0, F32::ONE.0, F32::EPSILON.0, F32::MIN.0, F32::MIN_POSITIVE.0, F32::MAX.0, F32::NAN.0, F32::INFINITY.0, F32::NEG_INFINITY.0] }
#[no_mangle] pub extern "C" fn consts_i(o: &mut [i32; 7]) { *o = [F32::RADIX as i32, F32::MANTISSA_DIGITS as i32, F32::DIGITS as i32, F32::MIN_EXP, F32::MAX_EXP, F32::MIN_10_EXP, F32::MAX_10_EXP] }
#[no_mangle] pub extern "C" fn cv_default() -> f32 { F32::default().0 }
#[no_mangle] pub extern "C" fn nt_zero() -> f32 { <F32 as micromath::num_traits::Zero>::zero().0 }
#[no_mangle] pub extern "C" fn nt_one() -> f32 { <F32 as micromath::num_traits::One>::one().0 }
#[no_mangle] pub extern "C" fn nt_is_zero(x: f32) -> u8 { micromath::num_traits::Zero::is_zero(&F32(x)) as u8 }
#[no_mangle] pub extern "C" fn nt_is_one(x: f32) -> u8 { micromath::num_traits::One::is_one(&F32(x)) as u8 }
#[no_mangle] pub extern "C" fn nt_inv(x: f32) -> f32 { micromath::num_traits::Inv::inv(F32(x)).0 }

#[no_mangle] pub extern "C" fn sum_f0(a: &[f32; 0]) -> f32 { a.iter().map(|v| F32(*v)).sum::<F32>().0 }
#[no_mangle] pub extern "C" fn sum_p0(a: &[f32; 0]) -> f32 { a.iter().copied().sum::<f32>() }
#[no_mangle] pub extern "C" fn prod_f0(a: &[f32; 0]) -> f32 { a.iter().map(|v| F32(*v)).product::<F32>().0 }
#[no_mangle] pub extern "C" fn prod_p0(a: &[f32; 0]) -> f32 { a.iter().copied().product::<f32>() }
#[no_mangle] pub extern "C" fn sum_f1(a: &[f32; 1]) -> f32 { a.iter().map(|v| F32(*v)).sum::<F32>().0 }
#[no_mangle] pub extern "C" fn sum_p1(a: &[f32; 1]) -> f32 { a.iter().copied().sum::<f32>() }
#[no_mangle] pub extern "C" fn prod_f1(a: &[f32; 1]) -> f32 { a.iter().map(|v| F32(*v)).product::<F32>().0 }
#[no_mangle] pub extern "C" fn prod_p1(a: &[f32; 1]) -> f32 { a.iter().copied().product::<f32>() }
#[no_mangle] pub extern "C" fn sum_f2(a: &[f32; 2]) -> f32 { a.iter().map(|v| F32(*v)).sum::<F32>().0 }
#[no_mangle] pub extern "C" fn sum_p2(a: &[f32; 2]) -> f32 { a.iter().copied().sum::<f32>() }
#[no_mangle] pub extern "C" fn prod_f2(a: &[f32; 2]) -> f32 { a.iter().map(|v| F32(*v)).product::<F32>().0 }
#[no_mangle] pub extern "C" fn prod_p2(a: &[f32; 2]) -> f32 { a.iter().copied().product::<f32>() }
#[no_mangle] pub extern "C" fn sum_f3(a: &[f32; 3]) -> f32 { a.iter().map(|v| F32(*v)).sum::<F32>().0 }
#[no_mangle] pub extern "C" fn sum_p3(a: &[f32; 3]) -> f32 { a.iter().copied().sum::<f32>() }
#[no_mangle] pub extern "C" fn prod_f3(a: &[f32; 3]) -> f32 { a.iter().map(|v| F32(*v)).product::<F32>().0 }
#[no_mangle] pub extern "C" fn prod_p3(a: &[f32; 3]) -> f32 { a.iter().copied().product::<f32>() }
#[no_mangle] pub extern "C" fn sum_f4(a: &[f32; 4]) -> f32 { a.iter().map(|v| F32(*v)).sum::<F32>().0 }
#[no_mangle] pub extern "C" fn sum_p4(a: &[f32; 4]) -> f32 { a.iter().copied().sum::<f32>() }
#[no_mangle] pub extern "C" fn prod_f4(a: &[f32; 4]) -> f32 { a.iter().map(|v| F32(*v)).product::<F32>().0 }
#[no_mangle] pub extern "C" fn prod_p4(a: &[f32; 4]) -> f32 { a.iter().copied().product::<f32>() }
#[no_mangle] pub extern "C" fn v2_i8_add(a: &[i8; 2], b: &[i8; 2], o: &mut [i8; 2]) { let v = Vector2d::<i8>::from([a[0], a[1]]) + Vector2d::<i8>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_sub(a: &[i8; 2], b: &[i8; 2], o: &mut [i8; 2]) { let v = Vector2d::<i8>::from([a[0], a[1]]) - Vector2d::<i8>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_adda(a: &[i8; 2], b: &[i8; 2], o: &mut [i8; 2]) { let mut v = Vector2d::<i8>::from([a[0], a[1]]); v += Vector2d::<i8>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_suba(a: &[i8; 2], b: &[i8; 2], o: &mut [i8; 2]) { let mut v = Vector2d::<i8>::from([a[0], a[1]]); v -= Vector2d::<i8>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_muls(a: &[i8; 2], k: i8, o: &mut [i8; 2]) { let v = Vector2d::<i8>::from([a[0], a[1]]) * k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_smul(a: &[i8; 2], k: i8, o: &mut [i8; 2]) { let v = k * Vector2d::<i8>::from([a[0], a[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_mulsa(a: &[i8; 2], k: i8, o: &mut [i8; 2]) { let mut v = Vector2d::<i8>::from([a[0], a[1]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_divs(a: &[i8; 2], k: i8, o: &mut [i8; 2]) { let v = Vector2d::<i8>::from([a[0], a[1]]) / k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_divsa(a: &[i8; 2], k: i8, o: &mut [i8; 2]) { let mut v = Vector2d::<i8>::from([a[0], a[1]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_dot(a: &[i8; 2], b: &[i8; 2]) -> i8 { Vector2d::<i8>::from([a[0], a[1]]).dot(Vector2d::<i8>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_i8_tdot(a: &[i8; 2], b: &[i8; 2]) -> i8 { Vector::dot(Vector2d::<i8>::from([a[0], a[1]]), Vector2d::<i8>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_i8_cross(a: &[i8; 2], b: &[i8; 2], o: &mut [i8; 3]) { let v = Vector2d::<i8>::from([a[0], a[1]]).cross(Vector2d::<i8>::from([b[0], b[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_i8_mulv(a: &[i8; 2], b: &[i8; 2], o: &mut [i8; 3]) { let v = Vector2d::<i8>::from([a[0], a[1]]) * Vector2d::<i8>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_i8_perp(a: &[i8; 2], b: &[i8; 2]) -> i8 { Vector2d::<i8>::from([a[0], a[1]]).perpendicular_dot(Vector2d::<i8>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v3_i8_from2(a: &[i8; 2], o: &mut [i8; 3]) { let v = Vector3d::<i8>::from(Vector2d::<i8>::from([a[0], a[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_i8_sum3(a: &[i8; 6], o: &mut [i8; 2]) { let s = [Vector2d::<i8>::from([a[0], a[1]]), Vector2d::<i8>::from([a[2], a[3]]), Vector2d::<i8>::from([a[4], a[5]])]; let v: Vector2d<i8> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_sumr3(a: &[i8; 6], o: &mut [i8; 2]) { let s = [Vector2d::<i8>::from([a[0], a[1]]), Vector2d::<i8>::from([a[2], a[3]]), Vector2d::<i8>::from([a[4], a[5]])]; let v: Vector2d<i8> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_sum0(o: &mut [i8; 2]) { let v: Vector2d<i8> = core::iter::empty::<Vector2d<i8>>().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_eq(a: &[i8; 2], b: &[i8; 2]) -> u8 { (Vector2d::<i8>::from([a[0], a[1]]) == Vector2d::<i8>::from([b[0], b[1]])) as u8 }
#[no_mangle] pub extern "C" fn v2_i8_index(a: &[i8; 2], i: usize) -> i8 { Vector2d::<i8>::from([a[0], a[1]])[i] }
#[no_mangle] pub extern "C" fn v2_i8_get(a: &[i8; 2], i: usize, o: &mut i8) -> u8 { match Vector2d::<i8>::from([a[0], a[1]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v2_i8_iter(a: &[i8; 2], o: &mut [i8; 4]) -> usize { let v = Vector2d::<i8>::from([a[0], a[1]]); let mut n = 0; for c in v.iter() { if n < 4 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v2_i8_iterfused(a: &[i8; 2]) -> u8 { let v = Vector2d::<i8>::from([a[0], a[1]]); let mut it = v.iter(); for _ in 0..2 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v2_i8_tuple(a: &[i8; 2], o: &mut [i8; 2]) { let v = Vector2d::<i8>::from((a[0], a[1])); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_i8_totuple(a: &[i8; 2], o: &mut [i8; 2]) { let (x, y): (i8, i8) = Vector2d::<i8>::from([a[0], a[1]]).into(); *o = [x, y] }
#[no_mangle] pub extern "C" fn v2_i8_fields(a: &[i8; 2], o: &mut [i8; 2]) { let v = Vector2d::<i8>::from([a[0], a[1]]); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_i8_toarr(a: &[i8; 2], o: &mut [i8; 2]) { let s: [i8; 2] = Vector2d::<i8>::from([a[0], a[1]]).into(); *o = [s[0], s[1]] }
#[no_mangle] pub extern "C" fn v2_i8_default(o: &mut [i8; 2]) { let v = Vector2d::<i8>::default(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_fromslice(a: &[i8; 5], n: usize, o: &mut [i8; 2]) { let n = if n > 5 { 5 } else { n }; let v = Vector2d::<i8>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_fromiter(a: &[i8; 5], n: usize, o: &mut [i8; 2]) { let n = if n > 5 { 5 } else { n }; let v: Vector2d<i8> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i8_magsq(a: &[i8; 2]) -> i8 { Vector2d::<i8>::from([a[0], a[1]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v2_i8_mag(a: &[i8; 2]) -> f32 { Vector2d::<i8>::from([a[0], a[1]]).magnitude() }
#[no_mangle] pub extern "C" fn v2_i8_dist(a: &[i8; 2], b: &[i8; 2]) -> f32 { Vector2d::<i8>::from([a[0], a[1]]).distance(Vector2d::<i8>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_i8_tof32(a: &[i8; 2], o: &mut [f32; 2]) { let v = F32x2::from(Vector2d::<i8>::from([a[0], a[1]])); *o = v.to_array() }
#[no_mangle] pub extern "C" fn v3_i8_add(a: &[i8; 3], b: &[i8; 3], o: &mut [i8; 3]) { let v = Vector3d::<i8>::from([a[0], a[1], a[2]]) + Vector3d::<i8>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_sub(a: &[i8; 3], b: &[i8; 3], o: &mut [i8; 3]) { let v = Vector3d::<i8>::from([a[0], a[1], a[2]]) - Vector3d::<i8>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_adda(a: &[i8; 3], b: &[i8; 3], o: &mut [i8; 3]) { let mut v = Vector3d::<i8>::from([a[0], a[1], a[2]]); v += Vector3d::<i8>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_suba(a: &[i8; 3], b: &[i8; 3], o: &mut [i8; 3]) { let mut v = Vector3d::<i8>::from([a[0], a[1], a[2]]); v -= Vector3d::<i8>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_muls(a: &[i8; 3], k: i8, o: &mut [i8; 3]) { let v = Vector3d::<i8>::from([a[0], a[1], a[2]]) * k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_smul(a: &[i8; 3], k: i8, o: &mut [i8; 3]) { let v = k * Vector3d::<i8>::from([a[0], a[1], a[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_mulsa(a: &[i8; 3], k: i8, o: &mut [i8; 3]) { let mut v = Vector3d::<i8>::from([a[0], a[1], a[2]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_divs(a: &[i8; 3], k: i8, o: &mut [i8; 3]) { let v = Vector3d::<i8>::from([a[0], a[1], a[2]]) / k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_divsa(a: &[i8; 3], k: i8, o: &mut [i8; 3]) { let mut v = Vector3d::<i8>::from([a[0], a[1], a[2]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_dot(a: &[i8; 3], b: &[i8; 3]) -> i8 { Vector3d::<i8>::from([a[0], a[1], a[2]]).dot(Vector3d::<i8>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_i8_tdot(a: &[i8; 3], b: &[i8; 3]) -> i8 { Vector::dot(Vector3d::<i8>::from([a[0], a[1], a[2]]), Vector3d::<i8>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_i8_cross(a: &[i8; 3], b: &[i8; 3], o: &mut [i8; 3]) { let v = Vector3d::<i8>::from([a[0], a[1], a[2]]).cross(Vector3d::<i8>::from([b[0], b[1], b[2]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_mulv(a: &[i8; 3], b: &[i8; 3], o: &mut [i8; 3]) { let v = Vector3d::<i8>::from([a[0], a[1], a[2]]) * Vector3d::<i8>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_sum3(a: &[i8; 9], o: &mut [i8; 3]) { let s = [Vector3d::<i8>::from([a[0], a[1], a[2]]), Vector3d::<i8>::from([a[3], a[4], a[5]]), Vector3d::<i8>::from([a[6], a[7], a[8]])]; let v: Vector3d<i8> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_sumr3(a: &[i8; 9], o: &mut [i8; 3]) { let s = [Vector3d::<i8>::from([a[0], a[1], a[2]]), Vector3d::<i8>::from([a[3], a[4], a[5]]), Vector3d::<i8>::from([a[6], a[7], a[8]])]; let v: Vector3d<i8> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_sum0(o: &mut [i8; 3]) { let v: Vector3d<i8> = core::iter::empty::<Vector3d<i8>>().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_eq(a: &[i8; 3], b: &[i8; 3]) -> u8 { (Vector3d::<i8>::from([a[0], a[1], a[2]]) == Vector3d::<i8>::from([b[0], b[1], b[2]])) as u8 }
#[no_mangle] pub extern "C" fn v3_i8_index(a: &[i8; 3], i: usize) -> i8 { Vector3d::<i8>::from([a[0], a[1], a[2]])[i] }
#[no_mangle] pub extern "C" fn v3_i8_get(a: &[i8; 3], i: usize, o: &mut i8) -> u8 { match Vector3d::<i8>::from([a[0], a[1], a[2]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v3_i8_iter(a: &[i8; 3], o: &mut [i8; 5]) -> usize { let v = Vector3d::<i8>::from([a[0], a[1], a[2]]); let mut n = 0; for c in v.iter() { if n < 5 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v3_i8_iterfused(a: &[i8; 3]) -> u8 { let v = Vector3d::<i8>::from([a[0], a[1], a[2]]); let mut it = v.iter(); for _ in 0..3 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v3_i8_tuple(a: &[i8; 3], o: &mut [i8; 3]) { let v = Vector3d::<i8>::from((a[0], a[1], a[2])); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_i8_totuple(a: &[i8; 3], o: &mut [i8; 3]) { let (x, y, z): (i8, i8, i8) = Vector3d::<i8>::from([a[0], a[1], a[2]]).into(); *o = [x, y, z] }
#[no_mangle] pub extern "C" fn v3_i8_fields(a: &[i8; 3], o: &mut [i8; 3]) { let v = Vector3d::<i8>::from([a[0], a[1], a[2]]); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_i8_toarr(a: &[i8; 3], o: &mut [i8; 3]) { let s: [i8; 3] = Vector3d::<i8>::from([a[0], a[1], a[2]]).into(); *o = [s[0], s[1], s[2]] }
#[no_mangle] pub extern "C" fn v3_i8_default(o: &mut [i8; 3]) { let v = Vector3d::<i8>::default(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_fromslice(a: &[i8; 6], n: usize, o: &mut [i8; 3]) { let n = if n > 6 { 6 } else { n }; let v = Vector3d::<i8>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_fromiter(a: &[i8; 6], n: usize, o: &mut [i8; 3]) { let n = if n > 6 { 6 } else { n }; let v: Vector3d<i8> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i8_magsq(a: &[i8; 3]) -> i8 { Vector3d::<i8>::from([a[0], a[1], a[2]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v3_i8_mag(a: &[i8; 3]) -> f32 { Vector3d::<i8>::from([a[0], a[1], a[2]]).magnitude() }
#[no_mangle] pub extern "C" fn v3_i8_dist(a: &[i8; 3], b: &[i8; 3]) -> f32 { Vector3d::<i8>::from([a[0], a[1], a[2]]).distance(Vector3d::<i8>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_i8_tof32(a: &[i8; 3], o: &mut [f32; 3]) { let v = F32x3::from(Vector3d::<i8>::from([a[0], a[1], a[2]])); *o = v.to_array() }
#[no_mangle] pub extern "C" fn v2_i16_add(a: &[i16; 2], b: &[i16; 2], o: &mut [i16; 2]) { let v = Vector2d::<i16>::from([a[0], a[1]]) + Vector2d::<i16>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_sub(a: &[i16; 2], b: &[i16; 2], o: &mut [i16; 2]) { let v = Vector2d::<i16>::from([a[0], a[1]]) - Vector2d::<i16>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_adda(a: &[i16; 2], b: &[i16; 2], o: &mut [i16; 2]) { let mut v = Vector2d::<i16>::from([a[0], a[1]]); v += Vector2d::<i16>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_suba(a: &[i16; 2], b: &[i16; 2], o: &mut [i16; 2]) { let mut v = Vector2d::<i16>::from([a[0], a[1]]); v -= Vector2d::<i16>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_muls(a: &[i16; 2], k: i16, o: &mut [i16; 2]) { let v = Vector2d::<i16>::from([a[0], a[1]]) * k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_smul(a: &[i16; 2], k: i16, o: &mut [i16; 2]) { let v = k * Vector2d::<i16>::from([a[0], a[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_mulsa(a: &[i16; 2], k: i16, o: &mut [i16; 2]) { let mut v = Vector2d::<i16>::from([a[0], a[1]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_divs(a: &[i16; 2], k: i16, o: &mut [i16; 2]) { let v = Vector2d::<i16>::from([a[0], a[1]]) / k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_divsa(a: &[i16; 2], k: i16, o: &mut [i16; 2]) { let mut v = Vector2d::<i16>::from([a[0], a[1]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_dot(a: &[i16; 2], b: &[i16; 2]) -> i16 { Vector2d::<i16>::from([a[0], a[1]]).dot(Vector2d::<i16>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_i16_tdot(a: &[i16; 2], b: &[i16; 2]) -> i16 { Vector::dot(Vector2d::<i16>::from([a[0], a[1]]), Vector2d::<i16>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_i16_cross(a: &[i16; 2], b: &[i16; 2], o: &mut [i16; 3]) { let v = Vector2d::<i16>::from([a[0], a[1]]).cross(Vector2d::<i16>::from([b[0], b[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_i16_mulv(a: &[i16; 2], b: &[i16; 2], o: &mut [i16; 3]) { let v = Vector2d::<i16>::from([a[0], a[1]]) * Vector2d::<i16>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_i16_perp(a: &[i16; 2], b: &[i16; 2]) -> i16 { Vector2d::<i16>::from([a[0], a[1]]).perpendicular_dot(Vector2d::<i16>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v3_i16_from2(a: &[i16; 2], o: &mut [i16; 3]) { let v = Vector3d::<i16>::from(Vector2d::<i16>::from([a[0], a[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_i16_sum3(a: &[i16; 6], o: &mut [i16; 2]) { let s = [Vector2d::<i16>::from([a[0], a[1]]), Vector2d::<i16>::from([a[2], a[3]]), Vector2d::<i16>::from([a[4], a[5]])]; let v: Vector2d<i16> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_sumr3(a: &[i16; 6], o: &mut [i16; 2]) { let s = [Vector2d::<i16>::from([a[0], a[1]]), Vector2d::<i16>::from([a[2], a[3]]), Vector2d::<i16>::from([a[4], a[5]])]; let v: Vector2d<i16> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_sum0(o: &mut [i16; 2]) { let v: Vector2d<i16> = core::iter::empty::<Vector2d<i16>>().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_eq(a: &[i16; 2], b: &[i16; 2]) -> u8 { (Vector2d::<i16>::from([a[0], a[1]]) == Vector2d::<i16>::from([b[0], b[1]])) as u8 }
#[no_mangle] pub extern "C" fn v2_i16_index(a: &[i16; 2], i: usize) -> i16 { Vector2d::<i16>::from([a[0], a[1]])[i] }
#[no_mangle] pub extern "C" fn v2_i16_get(a: &[i16; 2], i: usize, o: &mut i16) -> u8 { match Vector2d::<i16>::from([a[0], a[1]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v2_i16_iter(a: &[i16; 2], o: &mut [i16; 4]) -> usize { let v = Vector2d::<i16>::from([a[0], a[1]]); let mut n = 0; for c in v.iter() { if n < 4 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v2_i16_iterfused(a: &[i16; 2]) -> u8 { let v = Vector2d::<i16>::from([a[0], a[1]]); let mut it = v.iter(); for _ in 0..2 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v2_i16_tuple(a: &[i16; 2], o: &mut [i16; 2]) { let v = Vector2d::<i16>::from((a[0], a[1])); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_i16_totuple(a: &[i16; 2], o: &mut [i16; 2]) { let (x, y): (i16, i16) = Vector2d::<i16>::from([a[0], a[1]]).into(); *o = [x, y] }
#[no_mangle] pub extern "C" fn v2_i16_fields(a: &[i16; 2], o: &mut [i16; 2]) { let v = Vector2d::<i16>::from([a[0], a[1]]); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_i16_toarr(a: &[i16; 2], o: &mut [i16; 2]) { let s: [i16; 2] = Vector2d::<i16>::from([a[0], a[1]]).into(); *o = [s[0], s[1]] }
#[no_mangle] pub extern "C" fn v2_i16_default(o: &mut [i16; 2]) { let v = Vector2d::<i16>::default(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_fromslice(a: &[i16; 5], n: usize, o: &mut [i16; 2]) { let n = if n > 5 { 5 } else { n }; let v = Vector2d::<i16>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_fromiter(a: &[i16; 5], n: usize, o: &mut [i16; 2]) { let n = if n > 5 { 5 } else { n }; let v: Vector2d<i16> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i16_magsq(a: &[i16; 2]) -> i16 { Vector2d::<i16>::from([a[0], a[1]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v2_i16_mag(a: &[i16; 2]) -> f32 { Vector2d::<i16>::from([a[0], a[1]]).magnitude() }
#[no_mangle] pub extern "C" fn v2_i16_dist(a: &[i16; 2], b: &[i16; 2]) -> f32 { Vector2d::<i16>::from([a[0], a[1]]).distance(Vector2d::<i16>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_i16_tof32(a: &[i16; 2], o: &mut [f32; 2]) { let v = F32x2::from(Vector2d::<i16>::from([a[0], a[1]])); *o = v.to_array() }
#[no_mangle] pub extern "C" fn v3_i16_add(a: &[i16; 3], b: &[i16; 3], o: &mut [i16; 3]) { let v = Vector3d::<i16>::from([a[0], a[1], a[2]]) + Vector3d::<i16>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_sub(a: &[i16; 3], b: &[i16; 3], o: &mut [i16; 3]) { let v = Vector3d::<i16>::from([a[0], a[1], a[2]]) - Vector3d::<i16>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_adda(a: &[i16; 3], b: &[i16; 3], o: &mut [i16; 3]) { let mut v = Vector3d::<i16>::from([a[0], a[1], a[2]]); v += Vector3d::<i16>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_suba(a: &[i16; 3], b: &[i16; 3], o: &mut [i16; 3]) { let mut v = Vector3d::<i16>::from([a[0], a[1], a[2]]); v -= Vector3d::<i16>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_muls(a: &[i16; 3], k: i16, o: &mut [i16; 3]) { let v = Vector3d::<i16>::from([a[0], a[1], a[2]]) * k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_smul(a: &[i16; 3], k: i16, o: &mut [i16; 3]) { let v = k * Vector3d::<i16>::from([a[0], a[1], a[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_mulsa(a: &[i16; 3], k: i16, o: &mut [i16; 3]) { let mut v = Vector3d::<i16>::from([a[0], a[1], a[2]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_divs(a: &[i16; 3], k: i16, o: &mut [i16; 3]) { let v = Vector3d::<i16>::from([a[0], a[1], a[2]]) / k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_divsa(a: &[i16; 3], k: i16, o: &mut [i16; 3]) { let mut v = Vector3d::<i16>::from([a[0], a[1], a[2]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_dot(a: &[i16; 3], b: &[i16; 3]) -> i16 { Vector3d::<i16>::from([a[0], a[1], a[2]]).dot(Vector3d::<i16>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_i16_tdot(a: &[i16; 3], b: &[i16; 3]) -> i16 { Vector::dot(Vector3d::<i16>::from([a[0], a[1], a[2]]), Vector3d::<i16>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_i16_cross(a: &[i16; 3], b: &[i16; 3], o: &mut [i16; 3]) { let v = Vector3d::<i16>::from([a[0], a[1], a[2]]).cross(Vector3d::<i16>::from([b[0], b[1], b[2]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_mulv(a: &[i16; 3], b: &[i16; 3], o: &mut [i16; 3]) { let v = Vector3d::<i16>::from([a[0], a[1], a[2]]) * Vector3d::<i16>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_sum3(a: &[i16; 9], o: &mut [i16; 3]) { let s = [Vector3d::<i16>::from([a[0], a[1], a[2]]), Vector3d::<i16>::from([a[3], a[4], a[5]]), Vector3d::<i16>::from([a[6], a[7], a[8]])]; let v: Vector3d<i16> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_sumr3(a: &[i16; 9], o: &mut [i16; 3]) { let s = [Vector3d::<i16>::from([a[0], a[1], a[2]]), Vector3d::<i16>::from([a[3], a[4], a[5]]), Vector3d::<i16>::from([a[6], a[7], a[8]])]; let v: Vector3d<i16> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_sum0(o: &mut [i16; 3]) { let v: Vector3d<i16> = core::iter::empty::<Vector3d<i16>>().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_eq(a: &[i16; 3], b: &[i16; 3]) -> u8 { (Vector3d::<i16>::from([a[0], a[1], a[2]]) == Vector3d::<i16>::from([b[0], b[1], b[2]])) as u8 }
#[no_mangle] pub extern "C" fn v3_i16_index(a: &[i16; 3], i: usize) -> i16 { Vector3d::<i16>::from([a[0], a[1], a[2]])[i] }
#[no_mangle] pub extern "C" fn v3_i16_get(a: &[i16; 3], i: usize, o: &mut i16) -> u8 { match Vector3d::<i16>::from([a[0], a[1], a[2]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v3_i16_iter(a: &[i16; 3], o: &mut [i16; 5]) -> usize { let v = Vector3d::<i16>::from([a[0], a[1], a[2]]); let mut n = 0; for c in v.iter() { if n < 5 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v3_i16_iterfused(a: &[i16; 3]) -> u8 { let v = Vector3d::<i16>::from([a[0], a[1], a[2]]); let mut it = v.iter(); for _ in 0..3 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v3_i16_tuple(a: &[i16; 3], o: &mut [i16; 3]) { let v = Vector3d::<i16>::from((a[0], a[1], a[2])); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_i16_totuple(a: &[i16; 3], o: &mut [i16; 3]) { let (x, y, z): (i16, i16, i16) = Vector3d::<i16>::from([a[0], a[1], a[2]]).into(); *o = [x, y, z] }
#[no_mangle] pub extern "C" fn v3_i16_fields(a: &[i16; 3], o: &mut [i16; 3]) { let v = Vector3d::<i16>::from([a[0], a[1], a[2]]); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_i16_toarr(a: &[i16; 3], o: &mut [i16; 3]) { let s: [i16; 3] = Vector3d::<i16>::from([a[0], a[1], a[2]]).into(); *o = [s[0], s[1], s[2]] }
#[no_mangle] pub extern "C" fn v3_i16_default(o: &mut [i16; 3]) { let v = Vector3d::<i16>::default(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_fromslice(a: &[i16; 6], n: usize, o: &mut [i16; 3]) { let n = if n > 6 { 6 } else { n }; let v = Vector3d::<i16>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_fromiter(a: &[i16; 6], n: usize, o: &mut [i16; 3]) { let n = if n > 6 { 6 } else { n }; let v: Vector3d<i16> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i16_magsq(a: &[i16; 3]) -> i16 { Vector3d::<i16>::from([a[0], a[1], a[2]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v3_i16_mag(a: &[i16; 3]) -> f32 { Vector3d::<i16>::from([a[0], a[1], a[2]]).magnitude() }
#[no_mangle] pub extern "C" fn v3_i16_dist(a: &[i16; 3], b: &[i16; 3]) -> f32 { Vector3d::<i16>::from([a[0], a[1], a[2]]).distance(Vector3d::<i16>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_i16_tof32(a: &[i16; 3], o: &mut [f32; 3]) { let v = F32x3::from(Vector3d::<i16>::from([a[0], a[1], a[2]])); *o = v.to_array() }
#[no_mangle] pub extern "C" fn v2_i32_add(a: &[i32; 2], b: &[i32; 2], o: &mut [i32; 2]) { let v = Vector2d::<i32>::from([a[0], a[1]]) + Vector2d::<i32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_sub(a: &[i32; 2], b: &[i32; 2], o: &mut [i32; 2]) { let v = Vector2d::<i32>::from([a[0], a[1]]) - Vector2d::<i32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_adda(a: &[i32; 2], b: &[i32; 2], o: &mut [i32; 2]) { let mut v = Vector2d::<i32>::from([a[0], a[1]]); v += Vector2d::<i32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_suba(a: &[i32; 2], b: &[i32; 2], o: &mut [i32; 2]) { let mut v = Vector2d::<i32>::from([a[0], a[1]]); v -= Vector2d::<i32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_muls(a: &[i32; 2], k: i32, o: &mut [i32; 2]) { let v = Vector2d::<i32>::from([a[0], a[1]]) * k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_smul(a: &[i32; 2], k: i32, o: &mut [i32; 2]) { let v = k * Vector2d::<i32>::from([a[0], a[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_mulsa(a: &[i32; 2], k: i32, o: &mut [i32; 2]) { let mut v = Vector2d::<i32>::from([a[0], a[1]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_divs(a: &[i32; 2], k: i32, o: &mut [i32; 2]) { let v = Vector2d::<i32>::from([a[0], a[1]]) / k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_divsa(a: &[i32; 2], k: i32, o: &mut [i32; 2]) { let mut v = Vector2d::<i32>::from([a[0], a[1]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_dot(a: &[i32; 2], b: &[i32; 2]) -> i32 { Vector2d::<i32>::from([a[0], a[1]]).dot(Vector2d::<i32>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_i32_tdot(a: &[i32; 2], b: &[i32; 2]) -> i32 { Vector::dot(Vector2d::<i32>::from([a[0], a[1]]), Vector2d::<i32>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_i32_cross(a: &[i32; 2], b: &[i32; 2], o: &mut [i32; 3]) { let v = Vector2d::<i32>::from([a[0], a[1]]).cross(Vector2d::<i32>::from([b[0], b[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_i32_mulv(a: &[i32; 2], b: &[i32; 2], o: &mut [i32; 3]) { let v = Vector2d::<i32>::from([a[0], a[1]]) * Vector2d::<i32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_i32_perp(a: &[i32; 2], b: &[i32; 2]) -> i32 { Vector2d::<i32>::from([a[0], a[1]]).perpendicular_dot(Vector2d::<i32>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v3_i32_from2(a: &[i32; 2], o: &mut [i32; 3]) { let v = Vector3d::<i32>::from(Vector2d::<i32>::from([a[0], a[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_i32_sum3(a: &[i32; 6], o: &mut [i32; 2]) { let s = [Vector2d::<i32>::from([a[0], a[1]]), Vector2d::<i32>::from([a[2], a[3]]), Vector2d::<i32>::from([a[4], a[5]])]; let v: Vector2d<i32> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_sumr3(a: &[i32; 6], o: &mut [i32; 2]) { let s = [Vector2d::<i32>::from([a[0], a[1]]), Vector2d::<i32>::from([a[2], a[3]]), Vector2d::<i32>::from([a[4], a[5]])]; let v: Vector2d<i32> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_sum0(o: &mut [i32; 2]) { let v: Vector2d<i32> = core::iter::empty::<Vector2d<i32>>().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_eq(a: &[i32; 2], b: &[i32; 2]) -> u8 { (Vector2d::<i32>::from([a[0], a[1]]) == Vector2d::<i32>::from([b[0], b[1]])) as u8 }
#[no_mangle] pub extern "C" fn v2_i32_index(a: &[i32; 2], i: usize) -> i32 { Vector2d::<i32>::from([a[0], a[1]])[i] }
#[no_mangle] pub extern "C" fn v2_i32_get(a: &[i32; 2], i: usize, o: &mut i32) -> u8 { match Vector2d::<i32>::from([a[0], a[1]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v2_i32_iter(a: &[i32; 2], o: &mut [i32; 4]) -> usize { let v = Vector2d::<i32>::from([a[0], a[1]]); let mut n = 0; for c in v.iter() { if n < 4 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v2_i32_iterfused(a: &[i32; 2]) -> u8 { let v = Vector2d::<i32>::from([a[0], a[1]]); let mut it = v.iter(); for _ in 0..2 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v2_i32_tuple(a: &[i32; 2], o: &mut [i32; 2]) { let v = Vector2d::<i32>::from((a[0], a[1])); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_i32_totuple(a: &[i32; 2], o: &mut [i32; 2]) { let (x, y): (i32, i32) = Vector2d::<i32>::from([a[0], a[1]]).into(); *o = [x, y] }
#[no_mangle] pub extern "C" fn v2_i32_fields(a: &[i32; 2], o: &mut [i32; 2]) { let v = Vector2d::<i32>::from([a[0], a[1]]); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_i32_toarr(a: &[i32; 2], o: &mut [i32; 2]) { let s: [i32; 2] = Vector2d::<i32>::from([a[0], a[1]]).into(); *o = [s[0], s[1]] }
#[no_mangle] pub extern "C" fn v2_i32_default(o: &mut [i32; 2]) { let v = Vector2d::<i32>::default(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_fromslice(a: &[i32; 5], n: usize, o: &mut [i32; 2]) { let n = if n > 5 { 5 } else { n }; let v = Vector2d::<i32>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_fromiter(a: &[i32; 5], n: usize, o: &mut [i32; 2]) { let n = if n > 5 { 5 } else { n }; let v: Vector2d<i32> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_i32_magsq(a: &[i32; 2]) -> i32 { Vector2d::<i32>::from([a[0], a[1]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v3_i32_add(a: &[i32; 3], b: &[i32; 3], o: &mut [i32; 3]) { let v = Vector3d::<i32>::from([a[0], a[1], a[2]]) + Vector3d::<i32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_sub(a: &[i32; 3], b: &[i32; 3], o: &mut [i32; 3]) { let v = Vector3d::<i32>::from([a[0], a[1], a[2]]) - Vector3d::<i32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_adda(a: &[i32; 3], b: &[i32; 3], o: &mut [i32; 3]) { let mut v = Vector3d::<i32>::from([a[0], a[1], a[2]]); v += Vector3d::<i32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_suba(a: &[i32; 3], b: &[i32; 3], o: &mut [i32; 3]) { let mut v = Vector3d::<i32>::from([a[0], a[1], a[2]]); v -= Vector3d::<i32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_muls(a: &[i32; 3], k: i32, o: &mut [i32; 3]) { let v = Vector3d::<i32>::from([a[0], a[1], a[2]]) * k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_smul(a: &[i32; 3], k: i32, o: &mut [i32; 3]) { let v = k * Vector3d::<i32>::from([a[0], a[1], a[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_mulsa(a: &[i32; 3], k: i32, o: &mut [i32; 3]) { let mut v = Vector3d::<i32>::from([a[0], a[1], a[2]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_divs(a: &[i32; 3], k: i32, o: &mut [i32; 3]) { let v = Vector3d::<i32>::from([a[0], a[1], a[2]]) / k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_divsa(a: &[i32; 3], k: i32, o: &mut [i32; 3]) { let mut v = Vector3d::<i32>::from([a[0], a[1], a[2]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_dot(a: &[i32; 3], b: &[i32; 3]) -> i32 { Vector3d::<i32>::from([a[0], a[1], a[2]]).dot(Vector3d::<i32>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_i32_tdot(a: &[i32; 3], b: &[i32; 3]) -> i32 { Vector::dot(Vector3d::<i32>::from([a[0], a[1], a[2]]), Vector3d::<i32>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_i32_cross(a: &[i32; 3], b: &[i32; 3], o: &mut [i32; 3]) { let v = Vector3d::<i32>::from([a[0], a[1], a[2]]).cross(Vector3d::<i32>::from([b[0], b[1], b[2]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_mulv(a: &[i32; 3], b: &[i32; 3], o: &mut [i32; 3]) { let v = Vector3d::<i32>::from([a[0], a[1], a[2]]) * Vector3d::<i32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_sum3(a: &[i32; 9], o: &mut [i32; 3]) { let s = [Vector3d::<i32>::from([a[0], a[1], a[2]]), Vector3d::<i32>::from([a[3], a[4], a[5]]), Vector3d::<i32>::from([a[6], a[7], a[8]])]; let v: Vector3d<i32> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_sumr3(a: &[i32; 9], o: &mut [i32; 3]) { let s = [Vector3d::<i32>::from([a[0], a[1], a[2]]), Vector3d::<i32>::from([a[3], a[4], a[5]]), Vector3d::<i32>::from([a[6], a[7], a[8]])]; let v: Vector3d<i32> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_sum0(o: &mut [i32; 3]) { let v: Vector3d<i32> = core::iter::empty::<Vector3d<i32>>().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_eq(a: &[i32; 3], b: &[i32; 3]) -> u8 { (Vector3d::<i32>::from([a[0], a[1], a[2]]) == Vector3d::<i32>::from([b[0], b[1], b[2]])) as u8 }
#[no_mangle] pub extern "C" fn v3_i32_index(a: &[i32; 3], i: usize) -> i32 { Vector3d::<i32>::from([a[0], a[1], a[2]])[i] }
#[no_mangle] pub extern "C" fn v3_i32_get(a: &[i32; 3], i: usize, o: &mut i32) -> u8 { match Vector3d::<i32>::from([a[0], a[1], a[2]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v3_i32_iter(a: &[i32; 3], o: &mut [i32; 5]) -> usize { let v = Vector3d::<i32>::from([a[0], a[1], a[2]]); let mut n = 0; for c in v.iter() { if n < 5 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v3_i32_iterfused(a: &[i32; 3]) -> u8 { let v = Vector3d::<i32>::from([a[0], a[1], a[2]]); let mut it = v.iter(); for _ in 0..3 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v3_i32_tuple(a: &[i32; 3], o: &mut [i32; 3]) { let v = Vector3d::<i32>::from((a[0], a[1], a[2])); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_i32_totuple(a: &[i32; 3], o: &mut [i32; 3]) { let (x, y, z): (i32, i32, i32) = Vector3d::<i32>::from([a[0], a[1], a[2]]).into(); *o = [x, y, z] }
#[no_mangle] pub extern "C" fn v3_i32_fields(a: &[i32; 3], o: &mut [i32; 3]) { let v = Vector3d::<i32>::from([a[0], a[1], a[2]]); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_i32_toarr(a: &[i32; 3], o: &mut [i32; 3]) { let s: [i32; 3] = Vector3d::<i32>::from([a[0], a[1], a[2]]).into(); *o = [s[0], s[1], s[2]] }
#[no_mangle] pub extern "C" fn v3_i32_default(o: &mut [i32; 3]) { let v = Vector3d::<i32>::default(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_fromslice(a: &[i32; 6], n: usize, o: &mut [i32; 3]) { let n = if n > 6 { 6 } else { n }; let v = Vector3d::<i32>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_fromiter(a: &[i32; 6], n: usize, o: &mut [i32; 3]) { let n = if n > 6 { 6 } else { n }; let v: Vector3d<i32> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_i32_magsq(a: &[i32; 3]) -> i32 { Vector3d::<i32>::from([a[0], a[1], a[2]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v2_u8_add(a: &[u8; 2], b: &[u8; 2], o: &mut [u8; 2]) { let v = Vector2d::<u8>::from([a[0], a[1]]) + Vector2d::<u8>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_sub(a: &[u8; 2], b: &[u8; 2], o: &mut [u8; 2]) { let v = Vector2d::<u8>::from([a[0], a[1]]) - Vector2d::<u8>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_adda(a: &[u8; 2], b: &[u8; 2], o: &mut [u8; 2]) { let mut v = Vector2d::<u8>::from([a[0], a[1]]); v += Vector2d::<u8>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_suba(a: &[u8; 2], b: &[u8; 2], o: &mut [u8; 2]) { let mut v = Vector2d::<u8>::from([a[0], a[1]]); v -= Vector2d::<u8>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_muls(a: &[u8; 2], k: u8, o: &mut [u8; 2]) { let v = Vector2d::<u8>::from([a[0], a[1]]) * k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_smul(a: &[u8; 2], k: u8, o: &mut [u8; 2]) { let v = k * Vector2d::<u8>::from([a[0], a[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_mulsa(a: &[u8; 2], k: u8, o: &mut [u8; 2]) { let mut v = Vector2d::<u8>::from([a[0], a[1]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_divs(a: &[u8; 2], k: u8, o: &mut [u8; 2]) { let v = Vector2d::<u8>::from([a[0], a[1]]) / k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_divsa(a: &[u8; 2], k: u8, o: &mut [u8; 2]) { let mut v = Vector2d::<u8>::from([a[0], a[1]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_dot(a: &[u8; 2], b: &[u8; 2]) -> u8 { Vector2d::<u8>::from([a[0], a[1]]).dot(Vector2d::<u8>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_u8_tdot(a: &[u8; 2], b: &[u8; 2]) -> u8 { Vector::dot(Vector2d::<u8>::from([a[0], a[1]]), Vector2d::<u8>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_u8_cross(a: &[u8; 2], b: &[u8; 2], o: &mut [u8; 3]) { let v = Vector2d::<u8>::from([a[0], a[1]]).cross(Vector2d::<u8>::from([b[0], b[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_u8_mulv(a: &[u8; 2], b: &[u8; 2], o: &mut [u8; 3]) { let v = Vector2d::<u8>::from([a[0], a[1]]) * Vector2d::<u8>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_u8_perp(a: &[u8; 2], b: &[u8; 2]) -> u8 { Vector2d::<u8>::from([a[0], a[1]]).perpendicular_dot(Vector2d::<u8>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v3_u8_from2(a: &[u8; 2], o: &mut [u8; 3]) { let v = Vector3d::<u8>::from(Vector2d::<u8>::from([a[0], a[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_u8_sum3(a: &[u8; 6], o: &mut [u8; 2]) { let s = [Vector2d::<u8>::from([a[0], a[1]]), Vector2d::<u8>::from([a[2], a[3]]), Vector2d::<u8>::from([a[4], a[5]])]; let v: Vector2d<u8> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_sumr3(a: &[u8; 6], o: &mut [u8; 2]) { let s = [Vector2d::<u8>::from([a[0], a[1]]), Vector2d::<u8>::from([a[2], a[3]]), Vector2d::<u8>::from([a[4], a[5]])]; let v: Vector2d<u8> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_sum0(o: &mut [u8; 2]) { let v: Vector2d<u8> = core::iter::empty::<Vector2d<u8>>().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_eq(a: &[u8; 2], b: &[u8; 2]) -> u8 { (Vector2d::<u8>::from([a[0], a[1]]) == Vector2d::<u8>::from([b[0], b[1]])) as u8 }
#[no_mangle] pub extern "C" fn v2_u8_index(a: &[u8; 2], i: usize) -> u8 { Vector2d::<u8>::from([a[0], a[1]])[i] }
#[no_mangle] pub extern "C" fn v2_u8_get(a: &[u8; 2], i: usize, o: &mut u8) -> u8 { match Vector2d::<u8>::from([a[0], a[1]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v2_u8_iter(a: &[u8; 2], o: &mut [u8; 4]) -> usize { let v = Vector2d::<u8>::from([a[0], a[1]]); let mut n = 0; for c in v.iter() { if n < 4 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v2_u8_iterfused(a: &[u8; 2]) -> u8 { let v = Vector2d::<u8>::from([a[0], a[1]]); let mut it = v.iter(); for _ in 0..2 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v2_u8_tuple(a: &[u8; 2], o: &mut [u8; 2]) { let v = Vector2d::<u8>::from((a[0], a[1])); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_u8_totuple(a: &[u8; 2], o: &mut [u8; 2]) { let (x, y): (u8, u8) = Vector2d::<u8>::from([a[0], a[1]]).into(); *o = [x, y] }
#[no_mangle] pub extern "C" fn v2_u8_fields(a: &[u8; 2], o: &mut [u8; 2]) { let v = Vector2d::<u8>::from([a[0], a[1]]); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_u8_toarr(a: &[u8; 2], o: &mut [u8; 2]) { let s: [u8; 2] = Vector2d::<u8>::from([a[0], a[1]]).into(); *o = [s[0], s[1]] }
#[no_mangle] pub extern "C" fn v2_u8_default(o: &mut [u8; 2]) { let v = Vector2d::<u8>::default(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_fromslice(a: &[u8; 5], n: usize, o: &mut [u8; 2]) { let n = if n > 5 { 5 } else { n }; let v = Vector2d::<u8>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_fromiter(a: &[u8; 5], n: usize, o: &mut [u8; 2]) { let n = if n > 5 { 5 } else { n }; let v: Vector2d<u8> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u8_magsq(a: &[u8; 2]) -> u8 { Vector2d::<u8>::from([a[0], a[1]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v2_u8_mag(a: &[u8; 2]) -> f32 { Vector2d::<u8>::from([a[0], a[1]]).magnitude() }
#[no_mangle] pub extern "C" fn v2_u8_dist(a: &[u8; 2], b: &[u8; 2]) -> f32 { Vector2d::<u8>::from([a[0], a[1]]).distance(Vector2d::<u8>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_u8_tof32(a: &[u8; 2], o: &mut [f32; 2]) { let v = F32x2::from(Vector2d::<u8>::from([a[0], a[1]])); *o = v.to_array() }
#[no_mangle] pub extern "C" fn v3_u8_add(a: &[u8; 3], b: &[u8; 3], o: &mut [u8; 3]) { let v = Vector3d::<u8>::from([a[0], a[1], a[2]]) + Vector3d::<u8>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_sub(a: &[u8; 3], b: &[u8; 3], o: &mut [u8; 3]) { let v = Vector3d::<u8>::from([a[0], a[1], a[2]]) - Vector3d::<u8>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_adda(a: &[u8; 3], b: &[u8; 3], o: &mut [u8; 3]) { let mut v = Vector3d::<u8>::from([a[0], a[1], a[2]]); v += Vector3d::<u8>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_suba(a: &[u8; 3], b: &[u8; 3], o: &mut [u8; 3]) { let mut v = Vector3d::<u8>::from([a[0], a[1], a[2]]); v -= Vector3d::<u8>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_muls(a: &[u8; 3], k: u8, o: &mut [u8; 3]) { let v = Vector3d::<u8>::from([a[0], a[1], a[2]]) * k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_smul(a: &[u8; 3], k: u8, o: &mut [u8; 3]) { let v = k * Vector3d::<u8>::from([a[0], a[1], a[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_mulsa(a: &[u8; 3], k: u8, o: &mut [u8; 3]) { let mut v = Vector3d::<u8>::from([a[0], a[1], a[2]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_divs(a: &[u8; 3], k: u8, o: &mut [u8; 3]) { let v = Vector3d::<u8>::from([a[0], a[1], a[2]]) / k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_divsa(a: &[u8; 3], k: u8, o: &mut [u8; 3]) { let mut v = Vector3d::<u8>::from([a[0], a[1], a[2]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_dot(a: &[u8; 3], b: &[u8; 3]) -> u8 { Vector3d::<u8>::from([a[0], a[1], a[2]]).dot(Vector3d::<u8>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_u8_tdot(a: &[u8; 3], b: &[u8; 3]) -> u8 { Vector::dot(Vector3d::<u8>::from([a[0], a[1], a[2]]), Vector3d::<u8>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_u8_cross(a: &[u8; 3], b: &[u8; 3], o: &mut [u8; 3]) { let v = Vector3d::<u8>::from([a[0], a[1], a[2]]).cross(Vector3d::<u8>::from([b[0], b[1], b[2]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_mulv(a: &[u8; 3], b: &[u8; 3], o: &mut [u8; 3]) { let v = Vector3d::<u8>::from([a[0], a[1], a[2]]) * Vector3d::<u8>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_sum3(a: &[u8; 9], o: &mut [u8; 3]) { let s = [Vector3d::<u8>::from([a[0], a[1], a[2]]), Vector3d::<u8>::from([a[3], a[4], a[5]]), Vector3d::<u8>::from([a[6], a[7], a[8]])]; let v: Vector3d<u8> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_sumr3(a: &[u8; 9], o: &mut [u8; 3]) { let s = [Vector3d::<u8>::from([a[0], a[1], a[2]]), Vector3d::<u8>::from([a[3], a[4], a[5]]), Vector3d::<u8>::from([a[6], a[7], a[8]])]; let v: Vector3d<u8> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_sum0(o: &mut [u8; 3]) { let v: Vector3d<u8> = core::iter::empty::<Vector3d<u8>>().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_eq(a: &[u8; 3], b: &[u8; 3]) -> u8 { (Vector3d::<u8>::from([a[0], a[1], a[2]]) == Vector3d::<u8>::from([b[0], b[1], b[2]])) as u8 }
#[no_mangle] pub extern "C" fn v3_u8_index(a: &[u8; 3], i: usize) -> u8 { Vector3d::<u8>::from([a[0], a[1], a[2]])[i] }
#[no_mangle] pub extern "C" fn v3_u8_get(a: &[u8; 3], i: usize, o: &mut u8) -> u8 { match Vector3d::<u8>::from([a[0], a[1], a[2]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v3_u8_iter(a: &[u8; 3], o: &mut [u8; 5]) -> usize { let v = Vector3d::<u8>::from([a[0], a[1], a[2]]); let mut n = 0; for c in v.iter() { if n < 5 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v3_u8_iterfused(a: &[u8; 3]) -> u8 { let v = Vector3d::<u8>::from([a[0], a[1], a[2]]); let mut it = v.iter(); for _ in 0..3 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v3_u8_tuple(a: &[u8; 3], o: &mut [u8; 3]) { let v = Vector3d::<u8>::from((a[0], a[1], a[2])); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_u8_totuple(a: &[u8; 3], o: &mut [u8; 3]) { let (x, y, z): (u8, u8, u8) = Vector3d::<u8>::from([a[0], a[1], a[2]]).into(); *o = [x, y, z] }
#[no_mangle] pub extern "C" fn v3_u8_fields(a: &[u8; 3], o: &mut [u8; 3]) { let v = Vector3d::<u8>::from([a[0], a[1], a[2]]); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_u8_toarr(a: &[u8; 3], o: &mut [u8; 3]) { let s: [u8; 3] = Vector3d::<u8>::from([a[0], a[1], a[2]]).into(); *o = [s[0], s[1], s[2]] }
#[no_mangle] pub extern "C" fn v3_u8_default(o: &mut [u8; 3]) { let v = Vector3d::<u8>::default(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_fromslice(a: &[u8; 6], n: usize, o: &mut [u8; 3]) { let n = if n > 6 { 6 } else { n }; let v = Vector3d::<u8>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_fromiter(a: &[u8; 6], n: usize, o: &mut [u8; 3]) { let n = if n > 6 { 6 } else { n }; let v: Vector3d<u8> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u8_magsq(a: &[u8; 3]) -> u8 { Vector3d::<u8>::from([a[0], a[1], a[2]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v3_u8_mag(a: &[u8; 3]) -> f32 { Vector3d::<u8>::from([a[0], a[1], a[2]]).magnitude() }
#[no_mangle] pub extern "C" fn v3_u8_dist(a: &[u8; 3], b: &[u8; 3]) -> f32 { Vector3d::<u8>::from([a[0], a[1], a[2]]).distance(Vector3d::<u8>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_u8_tof32(a: &[u8; 3], o: &mut [f32; 3]) { let v = F32x3::from(Vector3d::<u8>::from([a[0], a[1], a[2]])); *o = v.to_array() }
#[no_mangle] pub extern "C" fn v2_u16_add(a: &[u16; 2], b: &[u16; 2], o: &mut [u16; 2]) { let v = Vector2d::<u16>::from([a[0], a[1]]) + Vector2d::<u16>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_sub(a: &[u16; 2], b: &[u16; 2], o: &mut [u16; 2]) { let v = Vector2d::<u16>::from([a[0], a[1]]) - Vector2d::<u16>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_adda(a: &[u16; 2], b: &[u16; 2], o: &mut [u16; 2]) { let mut v = Vector2d::<u16>::from([a[0], a[1]]); v += Vector2d::<u16>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_suba(a: &[u16; 2], b: &[u16; 2], o: &mut [u16; 2]) { let mut v = Vector2d::<u16>::from([a[0], a[1]]); v -= Vector2d::<u16>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_muls(a: &[u16; 2], k: u16, o: &mut [u16; 2]) { let v = Vector2d::<u16>::from([a[0], a[1]]) * k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_smul(a: &[u16; 2], k: u16, o: &mut [u16; 2]) { let v = k * Vector2d::<u16>::from([a[0], a[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_mulsa(a: &[u16; 2], k: u16, o: &mut [u16; 2]) { let mut v = Vector2d::<u16>::from([a[0], a[1]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_divs(a: &[u16; 2], k: u16, o: &mut [u16; 2]) { let v = Vector2d::<u16>::from([a[0], a[1]]) / k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_divsa(a: &[u16; 2], k: u16, o: &mut [u16; 2]) { let mut v = Vector2d::<u16>::from([a[0], a[1]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_dot(a: &[u16; 2], b: &[u16; 2]) -> u16 { Vector2d::<u16>::from([a[0], a[1]]).dot(Vector2d::<u16>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_u16_tdot(a: &[u16; 2], b: &[u16; 2]) -> u16 { Vector::dot(Vector2d::<u16>::from([a[0], a[1]]), Vector2d::<u16>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_u16_cross(a: &[u16; 2], b: &[u16; 2], o: &mut [u16; 3]) { let v = Vector2d::<u16>::from([a[0], a[1]]).cross(Vector2d::<u16>::from([b[0], b[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_u16_mulv(a: &[u16; 2], b: &[u16; 2], o: &mut [u16; 3]) { let v = Vector2d::<u16>::from([a[0], a[1]]) * Vector2d::<u16>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_u16_perp(a: &[u16; 2], b: &[u16; 2]) -> u16 { Vector2d::<u16>::from([a[0], a[1]]).perpendicular_dot(Vector2d::<u16>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v3_u16_from2(a: &[u16; 2], o: &mut [u16; 3]) { let v = Vector3d::<u16>::from(Vector2d::<u16>::from([a[0], a[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_u16_sum3(a: &[u16; 6], o: &mut [u16; 2]) { let s = [Vector2d::<u16>::from([a[0], a[1]]), Vector2d::<u16>::from([a[2], a[3]]), Vector2d::<u16>::from([a[4], a[5]])]; let v: Vector2d<u16> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_sumr3(a: &[u16; 6], o: &mut [u16; 2]) { let s = [Vector2d::<u16>::from([a[0], a[1]]), Vector2d::<u16>::from([a[2], a[3]]), Vector2d::<u16>::from([a[4], a[5]])]; let v: Vector2d<u16> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_sum0(o: &mut [u16; 2]) { let v: Vector2d<u16> = core::iter::empty::<Vector2d<u16>>().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_eq(a: &[u16; 2], b: &[u16; 2]) -> u8 { (Vector2d::<u16>::from([a[0], a[1]]) == Vector2d::<u16>::from([b[0], b[1]])) as u8 }
#[no_mangle] pub extern "C" fn v2_u16_index(a: &[u16; 2], i: usize) -> u16 { Vector2d::<u16>::from([a[0], a[1]])[i] }
#[no_mangle] pub extern "C" fn v2_u16_get(a: &[u16; 2], i: usize, o: &mut u16) -> u8 { match Vector2d::<u16>::from([a[0], a[1]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v2_u16_iter(a: &[u16; 2], o: &mut [u16; 4]) -> usize { let v = Vector2d::<u16>::from([a[0], a[1]]); let mut n = 0; for c in v.iter() { if n < 4 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v2_u16_iterfused(a: &[u16; 2]) -> u8 { let v = Vector2d::<u16>::from([a[0], a[1]]); let mut it = v.iter(); for _ in 0..2 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v2_u16_tuple(a: &[u16; 2], o: &mut [u16; 2]) { let v = Vector2d::<u16>::from((a[0], a[1])); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_u16_totuple(a: &[u16; 2], o: &mut [u16; 2]) { let (x, y): (u16, u16) = Vector2d::<u16>::from([a[0], a[1]]).into(); *o = [x, y] }
#[no_mangle] pub extern "C" fn v2_u16_fields(a: &[u16; 2], o: &mut [u16; 2]) { let v = Vector2d::<u16>::from([a[0], a[1]]); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_u16_toarr(a: &[u16; 2], o: &mut [u16; 2]) { let s: [u16; 2] = Vector2d::<u16>::from([a[0], a[1]]).into(); *o = [s[0], s[1]] }
#[no_mangle] pub extern "C" fn v2_u16_default(o: &mut [u16; 2]) { let v = Vector2d::<u16>::default(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_fromslice(a: &[u16; 5], n: usize, o: &mut [u16; 2]) { let n = if n > 5 { 5 } else { n }; let v = Vector2d::<u16>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_fromiter(a: &[u16; 5], n: usize, o: &mut [u16; 2]) { let n = if n > 5 { 5 } else { n }; let v: Vector2d<u16> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u16_magsq(a: &[u16; 2]) -> u16 { Vector2d::<u16>::from([a[0], a[1]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v2_u16_mag(a: &[u16; 2]) -> f32 { Vector2d::<u16>::from([a[0], a[1]]).magnitude() }
#[no_mangle] pub extern "C" fn v2_u16_dist(a: &[u16; 2], b: &[u16; 2]) -> f32 { Vector2d::<u16>::from([a[0], a[1]]).distance(Vector2d::<u16>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_u16_tof32(a: &[u16; 2], o: &mut [f32; 2]) { let v = F32x2::from(Vector2d::<u16>::from([a[0], a[1]])); *o = v.to_array() }
#[no_mangle] pub extern "C" fn v3_u16_add(a: &[u16; 3], b: &[u16; 3], o: &mut [u16; 3]) { let v = Vector3d::<u16>::from([a[0], a[1], a[2]]) + Vector3d::<u16>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_sub(a: &[u16; 3], b: &[u16; 3], o: &mut [u16; 3]) { let v = Vector3d::<u16>::from([a[0], a[1], a[2]]) - Vector3d::<u16>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_adda(a: &[u16; 3], b: &[u16; 3], o: &mut [u16; 3]) { let mut v = Vector3d::<u16>::from([a[0], a[1], a[2]]); v += Vector3d::<u16>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_suba(a: &[u16; 3], b: &[u16; 3], o: &mut [u16; 3]) { let mut v = Vector3d::<u16>::from([a[0], a[1], a[2]]); v -= Vector3d::<u16>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_muls(a: &[u16; 3], k: u16, o: &mut [u16; 3]) { let v = Vector3d::<u16>::from([a[0], a[1], a[2]]) * k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_smul(a: &[u16; 3], k: u16, o: &mut [u16; 3]) { let v = k * Vector3d::<u16>::from([a[0], a[1], a[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_mulsa(a: &[u16; 3], k: u16, o: &mut [u16; 3]) { let mut v = Vector3d::<u16>::from([a[0], a[1], a[2]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_divs(a: &[u16; 3], k: u16, o: &mut [u16; 3]) { let v = Vector3d::<u16>::from([a[0], a[1], a[2]]) / k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_divsa(a: &[u16; 3], k: u16, o: &mut [u16; 3]) { let mut v = Vector3d::<u16>::from([a[0], a[1], a[2]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_dot(a: &[u16; 3], b: &[u16; 3]) -> u16 { Vector3d::<u16>::from([a[0], a[1], a[2]]).dot(Vector3d::<u16>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_u16_tdot(a: &[u16; 3], b: &[u16; 3]) -> u16 { Vector::dot(Vector3d::<u16>::from([a[0], a[1], a[2]]), Vector3d::<u16>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_u16_cross(a: &[u16; 3], b: &[u16; 3], o: &mut [u16; 3]) { let v = Vector3d::<u16>::from([a[0], a[1], a[2]]).cross(Vector3d::<u16>::from([b[0], b[1], b[2]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_mulv(a: &[u16; 3], b: &[u16; 3], o: &mut [u16; 3]) { let v = Vector3d::<u16>::from([a[0], a[1], a[2]]) * Vector3d::<u16>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_sum3(a: &[u16; 9], o: &mut [u16; 3]) { let s = [Vector3d::<u16>::from([a[0], a[1], a[2]]), Vector3d::<u16>::from([a[3], a[4], a[5]]), Vector3d::<u16>::from([a[6], a[7], a[8]])]; let v: Vector3d<u16> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_sumr3(a: &[u16; 9], o: &mut [u16; 3]) { let s = [Vector3d::<u16>::from([a[0], a[1], a[2]]), Vector3d::<u16>::from([a[3], a[4], a[5]]), Vector3d::<u16>::from([a[6], a[7], a[8]])]; let v: Vector3d<u16> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_sum0(o: &mut [u16; 3]) { let v: Vector3d<u16> = core::iter::empty::<Vector3d<u16>>().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_eq(a: &[u16; 3], b: &[u16; 3]) -> u8 { (Vector3d::<u16>::from([a[0], a[1], a[2]]) == Vector3d::<u16>::from([b[0], b[1], b[2]])) as u8 }
#[no_mangle] pub extern "C" fn v3_u16_index(a: &[u16; 3], i: usize) -> u16 { Vector3d::<u16>::from([a[0], a[1], a[2]])[i] }
#[no_mangle] pub extern "C" fn v3_u16_get(a: &[u16; 3], i: usize, o: &mut u16) -> u8 { match Vector3d::<u16>::from([a[0], a[1], a[2]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v3_u16_iter(a: &[u16; 3], o: &mut [u16; 5]) -> usize { let v = Vector3d::<u16>::from([a[0], a[1], a[2]]); let mut n = 0; for c in v.iter() { if n < 5 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v3_u16_iterfused(a: &[u16; 3]) -> u8 { let v = Vector3d::<u16>::from([a[0], a[1], a[2]]); let mut it = v.iter(); for _ in 0..3 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v3_u16_tuple(a: &[u16; 3], o: &mut [u16; 3]) { let v = Vector3d::<u16>::from((a[0], a[1], a[2])); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_u16_totuple(a: &[u16; 3], o: &mut [u16; 3]) { let (x, y, z): (u16, u16, u16) = Vector3d::<u16>::from([a[0], a[1], a[2]]).into(); *o = [x, y, z] }
#[no_mangle] pub extern "C" fn v3_u16_fields(a: &[u16; 3], o: &mut [u16; 3]) { let v = Vector3d::<u16>::from([a[0], a[1], a[2]]); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_u16_toarr(a: &[u16; 3], o: &mut [u16; 3]) { let s: [u16; 3] = Vector3d::<u16>::from([a[0], a[1], a[2]]).into(); *o = [s[0], s[1], s[2]] }
#[no_mangle] pub extern "C" fn v3_u16_default(o: &mut [u16; 3]) { let v = Vector3d::<u16>::default(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_fromslice(a: &[u16; 6], n: usize, o: &mut [u16; 3]) { let n = if n > 6 { 6 } else { n }; let v = Vector3d::<u16>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_fromiter(a: &[u16; 6], n: usize, o: &mut [u16; 3]) { let n = if n > 6 { 6 } else { n }; let v: Vector3d<u16> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u16_magsq(a: &[u16; 3]) -> u16 { Vector3d::<u16>::from([a[0], a[1], a[2]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v3_u16_mag(a: &[u16; 3]) -> f32 { Vector3d::<u16>::from([a[0], a[1], a[2]]).magnitude() }
#[no_mangle] pub extern "C" fn v3_u16_dist(a: &[u16; 3], b: &[u16; 3]) -> f32 { Vector3d::<u16>::from([a[0], a[1], a[2]]).distance(Vector3d::<u16>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_u16_tof32(a: &[u16; 3], o: &mut [f32; 3]) { let v = F32x3::from(Vector3d::<u16>::from([a[0], a[1], a[2]])); *o = v.to_array() }
#[no_mangle] pub extern "C" fn v2_u32_add(a: &[u32; 2], b: &[u32; 2], o: &mut [u32; 2]) { let v = Vector2d::<u32>::from([a[0], a[1]]) + Vector2d::<u32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_sub(a: &[u32; 2], b: &[u32; 2], o: &mut [u32; 2]) { let v = Vector2d::<u32>::from([a[0], a[1]]) - Vector2d::<u32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_adda(a: &[u32; 2], b: &[u32; 2], o: &mut [u32; 2]) { let mut v = Vector2d::<u32>::from([a[0], a[1]]); v += Vector2d::<u32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_suba(a: &[u32; 2], b: &[u32; 2], o: &mut [u32; 2]) { let mut v = Vector2d::<u32>::from([a[0], a[1]]); v -= Vector2d::<u32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_muls(a: &[u32; 2], k: u32, o: &mut [u32; 2]) { let v = Vector2d::<u32>::from([a[0], a[1]]) * k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_smul(a: &[u32; 2], k: u32, o: &mut [u32; 2]) { let v = k * Vector2d::<u32>::from([a[0], a[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_mulsa(a: &[u32; 2], k: u32, o: &mut [u32; 2]) { let mut v = Vector2d::<u32>::from([a[0], a[1]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_divs(a: &[u32; 2], k: u32, o: &mut [u32; 2]) { let v = Vector2d::<u32>::from([a[0], a[1]]) / k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_divsa(a: &[u32; 2], k: u32, o: &mut [u32; 2]) { let mut v = Vector2d::<u32>::from([a[0], a[1]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_dot(a: &[u32; 2], b: &[u32; 2]) -> u32 { Vector2d::<u32>::from([a[0], a[1]]).dot(Vector2d::<u32>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_u32_tdot(a: &[u32; 2], b: &[u32; 2]) -> u32 { Vector::dot(Vector2d::<u32>::from([a[0], a[1]]), Vector2d::<u32>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_u32_cross(a: &[u32; 2], b: &[u32; 2], o: &mut [u32; 3]) { let v = Vector2d::<u32>::from([a[0], a[1]]).cross(Vector2d::<u32>::from([b[0], b[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_u32_mulv(a: &[u32; 2], b: &[u32; 2], o: &mut [u32; 3]) { let v = Vector2d::<u32>::from([a[0], a[1]]) * Vector2d::<u32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_u32_perp(a: &[u32; 2], b: &[u32; 2]) -> u32 { Vector2d::<u32>::from([a[0], a[1]]).perpendicular_dot(Vector2d::<u32>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v3_u32_from2(a: &[u32; 2], o: &mut [u32; 3]) { let v = Vector3d::<u32>::from(Vector2d::<u32>::from([a[0], a[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_u32_sum3(a: &[u32; 6], o: &mut [u32; 2]) { let s = [Vector2d::<u32>::from([a[0], a[1]]), Vector2d::<u32>::from([a[2], a[3]]), Vector2d::<u32>::from([a[4], a[5]])]; let v: Vector2d<u32> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_sumr3(a: &[u32; 6], o: &mut [u32; 2]) { let s = [Vector2d::<u32>::from([a[0], a[1]]), Vector2d::<u32>::from([a[2], a[3]]), Vector2d::<u32>::from([a[4], a[5]])]; let v: Vector2d<u32> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_sum0(o: &mut [u32; 2]) { let v: Vector2d<u32> = core::iter::empty::<Vector2d<u32>>().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_eq(a: &[u32; 2], b: &[u32; 2]) -> u8 { (Vector2d::<u32>::from([a[0], a[1]]) == Vector2d::<u32>::from([b[0], b[1]])) as u8 }
#[no_mangle] pub extern "C" fn v2_u32_index(a: &[u32; 2], i: usize) -> u32 { Vector2d::<u32>::from([a[0], a[1]])[i] }
#[no_mangle] pub extern "C" fn v2_u32_get(a: &[u32; 2], i: usize, o: &mut u32) -> u8 { match Vector2d::<u32>::from([a[0], a[1]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v2_u32_iter(a: &[u32; 2], o: &mut [u32; 4]) -> usize { let v = Vector2d::<u32>::from([a[0], a[1]]); let mut n = 0; for c in v.iter() { if n < 4 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v2_u32_iterfused(a: &[u32; 2]) -> u8 { let v = Vector2d::<u32>::from([a[0], a[1]]); let mut it = v.iter(); for _ in 0..2 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v2_u32_tuple(a: &[u32; 2], o: &mut [u32; 2]) { let v = Vector2d::<u32>::from((a[0], a[1])); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_u32_totuple(a: &[u32; 2], o: &mut [u32; 2]) { let (x, y): (u32, u32) = Vector2d::<u32>::from([a[0], a[1]]).into(); *o = [x, y] }
#[no_mangle] pub extern "C" fn v2_u32_fields(a: &[u32; 2], o: &mut [u32; 2]) { let v = Vector2d::<u32>::from([a[0], a[1]]); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_u32_toarr(a: &[u32; 2], o: &mut [u32; 2]) { let s: [u32; 2] = Vector2d::<u32>::from([a[0], a[1]]).into(); *o = [s[0], s[1]] }
#[no_mangle] pub extern "C" fn v2_u32_default(o: &mut [u32; 2]) { let v = Vector2d::<u32>::default(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_fromslice(a: &[u32; 5], n: usize, o: &mut [u32; 2]) { let n = if n > 5 { 5 } else { n }; let v = Vector2d::<u32>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_fromiter(a: &[u32; 5], n: usize, o: &mut [u32; 2]) { let n = if n > 5 { 5 } else { n }; let v: Vector2d<u32> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_u32_magsq(a: &[u32; 2]) -> u32 { Vector2d::<u32>::from([a[0], a[1]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v3_u32_add(a: &[u32; 3], b: &[u32; 3], o: &mut [u32; 3]) { let v = Vector3d::<u32>::from([a[0], a[1], a[2]]) + Vector3d::<u32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_sub(a: &[u32; 3], b: &[u32; 3], o: &mut [u32; 3]) { let v = Vector3d::<u32>::from([a[0], a[1], a[2]]) - Vector3d::<u32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_adda(a: &[u32; 3], b: &[u32; 3], o: &mut [u32; 3]) { let mut v = Vector3d::<u32>::from([a[0], a[1], a[2]]); v += Vector3d::<u32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_suba(a: &[u32; 3], b: &[u32; 3], o: &mut [u32; 3]) { let mut v = Vector3d::<u32>::from([a[0], a[1], a[2]]); v -= Vector3d::<u32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_muls(a: &[u32; 3], k: u32, o: &mut [u32; 3]) { let v = Vector3d::<u32>::from([a[0], a[1], a[2]]) * k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_smul(a: &[u32; 3], k: u32, o: &mut [u32; 3]) { let v = k * Vector3d::<u32>::from([a[0], a[1], a[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_mulsa(a: &[u32; 3], k: u32, o: &mut [u32; 3]) { let mut v = Vector3d::<u32>::from([a[0], a[1], a[2]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_divs(a: &[u32; 3], k: u32, o: &mut [u32; 3]) { let v = Vector3d::<u32>::from([a[0], a[1], a[2]]) / k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_divsa(a: &[u32; 3], k: u32, o: &mut [u32; 3]) { let mut v = Vector3d::<u32>::from([a[0], a[1], a[2]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_dot(a: &[u32; 3], b: &[u32; 3]) -> u32 { Vector3d::<u32>::from([a[0], a[1], a[2]]).dot(Vector3d::<u32>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_u32_tdot(a: &[u32; 3], b: &[u32; 3]) -> u32 { Vector::dot(Vector3d::<u32>::from([a[0], a[1], a[2]]), Vector3d::<u32>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_u32_cross(a: &[u32; 3], b: &[u32; 3], o: &mut [u32; 3]) { let v = Vector3d::<u32>::from([a[0], a[1], a[2]]).cross(Vector3d::<u32>::from([b[0], b[1], b[2]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_mulv(a: &[u32; 3], b: &[u32; 3], o: &mut [u32; 3]) { let v = Vector3d::<u32>::from([a[0], a[1], a[2]]) * Vector3d::<u32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_sum3(a: &[u32; 9], o: &mut [u32; 3]) { let s = [Vector3d::<u32>::from([a[0], a[1], a[2]]), Vector3d::<u32>::from([a[3], a[4], a[5]]), Vector3d::<u32>::from([a[6], a[7], a[8]])]; let v: Vector3d<u32> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_sumr3(a: &[u32; 9], o: &mut [u32; 3]) { let s = [Vector3d::<u32>::from([a[0], a[1], a[2]]), Vector3d::<u32>::from([a[3], a[4], a[5]]), Vector3d::<u32>::from([a[6], a[7], a[8]])]; let v: Vector3d<u32> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_sum0(o: &mut [u32; 3]) { let v: Vector3d<u32> = core::iter::empty::<Vector3d<u32>>().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_eq(a: &[u32; 3], b: &[u32; 3]) -> u8 { (Vector3d::<u32>::from([a[0], a[1], a[2]]) == Vector3d::<u32>::from([b[0], b[1], b[2]])) as u8 }
#[no_mangle] pub extern "C" fn v3_u32_index(a: &[u32; 3], i: usize) -> u32 { Vector3d::<u32>::from([a[0], a[1], a[2]])[i] }
#[no_mangle] pub extern "C" fn v3_u32_get(a: &[u32; 3], i: usize, o: &mut u32) -> u8 { match Vector3d::<u32>::from([a[0], a[1], a[2]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v3_u32_iter(a: &[u32; 3], o: &mut [u32; 5]) -> usize { let v = Vector3d::<u32>::from([a[0], a[1], a[2]]); let mut n = 0; for c in v.iter() { if n < 5 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v3_u32_iterfused(a: &[u32; 3]) -> u8 { let v = Vector3d::<u32>::from([a[0], a[1], a[2]]); let mut it = v.iter(); for _ in 0..3 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v3_u32_tuple(a: &[u32; 3], o: &mut [u32; 3]) { let v = Vector3d::<u32>::from((a[0], a[1], a[2])); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_u32_totuple(a: &[u32; 3], o: &mut [u32; 3]) { let (x, y, z): (u32, u32, u32) = Vector3d::<u32>::from([a[0], a[1], a[2]]).into(); *o = [x, y, z] }
#[no_mangle] pub extern "C" fn v3_u32_fields(a: &[u32; 3], o: &mut [u32; 3]) { let v = Vector3d::<u32>::from([a[0], a[1], a[2]]); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_u32_toarr(a: &[u32; 3], o: &mut [u32; 3]) { let s: [u32; 3] = Vector3d::<u32>::from([a[0], a[1], a[2]]).into(); *o = [s[0], s[1], s[2]] }
#[no_mangle] pub extern "C" fn v3_u32_default(o: &mut [u32; 3]) { let v = Vector3d::<u32>::default(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_fromslice(a: &[u32; 6], n: usize, o: &mut [u32; 3]) { let n = if n > 6 { 6 } else { n }; let v = Vector3d::<u32>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_fromiter(a: &[u32; 6], n: usize, o: &mut [u32; 3]) { let n = if n > 6 { 6 } else { n }; let v: Vector3d<u32> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_u32_magsq(a: &[u32; 3]) -> u32 { Vector3d::<u32>::from([a[0], a[1], a[2]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v2_f32_add(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 2]) { let v = Vector2d::<f32>::from([a[0], a[1]]) + Vector2d::<f32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_sub(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 2]) { let v = Vector2d::<f32>::from([a[0], a[1]]) - Vector2d::<f32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_adda(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 2]) { let mut v = Vector2d::<f32>::from([a[0], a[1]]); v += Vector2d::<f32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_suba(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 2]) { let mut v = Vector2d::<f32>::from([a[0], a[1]]); v -= Vector2d::<f32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_muls(a: &[f32; 2], k: f32, o: &mut [f32; 2]) { let v = Vector2d::<f32>::from([a[0], a[1]]) * k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_smul(a: &[f32; 2], k: f32, o: &mut [f32; 2]) { let v = k * Vector2d::<f32>::from([a[0], a[1]]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_mulsa(a: &[f32; 2], k: f32, o: &mut [f32; 2]) { let mut v = Vector2d::<f32>::from([a[0], a[1]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_divs(a: &[f32; 2], k: f32, o: &mut [f32; 2]) { let v = Vector2d::<f32>::from([a[0], a[1]]) / k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_divsa(a: &[f32; 2], k: f32, o: &mut [f32; 2]) { let mut v = Vector2d::<f32>::from([a[0], a[1]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_dot(a: &[f32; 2], b: &[f32; 2]) -> f32 { Vector2d::<f32>::from([a[0], a[1]]).dot(Vector2d::<f32>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_f32_tdot(a: &[f32; 2], b: &[f32; 2]) -> f32 { Vector::dot(Vector2d::<f32>::from([a[0], a[1]]), Vector2d::<f32>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_f32_cross(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 3]) { let v = Vector2d::<f32>::from([a[0], a[1]]).cross(Vector2d::<f32>::from([b[0], b[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_f32_mulv(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 3]) { let v = Vector2d::<f32>::from([a[0], a[1]]) * Vector2d::<f32>::from([b[0], b[1]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_f32_perp(a: &[f32; 2], b: &[f32; 2]) -> f32 { Vector2d::<f32>::from([a[0], a[1]]).perpendicular_dot(Vector2d::<f32>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v3_f32_from2(a: &[f32; 2], o: &mut [f32; 3]) { let v = Vector3d::<f32>::from(Vector2d::<f32>::from([a[0], a[1]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_f32_sum3(a: &[f32; 6], o: &mut [f32; 2]) { let s = [Vector2d::<f32>::from([a[0], a[1]]), Vector2d::<f32>::from([a[2], a[3]]), Vector2d::<f32>::from([a[4], a[5]])]; let v: Vector2d<f32> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_sumr3(a: &[f32; 6], o: &mut [f32; 2]) { let s = [Vector2d::<f32>::from([a[0], a[1]]), Vector2d::<f32>::from([a[2], a[3]]), Vector2d::<f32>::from([a[4], a[5]])]; let v: Vector2d<f32> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_sum0(o: &mut [f32; 2]) { let v: Vector2d<f32> = core::iter::empty::<Vector2d<f32>>().sum(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_eq(a: &[f32; 2], b: &[f32; 2]) -> u8 { (Vector2d::<f32>::from([a[0], a[1]]) == Vector2d::<f32>::from([b[0], b[1]])) as u8 }
#[no_mangle] pub extern "C" fn v2_f32_index(a: &[f32; 2], i: usize) -> f32 { Vector2d::<f32>::from([a[0], a[1]])[i] }
#[no_mangle] pub extern "C" fn v2_f32_get(a: &[f32; 2], i: usize, o: &mut f32) -> u8 { match Vector2d::<f32>::from([a[0], a[1]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v2_f32_iter(a: &[f32; 2], o: &mut [f32; 4]) -> usize { let v = Vector2d::<f32>::from([a[0], a[1]]); let mut n = 0; for c in v.iter() { if n < 4 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v2_f32_iterfused(a: &[f32; 2]) -> u8 { let v = Vector2d::<f32>::from([a[0], a[1]]); let mut it = v.iter(); for _ in 0..2 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v2_f32_tuple(a: &[f32; 2], o: &mut [f32; 2]) { let v = Vector2d::<f32>::from((a[0], a[1])); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_f32_totuple(a: &[f32; 2], o: &mut [f32; 2]) { let (x, y): (f32, f32) = Vector2d::<f32>::from([a[0], a[1]]).into(); *o = [x, y] }
#[no_mangle] pub extern "C" fn v2_f32_fields(a: &[f32; 2], o: &mut [f32; 2]) { let v = Vector2d::<f32>::from([a[0], a[1]]); *o = [v.x, v.y] }
#[no_mangle] pub extern "C" fn v2_f32_toarr(a: &[f32; 2], o: &mut [f32; 2]) { let s: [f32; 2] = Vector2d::<f32>::from([a[0], a[1]]).into(); *o = [s[0], s[1]] }
#[no_mangle] pub extern "C" fn v2_f32_default(o: &mut [f32; 2]) { let v = Vector2d::<f32>::default(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_fromslice(a: &[f32; 5], n: usize, o: &mut [f32; 2]) { let n = if n > 5 { 5 } else { n }; let v = Vector2d::<f32>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_fromiter(a: &[f32; 5], n: usize, o: &mut [f32; 2]) { let n = if n > 5 { 5 } else { n }; let v: Vector2d<f32> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v2_f32_magsq(a: &[f32; 2]) -> f32 { Vector2d::<f32>::from([a[0], a[1]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v2_f32_mag(a: &[f32; 2]) -> f32 { Vector2d::<f32>::from([a[0], a[1]]).magnitude() }
#[no_mangle] pub extern "C" fn v2_f32_dist(a: &[f32; 2], b: &[f32; 2]) -> f32 { Vector2d::<f32>::from([a[0], a[1]]).distance(Vector2d::<f32>::from([b[0], b[1]])) }
#[no_mangle] pub extern "C" fn v2_f32_norm(a: &[f32; 2], o: &mut [f32; 2]) { let v = Vector2d::<f32>::from([a[0], a[1]]).normalized(); *o = { let t = v.to_array(); [t[0], t[1]] } }
#[no_mangle] pub extern "C" fn v3_f32_add(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<f32>::from([a[0], a[1], a[2]]) + Vector3d::<f32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_sub(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<f32>::from([a[0], a[1], a[2]]) - Vector3d::<f32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_adda(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let mut v = Vector3d::<f32>::from([a[0], a[1], a[2]]); v += Vector3d::<f32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_suba(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let mut v = Vector3d::<f32>::from([a[0], a[1], a[2]]); v -= Vector3d::<f32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_muls(a: &[f32; 3], k: f32, o: &mut [f32; 3]) { let v = Vector3d::<f32>::from([a[0], a[1], a[2]]) * k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_smul(a: &[f32; 3], k: f32, o: &mut [f32; 3]) { let v = k * Vector3d::<f32>::from([a[0], a[1], a[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_mulsa(a: &[f32; 3], k: f32, o: &mut [f32; 3]) { let mut v = Vector3d::<f32>::from([a[0], a[1], a[2]]); v *= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_divs(a: &[f32; 3], k: f32, o: &mut [f32; 3]) { let v = Vector3d::<f32>::from([a[0], a[1], a[2]]) / k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_divsa(a: &[f32; 3], k: f32, o: &mut [f32; 3]) { let mut v = Vector3d::<f32>::from([a[0], a[1], a[2]]); v /= k; *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_dot(a: &[f32; 3], b: &[f32; 3]) -> f32 { Vector3d::<f32>::from([a[0], a[1], a[2]]).dot(Vector3d::<f32>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_f32_tdot(a: &[f32; 3], b: &[f32; 3]) -> f32 { Vector::dot(Vector3d::<f32>::from([a[0], a[1], a[2]]), Vector3d::<f32>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_f32_cross(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<f32>::from([a[0], a[1], a[2]]).cross(Vector3d::<f32>::from([b[0], b[1], b[2]])); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_mulv(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<f32>::from([a[0], a[1], a[2]]) * Vector3d::<f32>::from([b[0], b[1], b[2]]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_sum3(a: &[f32; 9], o: &mut [f32; 3]) { let s = [Vector3d::<f32>::from([a[0], a[1], a[2]]), Vector3d::<f32>::from([a[3], a[4], a[5]]), Vector3d::<f32>::from([a[6], a[7], a[8]])]; let v: Vector3d<f32> = s.iter().copied().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_sumr3(a: &[f32; 9], o: &mut [f32; 3]) { let s = [Vector3d::<f32>::from([a[0], a[1], a[2]]), Vector3d::<f32>::from([a[3], a[4], a[5]]), Vector3d::<f32>::from([a[6], a[7], a[8]])]; let v: Vector3d<f32> = s.iter().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_sum0(o: &mut [f32; 3]) { let v: Vector3d<f32> = core::iter::empty::<Vector3d<f32>>().sum(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_eq(a: &[f32; 3], b: &[f32; 3]) -> u8 { (Vector3d::<f32>::from([a[0], a[1], a[2]]) == Vector3d::<f32>::from([b[0], b[1], b[2]])) as u8 }
#[no_mangle] pub extern "C" fn v3_f32_index(a: &[f32; 3], i: usize) -> f32 { Vector3d::<f32>::from([a[0], a[1], a[2]])[i] }
#[no_mangle] pub extern "C" fn v3_f32_get(a: &[f32; 3], i: usize, o: &mut f32) -> u8 { match Vector3d::<f32>::from([a[0], a[1], a[2]]).get(i) { Some(v) => { *o = v; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v3_f32_iter(a: &[f32; 3], o: &mut [f32; 5]) -> usize { let v = Vector3d::<f32>::from([a[0], a[1], a[2]]); let mut n = 0; for c in v.iter() { if n < 5 { o[n] = c; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v3_f32_iterfused(a: &[f32; 3]) -> u8 { let v = Vector3d::<f32>::from([a[0], a[1], a[2]]); let mut it = v.iter(); for _ in 0..3 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v3_f32_tuple(a: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<f32>::from((a[0], a[1], a[2])); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_f32_totuple(a: &[f32; 3], o: &mut [f32; 3]) { let (x, y, z): (f32, f32, f32) = Vector3d::<f32>::from([a[0], a[1], a[2]]).into(); *o = [x, y, z] }
#[no_mangle] pub extern "C" fn v3_f32_fields(a: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<f32>::from([a[0], a[1], a[2]]); *o = [v.x, v.y, v.z] }
#[no_mangle] pub extern "C" fn v3_f32_toarr(a: &[f32; 3], o: &mut [f32; 3]) { let s: [f32; 3] = Vector3d::<f32>::from([a[0], a[1], a[2]]).into(); *o = [s[0], s[1], s[2]] }
#[no_mangle] pub extern "C" fn v3_f32_default(o: &mut [f32; 3]) { let v = Vector3d::<f32>::default(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_fromslice(a: &[f32; 6], n: usize, o: &mut [f32; 3]) { let n = if n > 6 { 6 } else { n }; let v = Vector3d::<f32>::from_slice(&a[..n]); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_fromiter(a: &[f32; 6], n: usize, o: &mut [f32; 3]) { let n = if n > 6 { 6 } else { n }; let v: Vector3d<f32> = a[..n].iter().copied().collect(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v3_f32_magsq(a: &[f32; 3]) -> f32 { Vector3d::<f32>::from([a[0], a[1], a[2]]).magnitude_sq() }
#[no_mangle] pub extern "C" fn v3_f32_mag(a: &[f32; 3]) -> f32 { Vector3d::<f32>::from([a[0], a[1], a[2]]).magnitude() }
#[no_mangle] pub extern "C" fn v3_f32_dist(a: &[f32; 3], b: &[f32; 3]) -> f32 { Vector3d::<f32>::from([a[0], a[1], a[2]]).distance(Vector3d::<f32>::from([b[0], b[1], b[2]])) }
#[no_mangle] pub extern "C" fn v3_f32_norm(a: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<f32>::from([a[0], a[1], a[2]]).normalized(); *o = { let t = v.to_array(); [t[0], t[1], t[2]] } }
#[no_mangle] pub extern "C" fn v2_F32_add(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 2]) { let v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]) + Vector2d::<F32>::from([F32(b[0]), F32(b[1])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_sub(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 2]) { let v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]) - Vector2d::<F32>::from([F32(b[0]), F32(b[1])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_adda(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 2]) { let mut v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]); v += Vector2d::<F32>::from([F32(b[0]), F32(b[1])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_suba(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 2]) { let mut v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]); v -= Vector2d::<F32>::from([F32(b[0]), F32(b[1])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_muls(a: &[f32; 2], k: f32, o: &mut [f32; 2]) { let v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]) * F32(k); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_smul(a: &[f32; 2], k: f32, o: &mut [f32; 2]) { let v = F32(k) * Vector2d::<F32>::from([F32(a[0]), F32(a[1])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_mulsa(a: &[f32; 2], k: f32, o: &mut [f32; 2]) { let mut v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]); v *= F32(k); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_divs(a: &[f32; 2], k: f32, o: &mut [f32; 2]) { let v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]) / F32(k); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_divsa(a: &[f32; 2], k: f32, o: &mut [f32; 2]) { let mut v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]); v /= F32(k); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_dot(a: &[f32; 2], b: &[f32; 2]) -> f32 { (Vector2d::<F32>::from([F32(a[0]), F32(a[1])]).dot(Vector2d::<F32>::from([F32(b[0]), F32(b[1])]))).0 }
#[no_mangle] pub extern "C" fn v2_F32_tdot(a: &[f32; 2], b: &[f32; 2]) -> f32 { (Vector::dot(Vector2d::<F32>::from([F32(a[0]), F32(a[1])]), Vector2d::<F32>::from([F32(b[0]), F32(b[1])]))).0 }
#[no_mangle] pub extern "C" fn v2_F32_cross(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 3]) { let v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]).cross(Vector2d::<F32>::from([F32(b[0]), F32(b[1])])); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_mulv(a: &[f32; 2], b: &[f32; 2], o: &mut [f32; 3]) { let v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]) * Vector2d::<F32>::from([F32(b[0]), F32(b[1])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_perp(a: &[f32; 2], b: &[f32; 2]) -> f32 { (Vector2d::<F32>::from([F32(a[0]), F32(a[1])]).perpendicular_dot(Vector2d::<F32>::from([F32(b[0]), F32(b[1])]))).0 }
#[no_mangle] pub extern "C" fn v3_F32_from2(a: &[f32; 2], o: &mut [f32; 3]) { let v = Vector3d::<F32>::from(Vector2d::<F32>::from([F32(a[0]), F32(a[1])])); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_sum3(a: &[f32; 6], o: &mut [f32; 2]) { let s = [Vector2d::<F32>::from([F32(a[0]), F32(a[1])]), Vector2d::<F32>::from([F32(a[2]), F32(a[3])]), Vector2d::<F32>::from([F32(a[4]), F32(a[5])])]; let v: Vector2d<F32> = s.iter().copied().sum(); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_sumr3(a: &[f32; 6], o: &mut [f32; 2]) { let s = [Vector2d::<F32>::from([F32(a[0]), F32(a[1])]), Vector2d::<F32>::from([F32(a[2]), F32(a[3])]), Vector2d::<F32>::from([F32(a[4]), F32(a[5])])]; let v: Vector2d<F32> = s.iter().sum(); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_sum0(o: &mut [f32; 2]) { let v: Vector2d<F32> = core::iter::empty::<Vector2d<F32>>().sum(); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_eq(a: &[f32; 2], b: &[f32; 2]) -> u8 { (Vector2d::<F32>::from([F32(a[0]), F32(a[1])]) == Vector2d::<F32>::from([F32(b[0]), F32(b[1])])) as u8 }
#[no_mangle] pub extern "C" fn v2_F32_index(a: &[f32; 2], i: usize) -> f32 { (Vector2d::<F32>::from([F32(a[0]), F32(a[1])])[i]).0 }
#[no_mangle] pub extern "C" fn v2_F32_get(a: &[f32; 2], i: usize, o: &mut f32) -> u8 { match Vector2d::<F32>::from([F32(a[0]), F32(a[1])]).get(i) { Some(v) => { *o = (v).0; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v2_F32_iter(a: &[f32; 2], o: &mut [f32; 4]) -> usize { let v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]); let mut n = 0; for c in v.iter() { if n < 4 { o[n] = (c).0; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v2_F32_iterfused(a: &[f32; 2]) -> u8 { let v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]); let mut it = v.iter(); for _ in 0..2 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v2_F32_tuple(a: &[f32; 2], o: &mut [f32; 2]) { let v = Vector2d::<F32>::from((F32(a[0]), F32(a[1]))); *o = [(v.x).0, (v.y).0] }
#[no_mangle] pub extern "C" fn v2_F32_totuple(a: &[f32; 2], o: &mut [f32; 2]) { let (x, y): (F32, F32) = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]).into(); *o = [(x).0, (y).0] }
#[no_mangle] pub extern "C" fn v2_F32_fields(a: &[f32; 2], o: &mut [f32; 2]) { let v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]); *o = [(v.x).0, (v.y).0] }
#[no_mangle] pub extern "C" fn v2_F32_toarr(a: &[f32; 2], o: &mut [f32; 2]) { let s: [F32; 2] = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]).into(); *o = [(s[0]).0, (s[1]).0] }
#[no_mangle] pub extern "C" fn v2_F32_default(o: &mut [f32; 2]) { let v = Vector2d::<F32>::default(); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v2_F32_magsq(a: &[f32; 2]) -> f32 { Vector2d::<F32>::from([F32(a[0]), F32(a[1])]).magnitude_sq().0 }
#[no_mangle] pub extern "C" fn v2_F32_mag(a: &[f32; 2]) -> f32 { Vector2d::<F32>::from([F32(a[0]), F32(a[1])]).magnitude() }
#[no_mangle] pub extern "C" fn v2_F32_dist(a: &[f32; 2], b: &[f32; 2]) -> f32 { Vector2d::<F32>::from([F32(a[0]), F32(a[1])]).distance(Vector2d::<F32>::from([F32(b[0]), F32(b[1])])) }
#[no_mangle] pub extern "C" fn v2_F32_norm(a: &[f32; 2], o: &mut [f32; 2]) { let v = Vector2d::<F32>::from([F32(a[0]), F32(a[1])]).normalized(); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_add(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]) + Vector3d::<F32>::from([F32(b[0]), F32(b[1]), F32(b[2])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_sub(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]) - Vector3d::<F32>::from([F32(b[0]), F32(b[1]), F32(b[2])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_adda(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let mut v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]); v += Vector3d::<F32>::from([F32(b[0]), F32(b[1]), F32(b[2])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_suba(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let mut v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]); v -= Vector3d::<F32>::from([F32(b[0]), F32(b[1]), F32(b[2])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_muls(a: &[f32; 3], k: f32, o: &mut [f32; 3]) { let v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]) * F32(k); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_smul(a: &[f32; 3], k: f32, o: &mut [f32; 3]) { let v = F32(k) * Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_mulsa(a: &[f32; 3], k: f32, o: &mut [f32; 3]) { let mut v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]); v *= F32(k); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_divs(a: &[f32; 3], k: f32, o: &mut [f32; 3]) { let v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]) / F32(k); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_divsa(a: &[f32; 3], k: f32, o: &mut [f32; 3]) { let mut v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]); v /= F32(k); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_dot(a: &[f32; 3], b: &[f32; 3]) -> f32 { (Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]).dot(Vector3d::<F32>::from([F32(b[0]), F32(b[1]), F32(b[2])]))).0 }
#[no_mangle] pub extern "C" fn v3_F32_tdot(a: &[f32; 3], b: &[f32; 3]) -> f32 { (Vector::dot(Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]), Vector3d::<F32>::from([F32(b[0]), F32(b[1]), F32(b[2])]))).0 }
#[no_mangle] pub extern "C" fn v3_F32_cross(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]).cross(Vector3d::<F32>::from([F32(b[0]), F32(b[1]), F32(b[2])])); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_mulv(a: &[f32; 3], b: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]) * Vector3d::<F32>::from([F32(b[0]), F32(b[1]), F32(b[2])]); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_sum3(a: &[f32; 9], o: &mut [f32; 3]) { let s = [Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]), Vector3d::<F32>::from([F32(a[3]), F32(a[4]), F32(a[5])]), Vector3d::<F32>::from([F32(a[6]), F32(a[7]), F32(a[8])])]; let v: Vector3d<F32> = s.iter().copied().sum(); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_sumr3(a: &[f32; 9], o: &mut [f32; 3]) { let s = [Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]), Vector3d::<F32>::from([F32(a[3]), F32(a[4]), F32(a[5])]), Vector3d::<F32>::from([F32(a[6]), F32(a[7]), F32(a[8])])]; let v: Vector3d<F32> = s.iter().sum(); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_sum0(o: &mut [f32; 3]) { let v: Vector3d<F32> = core::iter::empty::<Vector3d<F32>>().sum(); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_eq(a: &[f32; 3], b: &[f32; 3]) -> u8 { (Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]) == Vector3d::<F32>::from([F32(b[0]), F32(b[1]), F32(b[2])])) as u8 }
#[no_mangle] pub extern "C" fn v3_F32_index(a: &[f32; 3], i: usize) -> f32 { (Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])])[i]).0 }
#[no_mangle] pub extern "C" fn v3_F32_get(a: &[f32; 3], i: usize, o: &mut f32) -> u8 { match Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]).get(i) { Some(v) => { *o = (v).0; 1 } None => 0 } }
#[no_mangle] pub extern "C" fn v3_F32_iter(a: &[f32; 3], o: &mut [f32; 5]) -> usize { let v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]); let mut n = 0; for c in v.iter() { if n < 5 { o[n] = (c).0; } n += 1; if n > 8 { break; } } n }
#[no_mangle] pub extern "C" fn v3_F32_iterfused(a: &[f32; 3]) -> u8 { let v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]); let mut it = v.iter(); for _ in 0..3 { let _ = it.next(); } (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }
#[no_mangle] pub extern "C" fn v3_F32_tuple(a: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<F32>::from((F32(a[0]), F32(a[1]), F32(a[2]))); *o = [(v.x).0, (v.y).0, (v.z).0] }
#[no_mangle] pub extern "C" fn v3_F32_totuple(a: &[f32; 3], o: &mut [f32; 3]) { let (x, y, z): (F32, F32, F32) = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]).into(); *o = [(x).0, (y).0, (z).0] }
#[no_mangle] pub extern "C" fn v3_F32_fields(a: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]); *o = [(v.x).0, (v.y).0, (v.z).0] }
#[no_mangle] pub extern "C" fn v3_F32_toarr(a: &[f32; 3], o: &mut [f32; 3]) { let s: [F32; 3] = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]).into(); *o = [(s[0]).0, (s[1]).0, (s[2]).0] }
#[no_mangle] pub extern "C" fn v3_F32_default(o: &mut [f32; 3]) { let v = Vector3d::<F32>::default(); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_magsq(a: &[f32; 3]) -> f32 { Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]).magnitude_sq().0 }
#[no_mangle] pub extern "C" fn v3_F32_mag(a: &[f32; 3]) -> f32 { Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]).magnitude() }
#[no_mangle] pub extern "C" fn v3_F32_dist(a: &[f32; 3], b: &[f32; 3]) -> f32 { Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]).distance(Vector3d::<F32>::from([F32(b[0]), F32(b[1]), F32(b[2])])) }
#[no_mangle] pub extern "C" fn v3_F32_norm(a: &[f32; 3], o: &mut [f32; 3]) { let v = Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])]).normalized(); *o = { let t = v.to_array(); [(t[0]).0, (t[1]).0, (t[2]).0] } }
#[no_mangle] pub extern "C" fn v3_F32_tof32(a: &[f32; 3], o: &mut [f32; 3]) { let v = F32x3::from(Vector3d::<F32>::from([F32(a[0]), F32(a[1]), F32(a[2])])); *o = v.to_array() }
#[no_mangle] pub extern "C" fn st_mean17(a: &[f32; 17]) -> f32 { a.iter().copied().mean() }
#[no_mangle] pub extern "C" fn st_var17(a: &[f32; 17]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std17(a: &[f32; 17]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_mean300(a: &[f32; 300]) -> f32 { a.iter().copied().mean() }
#[no_mangle] pub extern "C" fn st_var300(a: &[f32; 300]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std300(a: &[f32; 300]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_mean1(a: &[f32; 1]) -> f32 { a.iter().copied().mean() }
#[no_mangle] pub extern "C" fn st_var1(a: &[f32; 1]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std1(a: &[f32; 1]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_trim1(a: &[f32; 1], t: f32, o: &mut [f32; 1]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim_at(t) { if n < 1 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_trimd1(a: &[f32; 1], o: &mut [f32; 1]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim() { if n < 1 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_mean2(a: &[f32; 2]) -> f32 { a.iter().copied().mean() }
#[no_mangle] pub extern "C" fn st_var2(a: &[f32; 2]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std2(a: &[f32; 2]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_trim2(a: &[f32; 2], t: f32, o: &mut [f32; 2]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim_at(t) { if n < 2 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_trimd2(a: &[f32; 2], o: &mut [f32; 2]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim() { if n < 2 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_mean3(a: &[f32; 3]) -> f32 { a.iter().copied().mean() }
#[no_mangle] pub extern "C" fn st_var3(a: &[f32; 3]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std3(a: &[f32; 3]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_trim3(a: &[f32; 3], t: f32, o: &mut [f32; 3]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim_at(t) { if n < 3 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_trimd3(a: &[f32; 3], o: &mut [f32; 3]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim() { if n < 3 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_mean4(a: &[f32; 4]) -> f32 { a.iter().copied().mean() }
#[no_mangle] pub extern "C" fn st_var4(a: &[f32; 4]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std4(a: &[f32; 4]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_trim4(a: &[f32; 4], t: f32, o: &mut [f32; 4]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim_at(t) { if n < 4 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_trimd4(a: &[f32; 4], o: &mut [f32; 4]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim() { if n < 4 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_mean5(a: &[f32; 5]) -> f32 { a.iter().copied().mean() }
#[no_mangle] pub extern "C" fn st_var5(a: &[f32; 5]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std5(a: &[f32; 5]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_trim5(a: &[f32; 5], t: f32, o: &mut [f32; 5]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim_at(t) { if n < 5 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_trimd5(a: &[f32; 5], o: &mut [f32; 5]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim() { if n < 5 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_mean6(a: &[f32; 6]) -> f32 { a.iter().copied().mean() }
#[no_mangle] pub extern "C" fn st_var6(a: &[f32; 6]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std6(a: &[f32; 6]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_trim6(a: &[f32; 6], t: f32, o: &mut [f32; 6]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim_at(t) { if n < 6 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_trimd6(a: &[f32; 6], o: &mut [f32; 6]) -> usize { let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim() { if n < 6 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_var_i8(a: &[i8; 3]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std_i8(a: &[i8; 3]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_trim_i8(a: &[i8; 3], t: f32, o: &mut [i8; 3]) -> usize { let s: &[i8] = &a[..]; let mut n = 0; for v in s.trim_at(t) { if n < 3 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_var_u8(a: &[u8; 3]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std_u8(a: &[u8; 3]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_trim_u8(a: &[u8; 3], t: f32, o: &mut [u8; 3]) -> usize { let s: &[u8] = &a[..]; let mut n = 0; for v in s.trim_at(t) { if n < 3 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_var_i16(a: &[i16; 3]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std_i16(a: &[i16; 3]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_trim_i16(a: &[i16; 3], t: f32, o: &mut [i16; 3]) -> usize { let s: &[i16] = &a[..]; let mut n = 0; for v in s.trim_at(t) { if n < 3 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_var_u16(a: &[u16; 3]) -> f32 { a[..].variance() }
#[no_mangle] pub extern "C" fn st_std_u16(a: &[u16; 3]) -> f32 { a[..].stddev() }
#[no_mangle] pub extern "C" fn st_trim_u16(a: &[u16; 3], t: f32, o: &mut [u16; 3]) -> usize { let s: &[u16] = &a[..]; let mut n = 0; for v in s.trim_at(t) { if n < 3 { o[n] = v; } n += 1; } n }
#[no_mangle] pub extern "C" fn st_mean0() -> f32 { core::iter::empty::<f32>().mean() }
#[no_mangle] pub extern "C" fn q_mul(a: &[f32; 4], b: &[f32; 4], o: &mut [f32; 4]) { *o = (Quaternion::from(*a) * Quaternion::from(*b)).into() }
#[no_mangle] pub extern "C" fn q_add(a: &[f32; 4], b: &[f32; 4], o: &mut [f32; 4]) { *o = (Quaternion::from(*a) + Quaternion::from(*b)).into() }
#[no_mangle] pub extern "C" fn q_sub(a: &[f32; 4], b: &[f32; 4], o: &mut [f32; 4]) { *o = (Quaternion::from(*a) - Quaternion::from(*b)).into() }

#[no_mangle] pub extern "C" fn q_adda(a: &[f32; 4], b: &[f32; 4], o: &mut [f32; 4]) { let mut q = Quaternion::from(*a); q += Quaternion::from(*b); *o = q.into() }
#[no_mangle] pub extern "C" fn q_suba(a: &[f32; 4], b: &[f32; 4], o: &mut [f32; 4]) { let mut q = Quaternion::from(*a); q -= Quaternion::from(*b); *o = q.into() }
#[no_mangle] pub extern "C" fn q_conj(a: &[f32; 4], o: &mut [f32; 4]) { *o = Quaternion::from(*a).conj().into() }
#[no_mangle] pub extern "C" fn q_inv(a: &[f32; 4], o: &mut [f32; 4]) { *o = Quaternion::from(*a).inv().into() }
#[no_mangle] pub extern "C" fn q_normalize(a: &[f32; 4], o: &mut [f32; 4]) { *o = Quaternion::from(*a).normalize().into() }
#[no_mangle] pub extern "C" fn q_dot(a: &[f32; 4], b: &[f32; 4]) -> f32 { Quaternion::from(*a).dot(Quaternion::from(*b)) }
#[no_mangle] pub extern "C" fn q_norm(a: &[f32; 4]) -> f32 { Quaternion::from(*a).norm() }
#[no_mangle] pub extern "C" fn q_mag(a: &[f32; 4]) -> f32 { Quaternion::from(*a).magnitude() }
#[no_mangle] pub extern "C" fn q_scale(a: &[f32; 4], k: f32, o: &mut [f32; 4]) { *o = Quaternion::from(*a).scale(k).into() }
#[no_mangle] pub extern "C" fn q_scalef(a: &[f32; 4], k: f32, o: &mut [f32; 4]) { *o = Quaternion::from(*a).scale(F32(k)).into() }
#[no_mangle] pub extern "C" fn q_mulk(a: &[f32; 4], k: f32, o: &mut [f32; 4]) { *o = (Quaternion::from(*a) * k).into() }
#[no_mangle] pub extern "C" fn q_kmul(a: &[f32; 4], k: f32, o: &mut [f32; 4]) { *o = (k * Quaternion::from(*a)).into() }
#[no_mangle] pub extern "C" fn q_mulka(a: &[f32; 4], k: f32, o: &mut [f32; 4]) { let mut q = Quaternion::from(*a); q *= k; *o = q.into() }
#[no_mangle] pub extern "C" fn q_rotate(a: &[f32; 4], v: &[f32; 3], o: &mut [f32; 3]) { *o = Quaternion::from(*a).rotate(F32x3::from(*v)).to_array() }
#[no_mangle] pub extern "C" fn q_mulv(a: &[f32; 4], v: &[f32; 3], o: &mut [f32; 3]) { *o = (Quaternion::from(*a) * F32x3::from(*v)).to_array() }
#[no_mangle] pub extern "C" fn q_rotate_i8(a: &[f32; 4], v: &[i8; 3], o: &mut [f32; 3]) { *o = Quaternion::from(*a).rotate(I8x3::from(*v)).to_array() }
#[no_mangle] pub extern "C" fn q_axis(v: &[f32; 3], t: f32, o: &mut [f32; 4]) { *o = Quaternion::axis_angle(F32x3::from(*v), t).into() }
#[no_mangle] pub extern "C" fn q_two(u: &[f32; 3], v: &[f32; 3], o: &mut [f32; 4]) { *o = Quaternion::from_two_vectors(F32x3::from(*u), F32x3::from(*v)).into() }
#[no_mangle] pub extern "C" fn q_euler(a: &[f32; 4], o: &mut [f32; 3]) { let (r, p, y) = Quaternion::from(*a).to_euler(); *o = [r, p, y] }
#[no_mangle] pub extern "C" fn q_new(a: &[f32; 4], o: &mut [f32; 4]) { let q = Quaternion::new(a[0], a[1], a[2], a[3]); *o = [q.w(), q.x(), q.y(), q.z()] }
#[no_mangle] pub extern "C" fn q_acc(a: &[f32; 4], o: &mut [f32; 4]) { let q = Quaternion::from(*a); *o = [q.w(), q.x(), q.y(), q.z()] }
#[no_mangle] pub extern "C" fn q_toarr(a: &[f32; 4], o: &mut [f32; 4]) { *o = Quaternion::new(a[0], a[1], a[2], a[3]).to_array() }
#[no_mangle] pub extern "C" fn q_intoarr(a: &[f32; 4], o: &mut [f32; 4]) { *o = Quaternion::new(a[0], a[1], a[2], a[3]).into() }
#[no_mangle] pub extern "C" fn q_tuple(a: &[f32; 4], o: &mut [f32; 4]) { let q = Quaternion::from((a[0], a[1], a[2], a[3])); *o = [q.w(), q.x(), q.y(), q.z()] }
#[no_mangle] pub extern "C" fn q_totuple(a: &[f32; 4], o: &mut [f32; 4]) { let (w, x, y, z): (f32, f32, f32, f32) = Quaternion::new(a[0], a[1], a[2], a[3]).into(); *o = [w, x, y, z] }
#[no_mangle] pub extern "C" fn q_fromv(v: &[f32; 3], o: &mut [f32; 4]) { *o = Quaternion::from(F32x3::from(*v)).into() }
#[no_mangle] pub extern "C" fn q_fromvi(v: &[i16; 3], o: &mut [f32; 4]) { *o = Quaternion::from(I16x3::from(*v)).into() }
#[no_mangle] pub extern "C" fn q_eq(a: &[f32; 4], b: &[f32; 4]) -> u8 { (Quaternion::from(*a) == Quaternion::from(*b)) as u8 }
#[no_mangle] pub extern "C" fn q_identity(o: &mut [f32; 4]) { *o = Quaternion::IDENTITY.into() }
#[no_mangle] pub extern "C" fn q_default(o: &mut [f32; 4]) { *o = Quaternion::default().into() }

