#!/usr/bin/env python3
"""Writes src/lib.rs: one extern "C" entry point per micromath API.  Run by hand
when an entry point is added; the output is committed."""
out = []
w = out.append
w('''// @generated by gen.py -- one extern "C" entry point per micromath API.
//
// micromath is compiled here as the ordinary no_std dependency that its users get,
// so method calls inside it resolve exactly as they do for them (under `cargo test`
// the std inherent float methods shadow some of micromath's own).
#![no_std]
#![allow(clippy::missing_safety_doc)]
use micromath::statistics::trim::Trim;
use micromath::statistics::{Mean, StdDev, Variance};
use micromath::vector::*;
use micromath::{F32Ext, Quaternion, F32};

#[link(name = "c")]
extern "C" {
    fn abort() -> !;
}
// core is compiled for unwinding and refers to this symbol; nothing here unwinds
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    unsafe { abort() }
}
''')
un = "abs acos asin atan ceil cos cosh exp floor fract inv invsqrt ln log10 log2 recip round signum sin sqrt tan trunc atan_norm".split()
for f in [u for u in un if u != "acos"]:
    w(f'#[no_mangle] pub extern "C" fn f_{f}(x: f32) -> f32 {{ F32::{f}(F32(x)).0 }}')
for f in [u for u in un if u not in ("cosh",)]:
    w(f'#[no_mangle] pub extern "C" fn e_{f}(x: f32) -> f32 {{ F32Ext::{f}(x) }}')
bi = "atan2 copysign div_euclid hypot log powf rem_euclid".split()
for f in bi:
    w(f'#[no_mangle] pub extern "C" fn f_{f}(x: f32, y: f32) -> f32 {{ F32::{f}(F32(x), F32(y)).0 }}')
for f in bi + ["atan2_norm"]:
    w(f'#[no_mangle] pub extern "C" fn e_{f}(x: f32, y: f32) -> f32 {{ F32Ext::{f}(x, y) }}')
w('''
#[no_mangle] pub extern "C" fn f_powi(x: f32, n: i32) -> f32 { F32(x).powi(n).0 }
#[no_mangle] pub extern "C" fn e_powi(x: f32, n: i32) -> f32 { F32Ext::powi(x, n) }
#[no_mangle] pub extern "C" fn f_mul_add(x: f32, y: f32, z: f32) -> f32 { F32(x).mul_add(F32(y), F32(z)).0 }
#[no_mangle] pub extern "C" fn e_mul_add(x: f32, y: f32, z: f32) -> f32 { F32Ext::mul_add(x, y, z) }
#[no_mangle] pub extern "C" fn f_sin_cos(x: f32, o: &mut [f32; 2]) { let (s, c) = F32(x).sin_cos(); *o = [s.0, c.0] }
#[no_mangle] pub extern "C" fn e_sin_cos(x: f32, o: &mut [f32; 2]) { let (s, c) = F32Ext::sin_cos(x); *o = [s, c] }
''')
# operators
for name, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("rem", "%")):
    w(f'#[no_mangle] pub extern "C" fn op_{name}_pp(x: f32, y: f32) -> f32 {{ x {op} y }}')
    w(f'#[no_mangle] pub extern "C" fn op_{name}_ff(x: f32, y: f32) -> f32 {{ (F32(x) {op} F32(y)).0 }}')
    w(f'#[no_mangle] pub extern "C" fn op_{name}_fp(x: f32, y: f32) -> f32 {{ (F32(x) {op} y).0 }}')
    w(f'#[no_mangle] pub extern "C" fn op_{name}_pf(x: f32, y: f32) -> f32 {{ (x {op} F32(y)).0 }}')
    w(f'#[no_mangle] pub extern "C" fn op_{name}_aff(x: f32, y: f32) -> f32 {{ let mut a = F32(x); a {op}= F32(y); a.0 }}')
    w(f'#[no_mangle] pub extern "C" fn op_{name}_afp(x: f32, y: f32) -> f32 {{ let mut a = F32(x); a {op}= y; a.0 }}')
    if name != "rem":
        w(f'#[no_mangle] pub extern "C" fn op_{name}_apf(x: f32, y: f32) -> f32 {{ let mut a = x; a {op}= F32(y); a }}')
w('#[no_mangle] pub extern "C" fn op_neg_p(x: f32) -> f32 { -x }')
w('#[no_mangle] pub extern "C" fn op_neg_f(x: f32) -> f32 { (-F32(x)).0 }')
for name, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
    w(f'#[no_mangle] pub extern "C" fn cmp_{name}_pp(x: f32, y: f32) -> u8 {{ (x {op} y) as u8 }}')
    w(f'#[no_mangle] pub extern "C" fn cmp_{name}_ff(x: f32, y: f32) -> u8 {{ (F32(x) {op} F32(y)) as u8 }}')
    w(f'#[no_mangle] pub extern "C" fn cmp_{name}_fp(x: f32, y: f32) -> u8 {{ (F32(x) {op} y) as u8 }}')
    w(f'#[no_mangle] pub extern "C" fn cmp_{name}_pf(x: f32, y: f32) -> u8 {{ (x {op} F32(y)) as u8 }}')
w('''
fn ordc(o: Option<core::cmp::Ordering>) -> u8 { match o { None => 3, Some(core::cmp::Ordering::Less) => 0, Some(core::cmp::Ordering::Equal) => 1, Some(core::cmp::Ordering::Greater) => 2 } }
#[no_mangle] pub extern "C" fn cmp_ord_pp(x: f32, y: f32) -> u8 { ordc(x.partial_cmp(&y)) }
#[no_mangle] pub extern "C" fn cmp_ord_ff(x: f32, y: f32) -> u8 { ordc(F32(x).partial_cmp(&F32(y))) }
#[no_mangle] pub extern "C" fn cmp_ord_fp(x: f32, y: f32) -> u8 { ordc(F32(x).partial_cmp(&y)) }
#[no_mangle] pub extern "C" fn cmp_ord_pf(x: f32, y: f32) -> u8 { ordc(x.partial_cmp(&F32(y))) }
#[no_mangle] pub extern "C" fn cv_f32(x: f32) -> f32 { F32::from(x).into() }
#[no_mangle] pub extern "C" fn cv_i8(x: i8) -> f32 { F32::from(x).0 }
#[no_mangle] pub extern "C" fn cv_u8(x: u8) -> f32 { F32::from(x).0 }
#[no_mangle] pub extern "C" fn cv_i16(x: i16) -> f32 { F32::from(x).0 }
#[no_mangle] pub extern "C" fn cv_u16(x: u16) -> f32 { F32::from(x).0 }
#[no_mangle] pub extern "C" fn cv_to_bits(x: f32) -> u32 { F32(x).to_bits() }
#[no_mangle] pub extern "C" fn cv_from_bits(x: u32) -> f32 { F32::from_bits(x).0 }
#[no_mangle] pub extern "C" fn cls_f(x: f32) -> u8 { let x = F32(x); (x.is_nan() as u8) | (x.is_infinite() as u8) << 1 | (x.is_finite() as u8) << 2 | (x.is_sign_positive() as u8) << 3 | (x.is_sign_negative() as u8) << 4 }
#[no_mangle] pub extern "C" fn cls_p(x: f32) -> u8 { (x.is_nan() as u8) | (x.is_infinite() as u8) << 1 | (x.is_finite() as u8) << 2 | (x.is_sign_positive() as u8) << 3 | (x.is_sign_negative() as u8) << 4 }
#[no_mangle] pub extern "C" fn consts_f(o: &mut [f32; 9]) { *o = [F32::ZERO.0, F32::ONE.0, F32::EPSILON.0, F32::MIN.0, F32::MIN_POSITIVE.0, F32::MAX.0, F32::NAN.0, F32::INFINITY.0, F32::NEG_INFINITY.0] }
#[no_mangle] pub extern "C" fn consts_i(o: &mut [i32; 7]) { *o = [F32::RADIX as i32, F32::MANTISSA_DIGITS as i32, F32::DIGITS as i32, F32::MIN_EXP, F32::MAX_EXP, F32::MIN_10_EXP, F32::MAX_10_EXP] }
#[no_mangle] pub extern "C" fn cv_default() -> f32 { F32::default().0 }
#[no_mangle] pub extern "C" fn nt_zero() -> f32 { <F32 as micromath::num_traits::Zero>::zero().0 }
#[no_mangle] pub extern "C" fn nt_one() -> f32 { <F32 as micromath::num_traits::One>::one().0 }
#[no_mangle] pub extern "C" fn nt_is_zero(x: f32) -> u8 { micromath::num_traits::Zero::is_zero(&F32(x)) as u8 }
#[no_mangle] pub extern "C" fn nt_is_one(x: f32) -> u8 { micromath::num_traits::One::is_one(&F32(x)) as u8 }
#[no_mangle] pub extern "C" fn nt_inv(x: f32) -> f32 { micromath::num_traits::Inv::inv(F32(x)).0 }
''')
for n in (0, 1, 2, 3, 4):
    w(f'#[no_mangle] pub extern "C" fn sum_f{n}(a: &[f32; {n}]) -> f32 {{ a.iter().map(|v| F32(*v)).sum::<F32>().0 }}')
    w(f'#[no_mangle] pub extern "C" fn sum_p{n}(a: &[f32; {n}]) -> f32 {{ a.iter().copied().sum::<f32>() }}')
    w(f'#[no_mangle] pub extern "C" fn prod_f{n}(a: &[f32; {n}]) -> f32 {{ a.iter().map(|v| F32(*v)).product::<F32>().0 }}')
    w(f'#[no_mangle] pub extern "C" fn prod_p{n}(a: &[f32; {n}]) -> f32 {{ a.iter().copied().product::<f32>() }}')
# vectors
T = ["i8", "i16", "i32", "u8", "u16", "u32", "f32", "F32"]
def rt(t): return "f32" if t == "F32" else t
def wrap(t, e): return f"F32({e})" if t == "F32" else e
def unw(t, e): return f"({e}).0" if t == "F32" else e
for t in T:
    r = rt(t)
    for d in (2, 3):
        V = f"Vector{d}d::<{t}>"
        Vt = f"Vector{d}d<{t}>"
        mk = lambda a: f"Vector{d}d::<{t}>::from([" + ", ".join(wrap(t, f"{a}[{i}]") for i in range(d)) + "])"
        mk3 = None
        arr = lambda v, dd=d: f"{{ let t = {v}.to_array(); [" + ", ".join(unw(t, f"t[{i}]") for i in range(dd)) + "] }"
        A = f"a: &[{r}; {d}]"
        B = f"b: &[{r}; {d}]"
        O = f"o: &mut [{r}; {d}]"
        p = f"v{d}_{t}"
        w(f'#[no_mangle] pub extern "C" fn {p}_add({A}, {B}, {O}) {{ let v = {mk("a")} + {mk("b")}; *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_sub({A}, {B}, {O}) {{ let v = {mk("a")} - {mk("b")}; *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_adda({A}, {B}, {O}) {{ let mut v = {mk("a")}; v += {mk("b")}; *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_suba({A}, {B}, {O}) {{ let mut v = {mk("a")}; v -= {mk("b")}; *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_muls({A}, k: {r}, {O}) {{ let v = {mk("a")} * {wrap(t,"k")}; *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_smul({A}, k: {r}, {O}) {{ let v = {wrap(t,"k")} * {mk("a")}; *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_mulsa({A}, k: {r}, {O}) {{ let mut v = {mk("a")}; v *= {wrap(t,"k")}; *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_divs({A}, k: {r}, {O}) {{ let v = {mk("a")} / {wrap(t,"k")}; *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_divsa({A}, k: {r}, {O}) {{ let mut v = {mk("a")}; v /= {wrap(t,"k")}; *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_dot({A}, {B}) -> {r} {{ {unw(t, mk("a") + ".dot(" + mk("b") + ")")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_tdot({A}, {B}) -> {r} {{ {unw(t, "Vector::dot(" + mk("a") + ", " + mk("b") + ")")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_cross({A}, {B}, o: &mut [{r}; 3]) {{ let v = {mk("a")}.cross({mk("b")}); *o = {arr("v",3)} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_mulv({A}, {B}, o: &mut [{r}; 3]) {{ let v = {mk("a")} * {mk("b")}; *o = {arr("v",3)} }}')
        if d == 2:
            w(f'#[no_mangle] pub extern "C" fn {p}_perp({A}, {B}) -> {r} {{ {unw(t, mk("a") + ".perpendicular_dot(" + mk("b") + ")")} }}')
            w(f'#[no_mangle] pub extern "C" fn v3_{t}_from2({A}, o: &mut [{r}; 3]) {{ let v = Vector3d::<{t}>::from({mk("a")}); *o = {arr("v",3)} }}')
        vs = ", ".join(f"Vector{d}d::<{t}>::from([" + ", ".join(wrap(t, f"a[{k*d+i}]") for i in range(d)) + "])" for k in range(3))
        w(f'#[no_mangle] pub extern "C" fn {p}_sum3(a: &[{r}; {3*d}], {O}) {{ let s = [{vs}]; let v: {Vt} = s.iter().copied().sum(); *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_sumr3(a: &[{r}; {3*d}], {O}) {{ let s = [{vs}]; let v: {Vt} = s.iter().sum(); *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_sum0({O}) {{ let v: {Vt} = core::iter::empty::<{Vt}>().sum(); *o = {arr("v")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_eq({A}, {B}) -> u8 {{ ({mk("a")} == {mk("b")}) as u8 }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_index({A}, i: usize) -> {r} {{ {unw(t, mk("a") + "[i]")} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_get({A}, i: usize, o: &mut {r}) -> u8 {{ match {mk("a")}.get(i) {{ Some(v) => {{ *o = {unw(t,"v")}; 1 }} None => 0 }} }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_iter({A}, o: &mut [{r}; {d+2}]) -> usize {{ let v = {mk("a")}; let mut n = 0; for c in v.iter() {{ if n < {d+2} {{ o[n] = {unw(t,"c")}; }} n += 1; if n > 8 {{ break; }} }} n }}')
        w(f'#[no_mangle] pub extern "C" fn {p}_iterfused({A}) -> u8 {{ let v = {mk("a")}; let mut it = v.iter(); for _ in 0..{d} {{ let _ = it.next(); }} (it.next().is_none() && it.next().is_none() && it.next().is_none()) as u8 }}')
        tup = "(" + ", ".join(wrap(t, f"a[{i}]") for i in range(d)) + ")"
        pat = "(" + ", ".join("xyz"[i] for i in range(d)) + ")"
        tt = "(" + ", ".join([t]*d) + ")"
        w(f'#[no_mangle] pub extern "C" fn {p}_tuple({A}, {O}) {{ let v = {V}::from({tup}); *o = [' + ", ".join(unw(t, "v." + "xyz"[i]) for i in range(d)) + '] }')
        w(f'#[no_mangle] pub extern "C" fn {p}_totuple({A}, {O}) {{ let {pat}: {tt} = {mk("a")}.into(); *o = [' + ", ".join(unw(t, "xyz"[i]) for i in range(d)) + '] }')
        w(f'#[no_mangle] pub extern "C" fn {p}_fields({A}, {O}) {{ let v = {mk("a")}; *o = [' + ", ".join(unw(t, "v." + "xyz"[i]) for i in range(d)) + '] }')
        w(f'#[no_mangle] pub extern "C" fn {p}_toarr({A}, {O}) {{ let s: [{t}; {d}] = {mk("a")}.into(); *o = [' + ", ".join(unw(t, f"s[{i}]") for i in range(d)) + '] }')
        w(f'#[no_mangle] pub extern "C" fn {p}_default({O}) {{ let v = {V}::default(); *o = {arr("v")} }}')
        if t != "F32":
            w(f'#[no_mangle] pub extern "C" fn {p}_fromslice(a: &[{r}; {d+3}], n: usize, {O}) {{ let n = if n > {d+3} {{ {d+3} }} else {{ n }}; let v = {V}::from_slice(&a[..n]); *o = {arr("v")} }}')
            w(f'#[no_mangle] pub extern "C" fn {p}_fromiter(a: &[{r}; {d+3}], n: usize, {O}) {{ let n = if n > {d+3} {{ {d+3} }} else {{ n }}; let v: {Vt} = a[..n].iter().copied().collect(); *o = {arr("v")} }}')
            w(f'#[no_mangle] pub extern "C" fn {p}_magsq({A}) -> {r} {{ {mk("a")}.magnitude_sq() }}')
        else:
            w(f'#[no_mangle] pub extern "C" fn {p}_magsq({A}) -> {r} {{ {mk("a")}.magnitude_sq().0 }}')
        if t not in ("i32", "u32"):
            w(f'#[no_mangle] pub extern "C" fn {p}_mag({A}) -> f32 {{ {mk("a")}.magnitude() }}')
            w(f'#[no_mangle] pub extern "C" fn {p}_dist({A}, {B}) -> f32 {{ {mk("a")}.distance({mk("b")}) }}')
        if t in ("f32", "F32"):
            w(f'#[no_mangle] pub extern "C" fn {p}_norm({A}, {O}) {{ let v = {mk("a")}.normalized(); *o = {arr("v")} }}')
        if t in ("i8", "i16", "u8", "u16") or (t == "F32" and d == 3):
            w(f'#[no_mangle] pub extern "C" fn {p}_tof32({A}, o: &mut [f32; {d}]) {{ let v = F32x{d}::from({mk("a")}); *o = v.to_array() }}')
# statistics
for n in (17, 300):
    w(f'#[no_mangle] pub extern "C" fn st_mean{n}(a: &[f32; {n}]) -> f32 {{ a.iter().copied().mean() }}')
    w(f'#[no_mangle] pub extern "C" fn st_var{n}(a: &[f32; {n}]) -> f32 {{ a[..].variance() }}')
    w(f'#[no_mangle] pub extern "C" fn st_std{n}(a: &[f32; {n}]) -> f32 {{ a[..].stddev() }}')
for n in (1, 2, 3, 4, 5, 6):
    w(f'#[no_mangle] pub extern "C" fn st_mean{n}(a: &[f32; {n}]) -> f32 {{ a.iter().copied().mean() }}')
    w(f'#[no_mangle] pub extern "C" fn st_var{n}(a: &[f32; {n}]) -> f32 {{ a[..].variance() }}')
    w(f'#[no_mangle] pub extern "C" fn st_std{n}(a: &[f32; {n}]) -> f32 {{ a[..].stddev() }}')
    w(f'#[no_mangle] pub extern "C" fn st_trim{n}(a: &[f32; {n}], t: f32, o: &mut [f32; {n}]) -> usize {{ let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim_at(t) {{ if n < {n} {{ o[n] = v; }} n += 1; }} n }}')
    w(f'#[no_mangle] pub extern "C" fn st_trimd{n}(a: &[f32; {n}], o: &mut [f32; {n}]) -> usize {{ let s: &[f32] = &a[..]; let mut n = 0; for v in s.trim() {{ if n < {n} {{ o[n] = v; }} n += 1; }} n }}')
for t in ("i8", "u8", "i16", "u16"):
    w(f'#[no_mangle] pub extern "C" fn st_var_{t}(a: &[{t}; 3]) -> f32 {{ a[..].variance() }}')
    w(f'#[no_mangle] pub extern "C" fn st_std_{t}(a: &[{t}; 3]) -> f32 {{ a[..].stddev() }}')
    w(f'#[no_mangle] pub extern "C" fn st_trim_{t}(a: &[{t}; 3], t: f32, o: &mut [{t}; 3]) -> usize {{ let s: &[{t}] = &a[..]; let mut n = 0; for v in s.trim_at(t) {{ if n < 3 {{ o[n] = v; }} n += 1; }} n }}')
w('#[no_mangle] pub extern "C" fn st_mean0() -> f32 { core::iter::empty::<f32>().mean() }')
# quaternions
Q = "a: &[f32; 4]"; Q2 = "b: &[f32; 4]"; QO = "o: &mut [f32; 4]"
qa = "Quaternion::from(*a)"; qb = "Quaternion::from(*b)"
for nm, e in (("mul", f"{qa} * {qb}"), ("add", f"{qa} + {qb}"), ("sub", f"{qa} - {qb}")):
    w(f'#[no_mangle] pub extern "C" fn q_{nm}({Q}, {Q2}, {QO}) {{ *o = ({e}).into() }}')
w(f'''
#[no_mangle] pub extern "C" fn q_adda({Q}, {Q2}, {QO}) {{ let mut q = {qa}; q += {qb}; *o = q.into() }}
#[no_mangle] pub extern "C" fn q_suba({Q}, {Q2}, {QO}) {{ let mut q = {qa}; q -= {qb}; *o = q.into() }}
#[no_mangle] pub extern "C" fn q_conj({Q}, {QO}) {{ *o = {qa}.conj().into() }}
#[no_mangle] pub extern "C" fn q_inv({Q}, {QO}) {{ *o = {qa}.inv().into() }}
#[no_mangle] pub extern "C" fn q_normalize({Q}, {QO}) {{ *o = {qa}.normalize().into() }}
#[no_mangle] pub extern "C" fn q_dot({Q}, {Q2}) -> f32 {{ {qa}.dot({qb}) }}
#[no_mangle] pub extern "C" fn q_norm({Q}) -> f32 {{ {qa}.norm() }}
#[no_mangle] pub extern "C" fn q_mag({Q}) -> f32 {{ {qa}.magnitude() }}
#[no_mangle] pub extern "C" fn q_scale({Q}, k: f32, {QO}) {{ *o = {qa}.scale(k).into() }}
#[no_mangle] pub extern "C" fn q_scalef({Q}, k: f32, {QO}) {{ *o = {qa}.scale(F32(k)).into() }}
#[no_mangle] pub extern "C" fn q_mulk({Q}, k: f32, {QO}) {{ *o = ({qa} * k).into() }}
#[no_mangle] pub extern "C" fn q_kmul({Q}, k: f32, {QO}) {{ *o = (k * {qa}).into() }}
#[no_mangle] pub extern "C" fn q_mulka({Q}, k: f32, {QO}) {{ let mut q = {qa}; q *= k; *o = q.into() }}
#[no_mangle] pub extern "C" fn q_rotate({Q}, v: &[f32; 3], o: &mut [f32; 3]) {{ *o = {qa}.rotate(F32x3::from(*v)).to_array() }}
#[no_mangle] pub extern "C" fn q_mulv({Q}, v: &[f32; 3], o: &mut [f32; 3]) {{ *o = ({qa} * F32x3::from(*v)).to_array() }}
#[no_mangle] pub extern "C" fn q_rotate_i8({Q}, v: &[i8; 3], o: &mut [f32; 3]) {{ *o = {qa}.rotate(I8x3::from(*v)).to_array() }}
#[no_mangle] pub extern "C" fn q_axis(v: &[f32; 3], t: f32, {QO}) {{ *o = Quaternion::axis_angle(F32x3::from(*v), t).into() }}
#[no_mangle] pub extern "C" fn q_two(u: &[f32; 3], v: &[f32; 3], {QO}) {{ *o = Quaternion::from_two_vectors(F32x3::from(*u), F32x3::from(*v)).into() }}
#[no_mangle] pub extern "C" fn q_euler({Q}, o: &mut [f32; 3]) {{ let (r, p, y) = {qa}.to_euler(); *o = [r, p, y] }}
#[no_mangle] pub extern "C" fn q_new({Q}, {QO}) {{ let q = Quaternion::new(a[0], a[1], a[2], a[3]); *o = [q.w(), q.x(), q.y(), q.z()] }}
#[no_mangle] pub extern "C" fn q_acc({Q}, {QO}) {{ let q = {qa}; *o = [q.w(), q.x(), q.y(), q.z()] }}
#[no_mangle] pub extern "C" fn q_toarr({Q}, {QO}) {{ *o = Quaternion::new(a[0], a[1], a[2], a[3]).to_array() }}
#[no_mangle] pub extern "C" fn q_intoarr({Q}, {QO}) {{ *o = Quaternion::new(a[0], a[1], a[2], a[3]).into() }}
#[no_mangle] pub extern "C" fn q_tuple({Q}, {QO}) {{ let q = Quaternion::from((a[0], a[1], a[2], a[3])); *o = [q.w(), q.x(), q.y(), q.z()] }}
#[no_mangle] pub extern "C" fn q_totuple({Q}, {QO}) {{ let (w, x, y, z): (f32, f32, f32, f32) = Quaternion::new(a[0], a[1], a[2], a[3]).into(); *o = [w, x, y, z] }}
#[no_mangle] pub extern "C" fn q_fromv(v: &[f32; 3], {QO}) {{ *o = Quaternion::from(F32x3::from(*v)).into() }}
#[no_mangle] pub extern "C" fn q_fromvi(v: &[i16; 3], {QO}) {{ *o = Quaternion::from(I16x3::from(*v)).into() }}
#[no_mangle] pub extern "C" fn q_eq({Q}, {Q2}) -> u8 {{ ({qa} == {qb}) as u8 }}
#[no_mangle] pub extern "C" fn q_identity({QO}) {{ *o = Quaternion::IDENTITY.into() }}
#[no_mangle] pub extern "C" fn q_default({QO}) {{ *o = Quaternion::default().into() }}
''')
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src/lib.rs"), "w").write("\n".join(x for x in out if x) + "\n")
