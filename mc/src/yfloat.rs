//! `f64` under the control of a scheduler: every arithmetic operation and comparison is a point at
//! which the running thread may be preempted (C33). The library is generic over its float type, so
//! this needs no change of it.
use ndarray::{NdFloat, ScalarOperand};
use num_traits::{Bounded, Float, FloatConst, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::iter::{Product, Sum};
use std::num::FpCategory;
use std::ops::*;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static HOOK: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}
/// Runs `f`, and `hook` just before its `at`-th operation. Returns the number of operations.
pub fn scheduled<T>(at: u64, hook: Box<dyn FnOnce()>, f: impl FnOnce() -> T) -> (T, u64) {
    COUNT.with(|c| c.set(0));
    AT.with(|c| c.set(at));
    HOOK.with(|h| *h.borrow_mut() = Some(hook));
    let r = f();
    AT.with(|c| c.set(u64::MAX));
    HOOK.with(|h| *h.borrow_mut() = None);
    (r, COUNT.with(|c| c.get()))
}
#[inline]
fn point() {
    let n = COUNT.with(|c| { let n = c.get(); c.set(n + 1); n });
    if n == AT.with(|c| c.get()) {
        let h = HOOK.with(|h| h.borrow_mut().take());
        if let Some(h) = h { h() }
    }
}

#[derive(Clone, Copy, Default)]
#[repr(transparent)]
pub struct Y(pub f64);
macro_rules! op { ($($t:ident $m:ident $ta:ident $ma:ident $o:tt),*) => { $(
    impl $t for Y { type Output = Y; fn $m(self, b: Y) -> Y { point(); Y(self.0 $o b.0) } }
    impl $ta for Y { fn $ma(&mut self, b: Y) { point(); self.0 = self.0 $o b.0; } }
    impl<'a> $t<&'a Y> for Y { type Output = Y; fn $m(self, b: &'a Y) -> Y { point(); Y(self.0 $o b.0) } }
    impl<'a> $ta<&'a Y> for Y { fn $ma(&mut self, b: &'a Y) { point(); self.0 = self.0 $o b.0; } }
)* } }
op!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /, Rem rem RemAssign rem_assign %);
impl Neg for Y { type Output = Y; fn neg(self) -> Y { point(); Y(-self.0) } }
impl PartialEq for Y { fn eq(&self, b: &Y) -> bool { point(); self.0 == b.0 } }
impl PartialOrd for Y { fn partial_cmp(&self, b: &Y) -> Option<std::cmp::Ordering> { point(); self.0.partial_cmp(&b.0) } }
impl Zero for Y { fn zero() -> Y { Y(0.0) } fn is_zero(&self) -> bool { point(); self.0 == 0.0 } }
impl One for Y { fn one() -> Y { Y(1.0) } }
impl Num for Y { type FromStrRadixErr = (); fn from_str_radix(s: &str, _: u32) -> Result<Y, ()> { s.parse().map(Y).map_err(|_| ()) } }
impl Bounded for Y { fn min_value() -> Y { Y(f64::MIN) } fn max_value() -> Y { Y(f64::MAX) } }
impl ToPrimitive for Y { fn to_i64(&self) -> Option<i64> { self.0.to_i64() } fn to_u64(&self) -> Option<u64> { self.0.to_u64() } fn to_f64(&self) -> Option<f64> { Some(self.0) } fn to_f32(&self) -> Option<f32> { Some(self.0 as f32) } }
impl NumCast for Y { fn from<T: ToPrimitive>(x: T) -> Option<Y> { x.to_f64().map(Y) } }
impl FromPrimitive for Y { fn from_i64(x: i64) -> Option<Y> { Some(Y(x as f64)) } fn from_u64(x: u64) -> Option<Y> { Some(Y(x as f64)) } fn from_f64(x: f64) -> Option<Y> { Some(Y(x)) } }
impl Signed for Y { fn abs(&self) -> Y { point(); Y(self.0.abs()) } fn abs_sub(&self, b: &Y) -> Y { point(); Y((self.0 - b.0).max(0.0)) } fn signum(&self) -> Y { Y(self.0.signum()) } fn is_positive(&self) -> bool { self.0 > 0.0 } fn is_negative(&self) -> bool { self.0 < 0.0 } }
impl Sum for Y { fn sum<I: Iterator<Item = Y>>(i: I) -> Y { i.fold(Y(0.0), |a, b| a + b) } }
impl<'a> Sum<&'a Y> for Y { fn sum<I: Iterator<Item = &'a Y>>(i: I) -> Y { i.fold(Y(0.0), |a, b| a + *b) } }
impl Product for Y { fn product<I: Iterator<Item = Y>>(i: I) -> Y { i.fold(Y(1.0), |a, b| a * b) } }
impl From<f32> for Y { fn from(x: f32) -> Y { Y(x as f64) } }
impl From<f64> for Y { fn from(x: f64) -> Y { Y(x) } }
impl From<Y> for f64 { fn from(x: Y) -> f64 { x.0 } }
impl fmt::Display for Y { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl fmt::Debug for Y { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl fmt::LowerExp for Y { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::LowerExp::fmt(&self.0, f) } }
impl fmt::UpperExp for Y { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::UpperExp::fmt(&self.0, f) } }
impl ScalarOperand for Y {}
impl NdFloat for Y {}
impl linfa_linalg::lobpcg::MagnitudeCorrection for Y { fn correction() -> Y { Y(1e6) } }
impl FloatConst for Y {
    fn E() -> Y { Y(std::f64::consts::E) }
    fn FRAC_1_PI() -> Y { Y(std::f64::consts::FRAC_1_PI) }
    fn FRAC_1_SQRT_2() -> Y { Y(std::f64::consts::FRAC_1_SQRT_2) }
    fn FRAC_2_PI() -> Y { Y(std::f64::consts::FRAC_2_PI) }
    fn FRAC_2_SQRT_PI() -> Y { Y(std::f64::consts::FRAC_2_SQRT_PI) }
    fn FRAC_PI_2() -> Y { Y(std::f64::consts::FRAC_PI_2) }
    fn FRAC_PI_3() -> Y { Y(std::f64::consts::FRAC_PI_3) }
    fn FRAC_PI_4() -> Y { Y(std::f64::consts::FRAC_PI_4) }
    fn FRAC_PI_6() -> Y { Y(std::f64::consts::FRAC_PI_6) }
    fn FRAC_PI_8() -> Y { Y(std::f64::consts::FRAC_PI_8) }
    fn LN_10() -> Y { Y(std::f64::consts::LN_10) }
    fn LN_2() -> Y { Y(std::f64::consts::LN_2) }
    fn LOG10_E() -> Y { Y(std::f64::consts::LOG10_E) }
    fn LOG2_E() -> Y { Y(std::f64::consts::LOG2_E) }
    fn PI() -> Y { Y(std::f64::consts::PI) }
    fn SQRT_2() -> Y { Y(std::f64::consts::SQRT_2) }
}
impl Float for Y {
    fn nan() -> Y { Y(<f64 as Float>::nan()) }
    fn infinity() -> Y { Y(<f64 as Float>::infinity()) }
    fn neg_infinity() -> Y { Y(<f64 as Float>::neg_infinity()) }
    fn neg_zero() -> Y { Y(<f64 as Float>::neg_zero()) }
    fn min_value() -> Y { Y(<f64 as Float>::min_value()) }
    fn min_positive_value() -> Y { Y(<f64 as Float>::min_positive_value()) }
    fn max_value() -> Y { Y(<f64 as Float>::max_value()) }
    fn epsilon() -> Y { Y(<f64 as Float>::epsilon()) }
    fn is_nan(self) -> bool { point(); Float::is_nan(self.0) }
    fn is_infinite(self) -> bool { point(); Float::is_infinite(self.0) }
    fn is_finite(self) -> bool { point(); Float::is_finite(self.0) }
    fn is_normal(self) -> bool { point(); Float::is_normal(self.0) }
    fn is_sign_positive(self) -> bool { point(); Float::is_sign_positive(self.0) }
    fn is_sign_negative(self) -> bool { point(); Float::is_sign_negative(self.0) }
    fn floor(self) -> Y { point(); Y(Float::floor(self.0)) }
    fn ceil(self) -> Y { point(); Y(Float::ceil(self.0)) }
    fn round(self) -> Y { point(); Y(Float::round(self.0)) }
    fn trunc(self) -> Y { point(); Y(Float::trunc(self.0)) }
    fn fract(self) -> Y { point(); Y(Float::fract(self.0)) }
    fn abs(self) -> Y { point(); Y(Float::abs(self.0)) }
    fn signum(self) -> Y { point(); Y(Float::signum(self.0)) }
    fn recip(self) -> Y { point(); Y(Float::recip(self.0)) }
    fn sqrt(self) -> Y { point(); Y(Float::sqrt(self.0)) }
    fn exp(self) -> Y { point(); Y(Float::exp(self.0)) }
    fn exp2(self) -> Y { point(); Y(Float::exp2(self.0)) }
    fn ln(self) -> Y { point(); Y(Float::ln(self.0)) }
    fn log2(self) -> Y { point(); Y(Float::log2(self.0)) }
    fn log10(self) -> Y { point(); Y(Float::log10(self.0)) }
    fn cbrt(self) -> Y { point(); Y(Float::cbrt(self.0)) }
    fn sin(self) -> Y { point(); Y(Float::sin(self.0)) }
    fn cos(self) -> Y { point(); Y(Float::cos(self.0)) }
    fn tan(self) -> Y { point(); Y(Float::tan(self.0)) }
    fn asin(self) -> Y { point(); Y(Float::asin(self.0)) }
    fn acos(self) -> Y { point(); Y(Float::acos(self.0)) }
    fn atan(self) -> Y { point(); Y(Float::atan(self.0)) }
    fn exp_m1(self) -> Y { point(); Y(Float::exp_m1(self.0)) }
    fn ln_1p(self) -> Y { point(); Y(Float::ln_1p(self.0)) }
    fn sinh(self) -> Y { point(); Y(Float::sinh(self.0)) }
    fn cosh(self) -> Y { point(); Y(Float::cosh(self.0)) }
    fn tanh(self) -> Y { point(); Y(Float::tanh(self.0)) }
    fn asinh(self) -> Y { point(); Y(Float::asinh(self.0)) }
    fn acosh(self) -> Y { point(); Y(Float::acosh(self.0)) }
    fn atanh(self) -> Y { point(); Y(Float::atanh(self.0)) }
    fn powf(self, b: Y) -> Y { point(); Y(Float::powf(self.0, b.0)) }
    fn log(self, b: Y) -> Y { point(); Y(Float::log(self.0, b.0)) }
    fn max(self, b: Y) -> Y { point(); Y(Float::max(self.0, b.0)) }
    fn min(self, b: Y) -> Y { point(); Y(Float::min(self.0, b.0)) }
    fn hypot(self, b: Y) -> Y { point(); Y(Float::hypot(self.0, b.0)) }
    fn atan2(self, b: Y) -> Y { point(); Y(Float::atan2(self.0, b.0)) }
    fn classify(self) -> FpCategory { self.0.classify() }
    fn mul_add(self, a: Y, b: Y) -> Y { point(); Y(self.0.mul_add(a.0, b.0)) }
    fn powi(self, n: i32) -> Y { point(); Y(self.0.powi(n)) }
    fn abs_sub(self, b: Y) -> Y { point(); Y((self.0 - b.0).max(0.0)) }
    fn sin_cos(self) -> (Y, Y) { point(); let (s, c) = self.0.sin_cos(); (Y(s), Y(c)) }
    fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
}
