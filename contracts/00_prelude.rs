use vstd::prelude::*;
pub mod prelude {
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {

// ===================================================================================
// Floats. Every operation is an uninterpreted function of its operands (IEEE binary64 is
// deterministic); the only facts used are the axioms in `float axioms`, each of which is
// discharged bit-precisely by CBMC (see floatlemmas/).
// ===================================================================================
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F64 { x: f64 }
pub uninterp spec fn fadd(a: F64, b: F64) -> F64;
pub uninterp spec fn fsub(a: F64, b: F64) -> F64;
pub uninterp spec fn fmul(a: F64, b: F64) -> F64;
pub uninterp spec fn fdiv(a: F64, b: F64) -> F64;
pub uninterp spec fn fneg(a: F64) -> F64;
pub uninterp spec fn fabs(a: F64) -> F64;
pub uninterp spec fn fmax(a: F64, b: F64) -> F64;
pub uninterp spec fn fmin(a: F64, b: F64) -> F64;
pub uninterp spec fn fsqrt(a: F64) -> F64;
pub uninterp spec fn fclamp(a: F64, lo: F64, hi: F64) -> F64;
pub uninterp spec fn flt(a: F64, b: F64) -> bool;
pub uninterp spec fn fle(a: F64, b: F64) -> bool;
pub uninterp spec fn feq(a: F64, b: F64) -> bool;
pub uninterp spec fn fnan(a: F64) -> bool;
pub uninterp spec fn ffinite(a: F64) -> bool;
pub uninterp spec fn fcmp(a: F64, b: F64) -> Ordering;
pub uninterp spec fn fofnat(n: nat) -> F64;
pub uninterp spec fn ftousize(a: F64) -> usize;
pub uninterp spec fn sp_lit(bits: u64) -> F64;
pub uninterp spec fn sp_const_infinity() -> F64;
pub uninterp spec fn sp_const_neg_infinity() -> F64;
pub uninterp spec fn sp_const_nan() -> F64;
pub uninterp spec fn sp_const_max() -> F64;
pub uninterp spec fn sp_const_min() -> F64;
pub uninterp spec fn sp_const_epsilon() -> F64;
pub open spec fn fgt(a: F64, b: F64) -> bool { flt(b, a) }
pub open spec fn fge(a: F64, b: F64) -> bool { fle(b, a) }
pub open spec fn f0() -> F64 { sp_lit(0u64) }

// float axioms (each discharged by CBMC, floatlemmas/)
#[verifier::external_body] pub proof fn axiom_fcmp_antisym(a: F64, b: F64) requires fcmp(a, b) != Ordering::Greater, fcmp(b, a) != Ordering::Greater ensures a == b { }

/// the total order of f64::total_cmp
#[verifier::external_body] pub broadcast proof fn axiom_fcmp_flip(a: F64, b: F64) ensures (#[trigger] fcmp(a, b) == Ordering::Greater) ==> fcmp(b, a) == Ordering::Less { }
#[verifier::external_body] pub proof fn axiom_fcmp_trans(a: F64, b: F64, c: F64) requires fcmp(a, b) != Ordering::Greater, fcmp(b, c) != Ordering::Greater ensures fcmp(a, c) != Ordering::Greater { }
#[verifier::external_body] pub proof fn axiom_fcmp_refl(a: F64) ensures fcmp(a, a) == Ordering::Equal { }
/// the numeric order agrees with the total order
#[verifier::external_body] pub broadcast proof fn axiom_flt_fcmp(a: F64, b: F64) requires #[trigger] flt(a, b) ensures fcmp(b, a) == Ordering::Greater { }
#[verifier::external_body] pub proof fn axiom_not_flt_trans(a: F64, b: F64, c: F64) requires !fnan(a), !fnan(b), !fnan(c), !flt(a, b), !flt(b, c) ensures !flt(a, c) { }
#[verifier::external_body] pub proof fn axiom_nan_flt(a: F64, b: F64) requires fnan(a) || fnan(b) ensures !flt(a, b) { }
/// a proper finite interval, as ScatterSearch::new tests it
#[verifier::external_body] pub broadcast proof fn axiom_interval(l: F64, u: F64) requires !fle(u, l), #[trigger] ffinite(fsub(u, l)) ensures flt(l, u), fle(l, u), ffinite(l), ffinite(u), !fnan(l), !fnan(u) { }
#[verifier::external_body] pub broadcast proof fn axiom_between_finite(l: F64, u: F64, x: F64) requires ffinite(l), ffinite(u), !fnan(x), !#[trigger] flt(x, l), !#[trigger] flt(u, x) ensures ffinite(x) { }
#[verifier::external_body] pub broadcast proof fn axiom_clamp(x: F64, l: F64, u: F64) requires !fnan(x), flt(l, u) ensures !fnan(#[trigger] fclamp(x, l, u)), !flt(fclamp(x, l, u), l), !flt(u, fclamp(x, l, u)) { }
/// the midpoint of a proper finite interval lies in it
#[verifier::external_body] pub broadcast proof fn axiom_mid(l: F64, u: F64) requires flt(l, u), ffinite(fsub(u, l)) ensures ({ let m = #[trigger] fadd(fdiv(l, sp_lit(4611686018427387904u64)), fdiv(u, sp_lit(4611686018427387904u64))); !fnan(m) && !flt(m, l) && !flt(u, m) }) { }
#[verifier::external_body] pub broadcast proof fn axiom_ends(l: F64, u: F64) requires flt(l, u) ensures !#[trigger] flt(u, l), !flt(l, l), !flt(u, u) { }
/// finite numbers and NaN
#[verifier::external_body] pub broadcast proof fn axiom_add_not_nan(x: F64, y: F64) requires !fnan(x), ffinite(y) ensures !fnan(#[trigger] fadd(x, y)) { }
#[verifier::external_body] pub broadcast proof fn axiom_finite_not_nan(x: F64) requires #[trigger] ffinite(x) ensures !fnan(x) { }
#[verifier::external_body] pub broadcast proof fn axiom_half_not_nan(x: F64) requires !fnan(x) ensures !fnan(#[trigger] fdiv(x, sp_lit(4611686018427387904u64))) { }
#[verifier::external_body] pub broadcast proof fn axiom_mul_unit(x: F64, t: F64) requires ffinite(x), unit(t) ensures ffinite(#[trigger] fmul(x, t)) { }
#[verifier::external_body] pub broadcast proof fn axiom_unit_mul(x: F64, t: F64) requires ffinite(x), unit(t) ensures ffinite(#[trigger] fmul(t, x)) { }
#[verifier::external_body] pub broadcast proof fn axiom_mul_not_nan(x: F64, t: F64) requires ffinite(x), ffinite(t) ensures !fnan(#[trigger] fmul(x, t)) { }
/// |t| <= 1
pub open spec fn unit(t: F64) -> bool { !fnan(t) && !flt(sp_lit(4607182418800017408u64), fabs(t)) }
/// the weights 0.25, 0.5, 0.75, 1.25 of the linear combinations and the range of the perturbation
#[verifier::external_body] pub broadcast proof fn axiom_weights(t: F64) requires t == sp_lit(4598175219545276416u64) || t == sp_lit(4602678819172646912u64) || t == sp_lit(4604930618986332160u64) || t == sp_lit(4608308318706860032u64) ensures ffinite(t), unit(#[trigger] fsub(sp_lit(4607182418800017408u64), t)) { }
#[verifier::external_body] pub broadcast proof fn axiom_pert(t: F64) requires !fnan(t), !#[trigger] flt(t, sp_lit(13815242216921733530u64)), !flt(sp_lit(4591870180066957722u64), t) ensures unit(t) { }
#[verifier::external_body] pub proof fn axiom_pert_range() ensures flt(sp_lit(13815242216921733530u64), sp_lit(4591870180066957722u64)), ffinite(fsub(sp_lit(4591870180066957722u64), sp_lit(13815242216921733530u64))), fle(sp_lit(13815242216921733530u64), sp_lit(4591870180066957722u64)) { }
pub broadcast group group_box { axiom_interval, axiom_between_finite, axiom_clamp, axiom_mid, axiom_ends, axiom_add_not_nan, axiom_finite_not_nan, axiom_half_not_nan, axiom_mul_unit, axiom_unit_mul, axiom_mul_not_nan, axiom_weights, axiom_pert }

#[verifier::external_body] pub fn flit(bits: u64) -> (r: F64) ensures r == sp_lit(bits) { unimplemented!() }
#[verifier::external_body] pub fn fconst_infinity() -> (r: F64) ensures r == sp_const_infinity() { unimplemented!() }
#[verifier::external_body] pub fn fconst_neg_infinity() -> (r: F64) ensures r == sp_const_neg_infinity() { unimplemented!() }
#[verifier::external_body] pub fn fconst_nan() -> (r: F64) ensures r == sp_const_nan() { unimplemented!() }
#[verifier::external_body] pub fn fconst_max() -> (r: F64) ensures r == sp_const_max() { unimplemented!() }
#[verifier::external_body] pub fn fconst_min() -> (r: F64) ensures r == sp_const_min() { unimplemented!() }
#[verifier::external_body] pub fn fconst_epsilon() -> (r: F64) ensures r == sp_const_epsilon() { unimplemented!() }

pub trait DerefF: Sized { spec fn df(self) -> F64; }
impl DerefF for F64 { open spec fn df(self) -> F64 { self } }
impl<'a> DerefF for &'a F64 { open spec fn df(self) -> F64 { *self } }
impl<'a, 'b> DerefF for &'a &'b F64 { open spec fn df(self) -> F64 { **self } }
impl PartialEq for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> (r: bool) ensures r == feq(*self, *o) { unimplemented!() } }
impl PartialOrd for F64 {
    #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body] fn lt(&self, o: &F64) -> (r: bool) ensures r == flt(*self, *o) { unimplemented!() }
    #[verifier::external_body] fn le(&self, o: &F64) -> (r: bool) ensures r == fle(*self, *o) { unimplemented!() }
    #[verifier::external_body] fn gt(&self, o: &F64) -> (r: bool) ensures r == fgt(*self, *o) { unimplemented!() }
    #[verifier::external_body] fn ge(&self, o: &F64) -> (r: bool) ensures r == fge(*self, *o) { unimplemented!() }
}
impl core::ops::Neg for F64 { type Output = F64; #[verifier::external_body] fn neg(self) -> (r: F64) ensures r == fneg(self) { unimplemented!() } }
impl F64 {
    #[verifier::external_body] pub fn abs(self) -> (r: F64) ensures r == fabs(self) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: F64) ensures r == fsqrt(self) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: F64) -> (r: F64) ensures r == fmin(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: F64) -> (r: F64) ensures r == fmax(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == fnan(self) { unimplemented!() }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == ffinite(self) { unimplemented!() }
    #[verifier::external_body] pub fn total_cmp(&self, o: &F64) -> (r: Ordering) ensures r == fcmp(*self, *o) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: F64) ensures n == 2 ==> r == fmul(self, self) { unimplemented!() }
    pub open spec fn sp_abs(self) -> F64 { fabs(self) }
    pub open spec fn sp_neg(self) -> F64 { fneg(self) }
    pub open spec fn sp_total_cmp<D: DerefF>(self, o: D) -> Ordering { fcmp(self, o.df()) }
    pub open spec fn sp_is_nan(self) -> bool { fnan(self) }
    pub open spec fn sp_is_finite(self) -> bool { ffinite(self) }
    pub open spec fn sp_max(self, o: F64) -> F64 { fmax(self, o) }
    pub open spec fn sp_min(self, o: F64) -> F64 { fmin(self, o) }
    pub open spec fn sp_as_usize(self) -> usize { ftousize(self) }
    pub open spec fn sp_sqrt(self) -> F64 { fsqrt(self) }
    #[verifier::external_body] pub fn as_usize(self) -> (r: usize) ensures r == ftousize(self) { unimplemented!() }
}

// ----------------------------------------------------------------------- casts
pub trait AsF: Sized { spec fn sp_as_f64(self) -> F64; fn as_f64(self) -> (r: F64) ensures r == self.sp_as_f64(); }
impl AsF for usize { open spec fn sp_as_f64(self) -> F64 { fofnat(self as nat) } #[verifier::external_body] fn as_f64(self) -> (r: F64) { unimplemented!() } }
pub trait AsU: Sized { spec fn sp_as_usize(self) -> usize; fn as_usize(self) -> (r: usize) ensures r == self.sp_as_usize(); }
impl AsU for u64 { open spec fn sp_as_usize(self) -> usize { self as usize } fn as_usize(self) -> (r: usize) { self as usize } }
impl AsU for u32 { open spec fn sp_as_usize(self) -> usize { self as usize } fn as_usize(self) -> (r: usize) { self as usize } }
impl AsU for usize { open spec fn sp_as_usize(self) -> usize { self } fn as_usize(self) -> (r: usize) { self } }
pub trait AsU64: Sized { spec fn sp_as_u64(self) -> u64; fn as_u64(self) -> (r: u64) ensures r == self.sp_as_u64(); }
impl AsU64 for usize { open spec fn sp_as_u64(self) -> u64 { self as u64 } fn as_u64(self) -> (r: u64) { self as u64 } }
impl AsU64 for u32 { open spec fn sp_as_u64(self) -> u64 { self as u64 } fn as_u64(self) -> (r: u64) { self as u64 } }

// ----------------------------------------------------------------------- arithmetic
pub trait OpAdd<R>: Sized { type Out; spec fn add_rq(self, o: R) -> bool; spec fn sp_add(self, o: R) -> Self::Out; fn op_add(self, o: R) -> (r: Self::Out) requires self.add_rq(o) ensures r == self.sp_add(o); }
pub trait OpSub<R>: Sized { type Out; spec fn sub_rq(self, o: R) -> bool; spec fn sp_sub(self, o: R) -> Self::Out; fn op_sub(self, o: R) -> (r: Self::Out) requires self.sub_rq(o) ensures r == self.sp_sub(o); }
pub trait OpMul<R>: Sized { type Out; spec fn mul_rq(self, o: R) -> bool; spec fn sp_mul(self, o: R) -> Self::Out; fn op_mul(self, o: R) -> (r: Self::Out) requires self.mul_rq(o) ensures r == self.sp_mul(o); }
pub trait OpDiv<R>: Sized { type Out; spec fn div_rq(self, o: R) -> bool; spec fn sp_div(self, o: R) -> Self::Out; fn op_div(self, o: R) -> (r: Self::Out) requires self.div_rq(o) ensures r == self.sp_div(o); }
pub trait OpRem<R>: Sized { type Out; spec fn rem_rq(self, o: R) -> bool; spec fn sp_rem(self, o: R) -> Self::Out; fn op_rem(self, o: R) -> (r: Self::Out) requires self.rem_rq(o) ensures r == self.sp_rem(o); }
impl OpAdd<F64> for F64 { type Out = F64; open spec fn add_rq(self, o: F64) -> bool { true } open spec fn sp_add(self, o: F64) -> F64 { fadd(self, o) } #[verifier::external_body] fn op_add(self, o: F64) -> (r: F64) { unimplemented!() } }
impl<'a> OpAdd<&'a F64> for F64 { type Out = F64; open spec fn add_rq(self, o: &'a F64) -> bool { true } open spec fn sp_add(self, o: &'a F64) -> F64 { fadd(self, *o) } #[verifier::external_body] fn op_add(self, o: &'a F64) -> (r: F64) { unimplemented!() } }
impl<'a> OpSub<&'a F64> for F64 { type Out = F64; open spec fn sub_rq(self, o: &'a F64) -> bool { true } open spec fn sp_sub(self, o: &'a F64) -> F64 { fsub(self, *o) } #[verifier::external_body] fn op_sub(self, o: &'a F64) -> (r: F64) { unimplemented!() } }
impl<'a> OpMul<&'a F64> for F64 { type Out = F64; open spec fn mul_rq(self, o: &'a F64) -> bool { true } open spec fn sp_mul(self, o: &'a F64) -> F64 { fmul(self, *o) } #[verifier::external_body] fn op_mul(self, o: &'a F64) -> (r: F64) { unimplemented!() } }
impl<'a> OpDiv<&'a F64> for F64 { type Out = F64; open spec fn div_rq(self, o: &'a F64) -> bool { true } open spec fn sp_div(self, o: &'a F64) -> F64 { fdiv(self, *o) } #[verifier::external_body] fn op_div(self, o: &'a F64) -> (r: F64) { unimplemented!() } }
impl OpSub<F64> for F64 { type Out = F64; open spec fn sub_rq(self, o: F64) -> bool { true } open spec fn sp_sub(self, o: F64) -> F64 { fsub(self, o) } #[verifier::external_body] fn op_sub(self, o: F64) -> (r: F64) { unimplemented!() } }
impl OpMul<F64> for F64 { type Out = F64; open spec fn mul_rq(self, o: F64) -> bool { true } open spec fn sp_mul(self, o: F64) -> F64 { fmul(self, o) } #[verifier::external_body] fn op_mul(self, o: F64) -> (r: F64) { unimplemented!() } }
impl OpDiv<F64> for F64 { type Out = F64; open spec fn div_rq(self, o: F64) -> bool { true } open spec fn sp_div(self, o: F64) -> F64 { fdiv(self, o) } #[verifier::external_body] fn op_div(self, o: F64) -> (r: F64) { unimplemented!() } }
impl OpAdd<usize> for usize { type Out = usize; open spec fn add_rq(self, o: usize) -> bool { self + o <= usize::MAX } open spec fn sp_add(self, o: usize) -> usize { (self + o) as usize } fn op_add(self, o: usize) -> (r: usize) { self + o } }
impl OpSub<usize> for usize { type Out = usize; open spec fn sub_rq(self, o: usize) -> bool { self >= o } open spec fn sp_sub(self, o: usize) -> usize { (self - o) as usize } fn op_sub(self, o: usize) -> (r: usize) { self - o } }
impl OpMul<usize> for usize { type Out = usize; open spec fn mul_rq(self, o: usize) -> bool { self * o <= usize::MAX } open spec fn sp_mul(self, o: usize) -> usize { (self * o) as usize } fn op_mul(self, o: usize) -> (r: usize) { self * o } }
impl OpDiv<usize> for usize { type Out = usize; open spec fn div_rq(self, o: usize) -> bool { o != 0 } open spec fn sp_div(self, o: usize) -> usize { (self as int / o as int) as usize } fn op_div(self, o: usize) -> (r: usize) { self / o } }
impl OpRem<usize> for usize { type Out = usize; open spec fn rem_rq(self, o: usize) -> bool { o != 0 } open spec fn sp_rem(self, o: usize) -> usize { (self as int % o as int) as usize } fn op_rem(self, o: usize) -> (r: usize) { self % o } }
impl OpAdd<u64> for u64 { type Out = u64; open spec fn add_rq(self, o: u64) -> bool { self + o <= u64::MAX } open spec fn sp_add(self, o: u64) -> u64 { (self + o) as u64 } fn op_add(self, o: u64) -> (r: u64) { self + o } }
impl OpSub<u64> for u64 { type Out = u64; open spec fn sub_rq(self, o: u64) -> bool { self >= o } open spec fn sp_sub(self, o: u64) -> u64 { (self - o) as u64 } fn op_sub(self, o: u64) -> (r: u64) { self - o } }

// comparisons in spec mode (closure postconditions)
pub trait SpCmp<R>: Sized { spec fn sp_lt(self, o: R) -> bool; spec fn sp_le(self, o: R) -> bool; spec fn sp_gt(self, o: R) -> bool; spec fn sp_ge(self, o: R) -> bool; spec fn sp_eq(self, o: R) -> bool; spec fn sp_ne(self, o: R) -> bool; }
impl SpCmp<F64> for F64 { open spec fn sp_lt(self, o: F64) -> bool { flt(self, o) } open spec fn sp_le(self, o: F64) -> bool { fle(self, o) } open spec fn sp_gt(self, o: F64) -> bool { fgt(self, o) } open spec fn sp_ge(self, o: F64) -> bool { fge(self, o) } open spec fn sp_eq(self, o: F64) -> bool { feq(self, o) } open spec fn sp_ne(self, o: F64) -> bool { !feq(self, o) } }
impl SpCmp<usize> for usize { open spec fn sp_lt(self, o: usize) -> bool { self < o } open spec fn sp_le(self, o: usize) -> bool { self <= o } open spec fn sp_gt(self, o: usize) -> bool { self > o } open spec fn sp_ge(self, o: usize) -> bool { self >= o } open spec fn sp_eq(self, o: usize) -> bool { self == o } open spec fn sp_ne(self, o: usize) -> bool { self != o } }

pub trait MaxMin: Sized { spec fn sp_max_(self, o: Self) -> Self; spec fn sp_min_(self, o: Self) -> Self; fn max_(self, o: Self) -> (r: Self) ensures r == self.sp_max_(o); fn min_(self, o: Self) -> (r: Self) ensures r == self.sp_min_(o); }
impl MaxMin for usize { open spec fn sp_max_(self, o: usize) -> usize { if self >= o { self } else { o } } open spec fn sp_min_(self, o: usize) -> usize { if self <= o { self } else { o } } fn max_(self, o: usize) -> (r: usize) { if self >= o { self } else { o } } fn min_(self, o: usize) -> (r: usize) { if self <= o { self } else { o } } }
impl MaxMin for F64 { open spec fn sp_max_(self, o: F64) -> F64 { fmax(self, o) } open spec fn sp_min_(self, o: F64) -> F64 { fmin(self, o) } #[verifier::external_body] fn max_(self, o: F64) -> (r: F64) { unimplemented!() } #[verifier::external_body] fn min_(self, o: F64) -> (r: F64) { unimplemented!() } }
pub trait Clamp: Sized { spec fn clamp_rq(self, a: Self, b: Self) -> bool; spec fn sp_clamp(self, a: Self, b: Self) -> Self; fn clamp_(self, a: Self, b: Self) -> (r: Self) requires self.clamp_rq(a, b) ensures r == self.sp_clamp(a, b); }
impl Clamp for F64 { open spec fn clamp_rq(self, a: F64, b: F64) -> bool { fle(a, b) } open spec fn sp_clamp(self, a: F64, b: F64) -> F64 { fclamp(self, a, b) } #[verifier::external_body] fn clamp_(self, a: F64, b: F64) -> (r: F64) { unimplemented!() } }
impl Clamp for usize { open spec fn clamp_rq(self, a: usize, b: usize) -> bool { a <= b } open spec fn sp_clamp(self, a: usize, b: usize) -> usize { if self < a { a } else if self > b { b } else { self } } fn clamp_(self, a: usize, b: usize) -> (r: usize) { if self < a { a } else if self > b { b } else { self } } }
pub trait SatSub: Sized { spec fn sp_saturating_sub(self, o: Self) -> Self; fn saturating_sub_(self, o: Self) -> (r: Self) ensures r == self.sp_saturating_sub(o); }
impl SatSub for usize { open spec fn sp_saturating_sub(self, o: usize) -> usize { if self >= o { (self - o) as usize } else { 0 } } fn saturating_sub_(self, o: usize) -> (r: usize) { if self >= o { self - o } else { 0 } } }
pub open spec fn wadd64(a: u64, b: u64) -> u64 { if a + b <= u64::MAX { (a + b) as u64 } else { (a + b - 0x1_0000_0000_0000_0000) as u64 } }
pub trait WrapAdd: Sized { spec fn sp_wrapping_add(self, o: Self) -> Self; fn wrapping_add_(self, o: Self) -> (r: Self) ensures r == self.sp_wrapping_add(o); }
impl WrapAdd for u64 { open spec fn sp_wrapping_add(self, o: u64) -> u64 { wadd64(self, o) } #[verifier::external_body] fn wrapping_add_(self, o: u64) -> (r: u64) { unimplemented!() } }

// ----------------------------------------------------------------------- cloning
pub open spec fn same<T>(a: T, b: T) -> bool { a == b }
pub trait Cl: Sized { fn cl(&self) -> (r: Self) ensures r == *self; }
impl<T: Cl> Cl for Vec<T> { #[verifier::external_body] fn cl(&self) -> (r: Self) { unimplemented!() } }
impl<T: Cl> Cl for Option<T> { #[verifier::external_body] fn cl(&self) -> (r: Self) { unimplemented!() } }
impl<T: Cl> Cl for Array1<T> { #[verifier::external_body] fn cl(&self) -> (r: Self) { unimplemented!() } }
impl Cl for F64 { fn cl(&self) -> (r: Self) { *self } }
impl Cl for usize { fn cl(&self) -> (r: Self) { *self } }
impl Cl for u64 { fn cl(&self) -> (r: Self) { *self } }
impl Cl for bool { fn cl(&self) -> (r: Self) { *self } }
impl Cl for String { #[verifier::external_body] fn cl(&self) -> (r: Self) { unimplemented!() } }

// ----------------------------------------------------------------------- ndarray
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array1<T> { v: Vec<T> }
impl<T> View for Array1<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn asub(a: Seq<F64>, b: Seq<F64>) -> Seq<F64> { Seq::new(a.len(), |i: int| fsub(a[i], b[i])) }
pub open spec fn aadd(a: Seq<F64>, b: Seq<F64>) -> Seq<F64> { Seq::new(a.len(), |i: int| fadd(a[i], b[i])) }
pub open spec fn ascale(a: Seq<F64>, k: F64) -> Seq<F64> { Seq::new(a.len(), |i: int| fmul(a[i], k)) }
pub open spec fn adivs(a: Seq<F64>, k: F64) -> Seq<F64> { Seq::new(a.len(), |i: int| fdiv(a[i], k)) }
pub uninterp spec fn fdot(a: Seq<F64>, b: Seq<F64>) -> F64;
pub uninterp spec fn mk_arr<T>(s: Seq<T>) -> Array1<T>;
#[verifier::external_body]
pub broadcast proof fn axiom_mk_arr<T>(s: Seq<T>) ensures (#[trigger] mk_arr(s))@ == s { }
#[verifier::external_body]
pub broadcast proof fn axiom_arr_ext<T>(a: Array1<T>) ensures mk_arr(#[trigger] a@) == a { }
/// squared Euclidean distance, as both distance helpers of the crate compute it
pub open spec fn dist2(a: Seq<F64>, b: Seq<F64>) -> F64 { fdot(asub(a, b), asub(a, b)) }
impl<T> Array1<T> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn from(v: Vec<T>) -> (r: Array1<T>) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn from_vec(v: Vec<T>) -> (r: Array1<T>) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn get_mut_at(&mut self, i: usize) -> (r: &mut T) requires i < old(self)@.len() ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn set_at(&mut self, i: usize, v: T) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, v) { unimplemented!() }
    #[verifier::external_body] pub fn as_slice_<'a>(&'a self) -> (r: Option<&'a [T]>) ensures r matches Some(s) && s@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn from_shape_fn<F: Fn(usize) -> T>(n: usize, f: F) -> (r: Array1<T>)
        requires forall|i: usize| 0 <= i < n ==> call_requires(f, (i,))
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> call_ensures(f, (i as usize,), #[trigger] r@[i]) { unimplemented!() }
    pub open spec fn sp_len(self) -> usize { self@.len() as usize }
    pub open spec fn sp_at(self, i: int) -> T { self@[i] }
}
impl Array1<F64> {
    #[verifier::external_body] pub fn dot(&self, o: &Array1<F64>) -> (r: F64) requires self@.len() == o@.len() ensures r == fdot(self@, o@) { unimplemented!() }
    pub open spec fn sp_dot(self, o: Array1<F64>) -> F64 { fdot(self@, o@) }
}
impl<T> core::ops::Index<usize> for Array1<T> { type Output = T;
    #[verifier::external_body] fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { unimplemented!() } }
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for Array1<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<'a, 'b> OpSub<&'b Array1<F64>> for &'a Array1<F64> { type Out = Array1<F64>; open spec fn sub_rq(self, o: &'b Array1<F64>) -> bool { self@.len() == o@.len() } open spec fn sp_sub(self, o: &'b Array1<F64>) -> Array1<F64> { mk_arr(asub(self@, o@)) } #[verifier::external_body] fn op_sub(self, o: &'b Array1<F64>) -> (r: Array1<F64>) { unimplemented!() } }
impl OpSub<Array1<F64>> for Array1<F64> { type Out = Array1<F64>; open spec fn sub_rq(self, o: Array1<F64>) -> bool { self@.len() == o@.len() } open spec fn sp_sub(self, o: Array1<F64>) -> Array1<F64> { mk_arr(asub(self@, o@)) } #[verifier::external_body] fn op_sub(self, o: Array1<F64>) -> (r: Array1<F64>) { unimplemented!() } }
impl<'a, 'b> OpAdd<&'b Array1<F64>> for &'a Array1<F64> { type Out = Array1<F64>; open spec fn add_rq(self, o: &'b Array1<F64>) -> bool { self@.len() == o@.len() } open spec fn sp_add(self, o: &'b Array1<F64>) -> Array1<F64> { mk_arr(aadd(self@, o@)) } #[verifier::external_body] fn op_add(self, o: &'b Array1<F64>) -> (r: Array1<F64>) { unimplemented!() } }
impl OpAdd<Array1<F64>> for Array1<F64> { type Out = Array1<F64>; open spec fn add_rq(self, o: Array1<F64>) -> bool { self@.len() == o@.len() } open spec fn sp_add(self, o: Array1<F64>) -> Array1<F64> { mk_arr(aadd(self@, o@)) } #[verifier::external_body] fn op_add(self, o: Array1<F64>) -> (r: Array1<F64>) { unimplemented!() } }
impl<'a> OpMul<F64> for &'a Array1<F64> { type Out = Array1<F64>; open spec fn mul_rq(self, o: F64) -> bool { true } open spec fn sp_mul(self, o: F64) -> Array1<F64> { mk_arr(ascale(self@, o)) } #[verifier::external_body] fn op_mul(self, o: F64) -> (r: Array1<F64>) { unimplemented!() } }
impl OpMul<F64> for Array1<F64> { type Out = Array1<F64>; open spec fn mul_rq(self, o: F64) -> bool { true } open spec fn sp_mul(self, o: F64) -> Array1<F64> { mk_arr(ascale(self@, o)) } #[verifier::external_body] fn op_mul(self, o: F64) -> (r: Array1<F64>) { unimplemented!() } }
impl<'a> OpDiv<F64> for &'a Array1<F64> { type Out = Array1<F64>; open spec fn div_rq(self, o: F64) -> bool { true } open spec fn sp_div(self, o: F64) -> Array1<F64> { mk_arr(adivs(self@, o)) } #[verifier::external_body] fn op_div(self, o: F64) -> (r: Array1<F64>) { unimplemented!() } }
impl OpDiv<F64> for Array1<F64> { type Out = Array1<F64>; open spec fn div_rq(self, o: F64) -> bool { true } open spec fn sp_div(self, o: F64) -> Array1<F64> { mk_arr(adivs(self@, o)) } #[verifier::external_body] fn op_div(self, o: F64) -> (r: Array1<F64>) { unimplemented!() } }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array2<T> { v: Vec<T> }
impl<T> Array2<T> {
    pub uninterp spec fn sp_nrows(&self) -> usize;
    pub uninterp spec fn sp_ncols(&self) -> usize;
    pub uninterp spec fn sp_at2(&self, i: int, j: int) -> T;
    pub open spec fn sp_col(&self, j: int) -> Seq<T> { Seq::new(self.sp_nrows() as nat, |i: int| self.sp_at2(i, j)) }
    pub open spec fn sp_row(&self, i: int) -> Seq<T> { Seq::new(self.sp_ncols() as nat, |j: int| self.sp_at2(i, j)) }
    #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self.sp_nrows() { unimplemented!() }
    #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r == self.sp_ncols() { unimplemented!() }
    #[verifier::external_body] pub fn at2(&self, i: usize, j: usize) -> (r: T) requires i < self.sp_nrows(), j < self.sp_ncols() ensures r == self.sp_at2(i as int, j as int) { unimplemented!() }
    #[verifier::external_body] pub fn column(&self, j: usize) -> (r: Array1<T>) requires j < self.sp_ncols() ensures r@ == self.sp_col(j as int) { unimplemented!() }
    #[verifier::external_body] pub fn outer_it(&self) -> (r: It<Array1<T>>) ensures r@.len() == self.sp_nrows(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.sp_row(i) { unimplemented!() }
}

/// A user constraint function `fn(&[f64], &mut ()) -> f64`: assumed pure.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CFn { x: usize }
impl CFn {
    pub uninterp spec fn val(&self, x: Seq<F64>) -> F64;
    #[verifier::external_body] pub fn call_(&self, x: &[F64]) -> (r: F64) ensures r == self.val(x@) { unimplemented!() }
}

// ----------------------------------------------------------------------- iterators (eager)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { v: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn order_ok(o: Ordering) -> bool { o != Ordering::Greater }
/// r is s with exactly the positions idx kept, in order
pub open spec fn picks<T>(s: Seq<T>, r: Seq<T>, idx: Seq<int>) -> bool {
    &&& r.len() == idx.len()
    &&& forall|k: int| 0 <= k < idx.len() ==> 0 <= #[trigger] idx[k] < s.len() && r[k] == s[idx[k]]
    &&& forall|k: int, l: int| 0 <= k < l < idx.len() ==> #[trigger] idx[k] < #[trigger] idx[l]
}
impl<T> It<T> {
    pub open spec fn sp_len(&self) -> int { self@.len() as int }
    /// a sequential (std) iterator: order-dependent adaptors visit the elements in order
    pub uninterp spec fn seqit(&self) -> bool;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn take_at(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],))
        ensures exists|idx: Seq<int>| #[trigger] picks(self@, r@, idx)
                && (forall|k: int| 0 <= k < r@.len() ==> call_ensures(f, (&#[trigger] r@[k],), true))
                && (forall|i: int| #![trigger self@[i]] #![trigger idx.contains(i)] 0 <= i < self@.len() && !idx.contains(i) ==> call_ensures(f, (&self@[i],), false)),
            r@.len() <= self@.len(), forall|k: int| 0 <= k < r@.len() ==> among_(self@, #[trigger] r@[k]), forall|i: int| 0 <= i < self@.len() ==> kept_or(f, r@, #[trigger] self@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures exists|o: Seq<Option<U>>| o.len() == self@.len() && (forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] o[i])) && r@ == #[trigger] somes(o),
            forall|k: int| 0 <= k < r@.len() ==> fm_from(f, self@, #[trigger] r@[k]), forall|i: int| 0 <= i < self@.len() ==> fm_kept(f, r@, #[trigger] self@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn flat_map<U, B: IntoIt<U>, F: Fn(T) -> B>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures exists|o: Seq<B>| o.len() == self@.len() && (forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] o[i])) && r@ == #[trigger] flat(o), forall|m: int| 0 <= m < r@.len() ==> from_flat(f, self@, #[trigger] r@[m]) { unimplemented!() }
    #[verifier::external_body] pub fn enumerate(self) -> (r: It<(usize, T)>) ensures r.seqit() == self.seqit(), r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == (i as usize, self@[i]), self@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn zip<U, B: IntoIt<U>>(self, o: B) -> (r: It<(T, U)>) ensures r@.len() == if self@.len() <= o.sp_into().len() { self@.len() } else { o.sp_into().len() }, forall|i: int| #![trigger r@[i]] #![trigger self@[i]] #![trigger o.sp_into()[i]] 0 <= i < r@.len() ==> r@[i] == (self@[i], o.sp_into()[i]) { unimplemented!() }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true), !r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false) { unimplemented!() }
    #[verifier::external_body] pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true), !r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false) { unimplemented!() }
    /// std: the first minimum; rayon: some minimum (`exact` is false there)
    #[verifier::external_body] pub fn min_by<F: Fn(&T, &T) -> Ordering>(self, f: F) -> (r: Option<T>)
        requires forall|i: int, j: int| 0 <= i < self@.len() && 0 <= j < self@.len() ==> call_requires(f, (&#[trigger] self@[i], &#[trigger] self@[j]))
        ensures r is None <==> self@.len() == 0,
            r matches Some(m) ==> exists|k: int| 0 <= k < self@.len() && m == #[trigger] self@[k] && is_min_at(self@, k, f)
                && (self.seqit() ==> forall|j: int| 0 <= j < k ==> call_ensures(f, (&#[trigger] self@[j], &self@[k]), Ordering::Greater)) { unimplemented!() }
    #[verifier::external_body] pub fn max_by<F: Fn(&T, &T) -> Ordering>(self, f: F) -> (r: Option<T>)
        requires forall|i: int, j: int| 0 <= i < self@.len() && 0 <= j < self@.len() ==> call_requires(f, (&#[trigger] self@[i], &#[trigger] self@[j]))
        ensures r is None <==> self@.len() == 0,
            r matches Some(m) ==> exists|k: int| 0 <= k < self@.len() && m == #[trigger] self@[k] && is_max_at(self@, k, f)
                && (self.seqit() ==> forall|j: int| k < j < self@.len() ==> call_ensures(f, (&#[trigger] self@[j], &self@[k]), Ordering::Less)) { unimplemented!() }
    #[verifier::external_body] pub fn collect<B: FromIt<T>>(self) -> (r: B) ensures B::from_it(self@, r) { unimplemented!() }
    #[verifier::external_body] pub fn partition<F: Fn(&T) -> bool>(self, f: F) -> (r: (Vec<T>, Vec<T>))
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],))
        ensures exists|b: Seq<bool>| b.len() == self@.len() && (forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (&self@[i],), #[trigger] b[i])) && r.0@ == part(self@, b, true) && r.1@ == #[trigger] part(self@, b, false) { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
}
impl<'a, T: Cl> It<&'a T> {
    #[verifier::external_body] pub fn cloned_(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i] == *self@[i] { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
    #[verifier::external_body] pub fn copied_(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i] == *self@[i] { unimplemented!() }
}
impl<A, B> It<(A, B)> {
    #[verifier::external_body] pub fn unzip(self) -> (r: (Vec<A>, Vec<B>)) ensures r.0@.len() == self@.len(), r.1@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (r.0@[i], r.1@[i]) { unimplemented!() }
}
pub uninterp spec fn fsum(s: Seq<F64>) -> F64;
impl It<F64> {
    /// the order of a parallel sum is unspecified: only the sequential adaptor promises fsum
    #[verifier::external_body] pub fn sum<S: SumTo>(self) -> (r: S) ensures S::sum_of(self@, r) { unimplemented!() }
    #[verifier::external_body] pub fn reduce<I: Fn() -> F64, F: Fn(F64, F64) -> F64>(self, id: I, f: F) -> (r: F64) requires call_requires(id, ()), forall|a: F64, b: F64| call_requires(f, (a, b)) { unimplemented!() }
}
pub trait SumTo: Sized { spec fn sum_of(s: Seq<F64>, r: Self) -> bool; }
impl SumTo for F64 { open spec fn sum_of(s: Seq<F64>, r: F64) -> bool { true } }
pub open spec fn cmp_le<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { call_ensures(f, (&a, &b), Ordering::Less) || call_ensures(f, (&a, &b), Ordering::Equal) }
pub open spec fn is_min_at<T, F: Fn(&T, &T) -> Ordering>(s: Seq<T>, k: int, f: F) -> bool {
    forall|j: int| 0 <= j < s.len() ==> cmp_le(f, s[k], #[trigger] s[j])
}
pub open spec fn is_max_at<T, F: Fn(&T, &T) -> Ordering>(s: Seq<T>, k: int, f: F) -> bool {
    forall|j: int| 0 <= j < s.len() ==> cmp_le(f, #[trigger] s[j], s[k])
}
pub open spec fn somes<U>(o: Seq<Option<U>>) -> Seq<U> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { let r = somes(o.drop_last()); match o.last() { Some(x) => r.push(x), None => r } }
}
pub open spec fn flat<U, B: IntoIt<U>>(o: Seq<B>) -> Seq<U> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { flat::<U, B>(o.drop_last()) + o.last().sp_into() }
}
/// consequences of `picks`, opaque so that they are used only where asked for
#[verifier::opaque] pub open spec fn among_<T>(s: Seq<T>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && x == #[trigger] s[i] }
#[verifier::opaque] pub open spec fn kept_or<T, F: Fn(&T) -> bool>(f: F, r: Seq<T>, x: T) -> bool { call_ensures(f, (&x,), false) || exists|k: int| 0 <= k < r.len() && x == #[trigger] r[k] }
#[verifier::opaque] pub open spec fn fm_from<T, U, F: Fn(T) -> Option<U>>(f: F, s: Seq<T>, x: U) -> bool { exists|i: int| 0 <= i < s.len() && call_ensures(f, (#[trigger] s[i],), Some(x)) }
#[verifier::opaque] pub open spec fn fm_kept<T, U, F: Fn(T) -> Option<U>>(f: F, r: Seq<U>, x: T) -> bool { call_ensures(f, (x,), None) || exists|k: int| 0 <= k < r.len() && call_ensures(f, (x,), Some(#[trigger] r[k])) }
/// every element comes out of one of the pieces (a consequence of `flat`)
pub open spec fn from_flat<T, U, B: IntoIt<U>, F: Fn(T) -> B>(f: F, s: Seq<T>, x: U) -> bool { exists|i: int, b: B, k: int| #![trigger s[i], b.sp_into()[k]] 0 <= i < s.len() && call_ensures(f, (s[i],), b) && 0 <= k < b.sp_into().len() && x == b.sp_into()[k] }
pub open spec fn part<T>(s: Seq<T>, b: Seq<bool>, v: bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let r = part(s.drop_last(), b.drop_last(), v); if b.last() == v { r.push(s.last()) } else { r } }
}
pub trait FromIt<T>: Sized { spec fn from_it(s: Seq<T>, r: Self) -> bool; }
impl<T> FromIt<T> for Vec<T> { open spec fn from_it(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<T, E> FromIt<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn from_it(s: Seq<Result<T, E>>, r: Self) -> bool {
        match r {
            Ok(v) => v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == Ok::<T, E>(v@[i]),
            Err(e) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == Err::<T, E>(e),
        }
    }
}
pub trait IntoIt<T>: Sized { spec fn sp_into(self) -> Seq<T>; spec fn seq_src(self) -> bool; fn into_it(self) -> (r: It<T>) ensures r@ == self.sp_into(), self.seq_src() ==> r.seqit(); fn into_par_it(self) -> (r: It<T>) ensures r@ == self.sp_into(); }
impl<T> IntoIt<T> for Vec<T> { open spec fn sp_into(self) -> Seq<T> { self@ } open spec fn seq_src(self) -> bool { true } #[verifier::external_body] fn into_it(self) -> (r: It<T>) { unimplemented!() } #[verifier::external_body] fn into_par_it(self) -> (r: It<T>) { unimplemented!() } }
impl<T> IntoIt<T> for It<T> { open spec fn sp_into(self) -> Seq<T> { self@ } open spec fn seq_src(self) -> bool { self.seqit() } fn into_it(self) -> (r: It<T>) { self } fn into_par_it(self) -> (r: It<T>) { self } }
pub trait ItExt<T> { spec fn sp_seq(&self) -> Seq<T>;
    fn it<'a>(&'a self) -> (r: It<&'a T>) ensures r.seqit(), r@ == refs(self.sp_seq()), r@.len() == self.sp_seq().len(), forall|i: int| #![trigger r@[i]] #![trigger self.sp_seq()[i]] 0 <= i < r@.len() ==> *r@[i] == self.sp_seq()[i];
    fn par_it<'a>(&'a self) -> (r: It<&'a T>) ensures r@ == refs(self.sp_seq()), r@.len() == self.sp_seq().len(), forall|i: int| #![trigger r@[i]] #![trigger self.sp_seq()[i]] 0 <= i < r@.len() ==> *r@[i] == self.sp_seq()[i]; }
impl<T> ItExt<T> for Vec<T> { open spec fn sp_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } #[verifier::external_body] fn par_it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T> ItExt<T> for [T] { open spec fn sp_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } #[verifier::external_body] fn par_it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T> ItExt<T> for Array1<T> { open spec fn sp_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } #[verifier::external_body] fn par_it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
pub trait ForIt<T>: Sized { spec fn sp_for(self) -> Seq<T>; fn for_it(self) -> (r: It<T>) ensures r@ == self.sp_for(); }
impl<T> ForIt<T> for It<T> { open spec fn sp_for(self) -> Seq<T> { self@ } fn for_it(self) -> (r: It<T>) { self } }
impl<T> ForIt<T> for Vec<T> { open spec fn sp_for(self) -> Seq<T> { self@ } #[verifier::external_body] fn for_it(self) -> (r: It<T>) { unimplemented!() } }
impl<'a, T> ForIt<&'a T> for &'a Vec<T> { open spec fn sp_for(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn for_it(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<'a, T> ForIt<&'a T> for &'a [T] { open spec fn sp_for(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn for_it(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<'a, T, const N: usize> ForIt<&'a T> for &'a [T; N] { open spec fn sp_for(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn for_it(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<'a, T> ForIt<&'a T> for &'a Array1<T> { open spec fn sp_for(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn for_it(self) -> (r: It<&'a T>) { unimplemented!() } }
#[verifier::external_body] pub fn rng_it(a: usize, b: usize) -> (r: It<usize>) ensures r@ == Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) { unimplemented!() }

// ----------------------------------------------------------------------- Vec / Option / Result helpers
pub trait VecExt<T> { spec fn vseq(&self) -> Seq<T>;
    fn last_(&self) -> (r: Option<&T>) ensures self.vseq().len() == 0 ==> r is None, self.vseq().len() > 0 ==> r == Some(&self.vseq().last());
    fn first_(&self) -> (r: Option<&T>) ensures self.vseq().len() == 0 ==> r is None, self.vseq().len() > 0 ==> r == Some(&self.vseq()[0]); }
impl<T> VecExt<T> for Vec<T> { open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn last_(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn first_(&self) -> (r: Option<&T>) { unimplemented!() } }
pub trait VecSp<T> { spec fn sp_at(self, i: int) -> T; spec fn sp_len(self) -> usize; }
impl<T> VecSp<T> for Vec<T> { open spec fn sp_at(self, i: int) -> T { self@[i] } open spec fn sp_len(self) -> usize { self@.len() as usize } }
pub trait VecMut<T>: Sized { spec fn wseq(&self) -> Seq<T>;
    fn truncate_(&mut self, n: usize) ensures final(self).wseq() == old(self).wseq().take(if n <= old(self).wseq().len() { n as int } else { old(self).wseq().len() as int });
    fn swap_remove_(&mut self, i: usize) -> (r: T) requires i < old(self).wseq().len() ensures r == old(self).wseq()[i as int], final(self).wseq() == old(self).wseq().update(i as int, old(self).wseq().last()).drop_last();
    fn extend_<B: IntoIt<T>>(&mut self, o: B) ensures final(self).wseq() == old(self).wseq() + o.sp_into();
    fn set_at(&mut self, i: usize, v: T) requires i < old(self).wseq().len() ensures final(self).wseq() == old(self).wseq().update(i as int, v);
    fn get_mut_at(&mut self, i: usize) -> (r: &mut T) requires i < old(self).wseq().len() ensures *r == old(self).wseq()[i as int], final(self).wseq() == old(self).wseq().update(i as int, *final(r));
    fn retain_<F: Fn(&T) -> bool>(&mut self, f: F) requires forall|i: int| 0 <= i < old(self).wseq().len() ==> call_requires(f, (&#[trigger] old(self).wseq()[i],))
        ensures exists|idx: Seq<int>| #[trigger] picks(old(self).wseq(), final(self).wseq(), idx) && (forall|k: int| 0 <= k < final(self).wseq().len() ==> call_ensures(f, (&#[trigger] final(self).wseq()[k],), true));
}
impl<T> VecMut<T> for Vec<T> { open spec fn wseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn truncate_(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn swap_remove_(&mut self, i: usize) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn extend_<B: IntoIt<T>>(&mut self, o: B) { unimplemented!() }
    #[verifier::external_body] fn set_at(&mut self, i: usize, v: T) { unimplemented!() }
    #[verifier::external_body] fn get_mut_at(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
    #[verifier::external_body] fn retain_<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
}
pub trait ToVec<T> { spec fn tvseq(&self) -> Seq<T>; fn to_vec_(&self) -> (r: Vec<T>) ensures r@ == self.tvseq(); }
impl<T> ToVec<T> for Array1<T> { open spec fn tvseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn to_vec_(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> ToVec<T> for [T] { open spec fn tvseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn to_vec_(&self) -> (r: Vec<T>) { unimplemented!() } }
pub trait OptX<T>: Sized { spec fn sp_unwrap(self) -> T; spec fn sp_has(self) -> bool;
    fn unwrap_(self) -> (r: T) requires self.sp_has() ensures r == self.sp_unwrap();
    fn expect_(self, m: &str) -> (r: T) requires self.sp_has() ensures r == self.sp_unwrap();
    fn unwrap_or_(self, d: T) -> (r: T) ensures r == if self.sp_has() { self.sp_unwrap() } else { d };
    fn unwrap_or_else_<F: Fn() -> T>(self, f: F) -> (r: T) requires !self.sp_has() ==> call_requires(f, ()) ensures self.sp_has() ==> r == self.sp_unwrap(), !self.sp_has() ==> call_ensures(f, (), r);
}
impl<T> OptX<T> for Option<T> { open spec fn sp_unwrap(self) -> T { self->0 } open spec fn sp_has(self) -> bool { self is Some }
    #[verifier::external_body] fn unwrap_(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn expect_(self, m: &str) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn unwrap_or_(self, d: T) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn unwrap_or_else_<F: Fn() -> T>(self, f: F) -> (r: T) { unimplemented!() } }
pub trait ResX<T, E>: Sized { spec fn r_ok(self) -> Option<T>;
    fn rexpect_(self, m: &str) -> (r: T) requires self.r_ok() is Some ensures r == self.r_ok()->0; }
impl<T, E> OptX<T> for Result<T, E> { open spec fn sp_unwrap(self) -> T { self->Ok_0 } open spec fn sp_has(self) -> bool { self is Ok }
    #[verifier::external_body] fn unwrap_(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn expect_(self, m: &str) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn unwrap_or_(self, d: T) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn unwrap_or_else_<F: Fn() -> T>(self, f: F) -> (r: T) { unimplemented!() } }
pub trait SpOk<T> { spec fn sp_ok(self) -> Option<T>; }
impl<T, E> SpOk<T> for Result<T, E> { open spec fn sp_ok(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } } }
pub trait OptN<T>: Sized { spec fn on(self) -> Option<T>; fn is_none_or_<F: Fn(T) -> bool>(self, f: F) -> (r: bool) requires self.on() matches Some(x) ==> call_requires(f, (x,)) ensures self.on() is None ==> r, self.on() matches Some(x) ==> call_ensures(f, (x,), r); }
impl<T> OptN<T> for Option<T> { open spec fn on(self) -> Option<T> { self } #[verifier::external_body] fn is_none_or_<F: Fn(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() } }
pub trait OptO<T>: Sized {
    spec fn oo(self) -> Option<T>;
    fn ok_or_<E>(self, e: E) -> (r: Result<T, E>) ensures r == match self.oo() { Some(x) => Ok::<T, E>(x), None => Err::<T, E>(e) };
    fn ok_or_else_<E, F: Fn() -> E>(self, f: F) -> (r: Result<T, E>) requires self.oo() is None ==> call_requires(f, ()) ensures self.oo() matches Some(x) ==> r == Ok::<T, E>(x), self.oo() is None ==> r is Err;
    fn omap_<U, F: Fn(T) -> U>(self, f: F) -> (r: Option<U>) requires self.oo() matches Some(x) ==> call_requires(f, (x,)) ensures self.oo() is None ==> r is None, self.oo() matches Some(x) ==> r is Some && call_ensures(f, (x,), r->0);
    fn map_or_<U, F: Fn(T) -> U>(self, d: U, f: F) -> (r: U) requires self.oo() matches Some(x) ==> call_requires(f, (x,)) ensures self.oo() is None ==> r == d, self.oo() matches Some(x) ==> call_ensures(f, (x,), r);
    fn and_then_<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>) requires self.oo() matches Some(x) ==> call_requires(f, (x,)) ensures self.oo() is None ==> r is None, self.oo() matches Some(x) ==> call_ensures(f, (x,), r);
}
impl<T> OptO<T> for Option<T> { open spec fn oo(self) -> Option<T> { self }
    #[verifier::external_body] fn ok_or_<E>(self, e: E) -> (r: Result<T, E>) { unimplemented!() }
    #[verifier::external_body] fn ok_or_else_<E, F: Fn() -> E>(self, f: F) -> (r: Result<T, E>) { unimplemented!() }
    #[verifier::external_body] fn omap_<U, F: Fn(T) -> U>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body] fn map_or_<U, F: Fn(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() }
    #[verifier::external_body] fn and_then_<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { unimplemented!() }
}
pub trait OptDef<T>: Sized { spec fn od(self) -> Option<T>; fn unwrap_or_default_(self) -> (r: T) ensures self.od() matches Some(x) ==> r == x; }
impl<T> OptDef<Vec<T>> for Option<Vec<T>> { open spec fn od(self) -> Option<Vec<T>> { self } #[verifier::external_body] fn unwrap_or_default_(self) -> (r: Vec<T>) ensures self is None ==> r@ == Seq::<T>::empty() { unimplemented!() } }
pub trait OptC<T>: Sized { spec fn oc(self) -> Option<T>; fn copied_(self) -> (r: Option<T>) ensures r == self.oc(); fn cloned_(self) -> (r: Option<T>) ensures r == self.oc(); }
impl<'a, T> OptC<T> for Option<&'a T> { open spec fn oc(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn copied_(self) -> (r: Option<T>) { unimplemented!() } #[verifier::external_body] fn cloned_(self) -> (r: Option<T>) { unimplemented!() } }
pub trait ResE<T, E>: Sized { spec fn re(self) -> Result<T, E>; fn map_err_<G, F: Fn(E) -> G>(self, f: F) -> (r: Result<T, G>) requires self.re() matches Err(e) ==> call_requires(f, (e,)) ensures self.re() matches Ok(x) ==> r == Ok::<T, G>(x), self.re() is Err ==> r is Err; }
impl<T, E> ResE<T, E> for Result<T, E> { open spec fn re(self) -> Result<T, E> { self } #[verifier::external_body] fn map_err_<G, F: Fn(E) -> G>(self, f: F) -> (r: Result<T, G>) { unimplemented!() } }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub trait ToStr { fn to_string_(&self) -> String; fn to_lowercase_(&self) -> String; fn as_str_(&self) -> &str; }
impl ToStr for str { #[verifier::external_body] fn to_string_(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } #[verifier::external_body] fn to_lowercase_(&self) -> (r: String) ensures r@ == lower(self@) { unimplemented!() } #[verifier::external_body] fn as_str_(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
impl ToStr for String { #[verifier::external_body] fn to_string_(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } #[verifier::external_body] fn to_lowercase_(&self) -> (r: String) ensures r@ == lower(self@) { unimplemented!() } #[verifier::external_body] fn as_str_(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn str_eq_(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn mem_take<T>(x: &mut Vec<T>) -> (r: Vec<T>) ensures r == *old(x), final(x)@.len() == 0 { unimplemented!() }
pub proof fn panic_unreachable() requires false {}
pub fn panic_<T>() -> T requires false { loop invariant false decreases 0int { } }

// ----------------------------------------------------------------------- time
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { x: u64 }
#[verifier::external_body] pub fn instant_now() -> Instant { unimplemented!() }
#[verifier::external_body] pub struct Duration { x: u64 }
/// leave to consult what differs from run to run (the clock, the number of threads)
pub uninterp spec fn nondet_allowed() -> bool;
impl Instant {
    #[verifier::external_body] pub fn elapsed(&self) -> Duration requires nondet_allowed() { unimplemented!() }
    /// for display and statistics (observers, the time recorded in a checkpoint)
    #[verifier::external_body] pub fn elapsed_shown(&self) -> Duration { unimplemented!() }
}
impl Duration { #[verifier::external_body] pub fn as_secs_f64(&self) -> F64 { unimplemented!() } }

#[verifier::external_body] pub struct UtcT { x: u64 }
#[verifier::external_body] pub fn utc_now_() -> UtcT { unimplemented!() }
impl UtcT { #[verifier::external_body] pub fn to_rfc3339(&self) -> String { unimplemented!() } }

// ----------------------------------------------------------------------- random numbers, atomics
/// A poisoned lock cannot occur: nothing panics while a guard is held (obligation of every function).
/// What the generator behind the lock has produced so far is not tracked.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { x: T }
#[verifier::external_body] pub struct PoisonE { x: u8 }
impl<T> Mutex<T> {
    #[verifier::external_body] pub fn new(v: T) -> Mutex<T> { unimplemented!() }
    #[verifier::external_body] pub fn lock(&self) -> (r: Result<T, PoisonE>) ensures r is Ok { unimplemented!() }
}
#[verifier::external_body] pub struct StdRng { x: u64 }
pub uninterp spec fn rng_seed(seed: u64) -> int;
pub uninterp spec fn rng_next(s: int) -> int;
pub uninterp spec fn rng_in(s: int, a: F64, b: F64) -> F64;
pub uninterp spec fn rng_below(s: int, a: F64, b: F64) -> F64;
impl View for StdRng { type V = int; uninterp spec fn view(&self) -> int; }
pub trait RandT: Sized { }
impl RandT for u64 { }
impl StdRng {
    #[verifier::external_body] pub fn seed_from_u64(seed: u64) -> (r: StdRng) ensures r@ == rng_seed(seed) { unimplemented!() }
    #[verifier::external_body] pub fn random_<T: RandT>(&mut self) -> (r: T) ensures final(self)@ == rng_next(old(self)@) { unimplemented!() }
    /// uniform in [a, b]; panics unless a <= b and b - a is finite
    #[verifier::external_body] pub fn random_range_incl_(&mut self, a: F64, b: F64) -> (r: F64) requires fle(a, b), ffinite(fsub(b, a)) ensures final(self)@ == rng_next(old(self)@), r == rng_in(old(self)@, a, b), !fnan(r), !flt(r, a), !flt(b, r) { unimplemented!() }
    #[verifier::external_body] pub fn random_range_(&mut self, a: F64, b: F64) -> (r: F64) requires flt(a, b), ffinite(fsub(b, a)) ensures final(self)@ == rng_next(old(self)@), r == rng_below(old(self)@, a, b), !fnan(r), !flt(r, a), !flt(b, r) { unimplemented!() }
}
/// Fisher-Yates: what comes out is a function of what went in and of the generator's state, and a rearrangement
pub uninterp spec fn sp_shuffle<T>(s: Seq<T>, rng: int) -> Seq<T>;
pub trait ShuffleX<T>: Sized { spec fn shs(&self) -> Seq<T>; fn shuffle_(&mut self, rng: &mut StdRng) ensures final(self).shs() == sp_shuffle(old(self).shs(), old(rng)@), exists|p: Seq<int>| #[trigger] rearr(old(self).shs(), final(self).shs(), p); }
impl<T> ShuffleX<T> for Vec<T> { open spec fn shs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn shuffle_(&mut self, rng: &mut StdRng) { unimplemented!() } }
#[verifier::external_body] pub fn num_threads_() -> (r: usize) requires nondet_allowed() ensures 1 <= r <= 0xffff { unimplemented!() }
/// slices of b elements, the last one possibly shorter
pub open spec fn nchunks(n: int, b: int) -> int { if n <= 0 { 0 } else { (n - 1) / b + 1 } }
pub open spec fn chunk<T>(s: Seq<T>, b: int, i: int) -> Seq<T> { s.subrange(i * b, if (i + 1) * b <= s.len() { (i + 1) * b } else { s.len() as int }) }
pub open spec fn chunked<T>(it: Seq<&[T]>, s: Seq<T>, b: int) -> bool { it.len() == nchunks(s.len() as int, b) && forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i])@ == chunk(s, b, i) }
pub trait ChunksX<T> { spec fn chs(&self) -> Seq<T>; fn chunks_<'a>(&'a self, b: usize) -> (r: It<&'a [T]>) requires b > 0 ensures chunked(r@, self.chs(), b as int); }
impl<T> ChunksX<T> for Vec<T> { open spec fn chs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn chunks_<'a>(&'a self, b: usize) -> (r: It<&'a [T]>) { unimplemented!() } }
impl<T> ChunksX<T> for [T] { open spec fn chs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn chunks_<'a>(&'a self, b: usize) -> (r: It<&'a [T]>) { unimplemented!() } }
#[verifier::external_body] pub struct AtomicUsize { x: usize }
impl AtomicUsize {
    #[verifier::external_body] pub fn new(v: usize) -> AtomicUsize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, v: usize, o: AOrdering) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn into_inner(self) -> usize { unimplemented!() }
}
#[verifier::external_body] pub fn min_fn(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { unimplemented!() }
#[verifier::external_body] pub fn max_fn(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { unimplemented!() }

// ----------------------------------------------------------------------- sorting
/// a Vec of arrays (48 bytes each) holds at most isize::MAX bytes
#[verifier::external_body] pub proof fn axiom_arrs_len(v: Vec<Array1<F64>>) ensures v@.len() <= usize::MAX / 64 { }
/// s is a rearrangement of t: position k of s holds position p[k] of t
pub open spec fn rearr<T>(t: Seq<T>, s: Seq<T>, p: Seq<int>) -> bool {
    &&& s.len() == t.len() && p.len() == t.len()
    &&& forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < t.len() && s[k] == t[p[k]]
    &&& forall|j: int| #![trigger t[j]] #![trigger p.contains(j)] 0 <= j < t.len() ==> p.contains(j)
}
/// positions are not repeated
pub proof fn lemma_rearr_inj<T>(t: Seq<T>, s: Seq<T>, p: Seq<int>, i: int, j: int) requires rearr(t, s, p), 0 <= i < p.len(), 0 <= j < p.len(), i != j ensures p[i] != p[j]
{
    if p[i] == p[j] {
        // all of 0..n would be among n - 1 positions
        let q = p.remove(j);
        assert forall|x: int| 0 <= x < t.len() implies #[trigger] q.contains(x) by { assert(t[x] == t[x]); assert(p.contains(x)); let k = choose|k: int| 0 <= k < p.len() && p[k] == x; let k2 = if k == j { i } else { k }; assert(p[k2] == x); if k2 < j { assert(q[k2] == x); } else { assert(q[k2 - 1] == x); } }
        let st = q.to_set();
        q.lemma_cardinality_of_set();
        let r = vstd::set_lib::set_int_range(0, t.len() as int);
        vstd::set_lib::lemma_int_range(0, t.len() as int);
        assert(r.subset_of(st)) by { assert forall|x: int| r.contains(x) implies #[trigger] st.contains(x) by { assert(q.contains(x)); } }
        vstd::set_lib::lemma_len_subset(r, st);
    }
}
pub proof fn lemma_rearr_trans<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, p: Seq<int>, q: Seq<int>) requires rearr(a, b, p), rearr(b, c, q) ensures rearr(a, c, Seq::new(q.len(), |k: int| p[q[k]]))
{
    let w = Seq::new(q.len(), |k: int| p[q[k]]);
    assert forall|k: int| 0 <= k < w.len() implies 0 <= #[trigger] w[k] < a.len() && c[k] == a[w[k]] by { assert(0 <= q[k] < b.len() && c[k] == b[q[k]]); assert(b[q[k]] == a[p[q[k]]]); }
    assert forall|j: int| #![trigger a[j]] #![trigger w.contains(j)] 0 <= j < a.len() implies w.contains(j) by {
        assert(p.contains(j)); let m = choose|m: int| 0 <= m < p.len() && p[m] == j;
        assert(q.contains(m)); let k = choose|k: int| 0 <= k < q.len() && q[k] == m; assert(w[k] == j);
    }
}
pub trait SortX<T>: Sized { spec fn xs(&self) -> Seq<T>;
    fn sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|i: int, j: int| 0 <= i < old(self).xs().len() && 0 <= j < old(self).xs().len() ==> call_requires(f, (&#[trigger] old(self).xs()[i], &#[trigger] old(self).xs()[j]))
        ensures exists|p: Seq<int>| #[trigger] rearr(old(self).xs(), final(self).xs(), p), forall|i: int, j: int| 0 <= i < j < final(self).xs().len() ==> cmp_le(f, #[trigger] final(self).xs()[i], #[trigger] final(self).xs()[j]);
    fn sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|i: int, j: int| 0 <= i < old(self).xs().len() && 0 <= j < old(self).xs().len() ==> call_requires(f, (&#[trigger] old(self).xs()[i], &#[trigger] old(self).xs()[j]))
        ensures exists|p: Seq<int>| #[trigger] rearr(old(self).xs(), final(self).xs(), p), forall|i: int, j: int| 0 <= i < j < final(self).xs().len() ==> cmp_le(f, #[trigger] final(self).xs()[i], #[trigger] final(self).xs()[j]);
    fn range_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, a: usize, b: usize, f: F)
        requires a <= b <= old(self).xs().len(), forall|i: int, j: int| 0 <= i < old(self).xs().len() && 0 <= j < old(self).xs().len() ==> call_requires(f, (&#[trigger] old(self).xs()[i], &#[trigger] old(self).xs()[j]))
        ensures exists|p: Seq<int>| #[trigger] rearr(old(self).xs(), final(self).xs(), p) && (forall|k: int| 0 <= k < p.len() ==> (a <= k < b <==> a <= #[trigger] p[k] < b) && (!(a <= k < b) ==> p[k] == k)),
            forall|i: int, j: int| a <= i < j < b ==> cmp_le(f, #[trigger] final(self).xs()[i], #[trigger] final(self).xs()[j]);
    fn select_nth_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, n: usize, f: F)
        requires n < old(self).xs().len(), forall|i: int, j: int| 0 <= i < old(self).xs().len() && 0 <= j < old(self).xs().len() ==> call_requires(f, (&#[trigger] old(self).xs()[i], &#[trigger] old(self).xs()[j]))
        ensures exists|p: Seq<int>| #[trigger] rearr(old(self).xs(), final(self).xs(), p), forall|i: int, j: int| 0 <= i <= n <= j < final(self).xs().len() && i != j ==> cmp_le(f, #[trigger] final(self).xs()[i], #[trigger] final(self).xs()[j]);
}
impl<T> SortX<T> for Vec<T> { open spec fn xs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn range_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, a: usize, b: usize, f: F) { unimplemented!() }
    #[verifier::external_body] fn select_nth_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, n: usize, f: F) { unimplemented!() }
}

#[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { x: T }

/// nothing is filtered out
pub broadcast proof fn lemma_picks_all<T>(s: Seq<T>, r: Seq<T>, idx: Seq<int>)
    requires #[trigger] picks(s, r, idx), forall|i: int| 0 <= i < s.len() ==> #[trigger] idx.contains(i)
    ensures r == s
{
    assert forall|k: int| 0 <= k < idx.len() implies #[trigger] idx[k] >= k by { lemma_picks_ge(s, r, idx, k); }
    assert forall|k: int| 0 <= k < s.len() implies k < idx.len() && #[trigger] idx[k] == k by { lemma_picks_id(s, r, idx, k); }
    if idx.len() > s.len() { let k = s.len() as int; assert(idx[k] >= k); assert(idx[k] < s.len()); }
    if s.len() > 0 { let k = s.len() - 1; assert(idx[k] == k); }
    assert forall|k: int| 0 <= k < s.len() implies r[k] == s[k] by { assert(idx[k] == k); }
    assert(r =~= s);
}
proof fn lemma_picks_ge<T>(s: Seq<T>, r: Seq<T>, idx: Seq<int>, k: int)
    requires picks(s, r, idx), 0 <= k < idx.len() ensures idx[k] >= k decreases k
{ if k > 0 { lemma_picks_ge(s, r, idx, k - 1); assert(idx[k - 1] < idx[k]); } }
proof fn lemma_picks_id<T>(s: Seq<T>, r: Seq<T>, idx: Seq<int>, k: int)
    requires picks(s, r, idx), forall|i: int| 0 <= i < s.len() ==> #[trigger] idx.contains(i), 0 <= k < s.len()
    ensures k < idx.len(), idx[k] == k
    decreases k
{
    assert(idx.contains(k));
    let j = choose|j: int| 0 <= j < idx.len() && idx[j] == k;
    lemma_picks_ge(s, r, idx, j);
    if j < k { lemma_picks_id(s, r, idx, j); }
}
// ---- text put together: format! is split into its parts ----
/// what `{}` shows, what `{:0w}` shows, and anything else
pub uninterp spec fn sp_show<A: ?Sized>(a: &A) -> Seq<char>;
pub uninterp spec fn sp_zero<A: ?Sized>(a: &A, w: int) -> Seq<char>;
#[verifier::external_body] pub fn flit_(m: &str) -> (r: String) ensures r@ == m@ { unimplemented!() }
#[verifier::external_body] pub fn fshow_<A: ?Sized>(a: &A) -> (r: String) ensures r@ == sp_show(a) { unimplemented!() }
#[verifier::external_body] pub fn fzero_<A: ?Sized>(a: &A, w: usize) -> (r: String) ensures r@ == sp_zero(a, w as int) { unimplemented!() }
#[verifier::external_body] pub fn fother_<A: ?Sized>(a: &A, w: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn fcat_(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub broadcast axiom fn axiom_show_string(a: &String) ensures #[trigger] sp_show::<String>(a) == a@;
pub broadcast axiom fn axiom_show_str(a: &str) ensures #[trigger] sp_show::<str>(a) == a@;
pub broadcast axiom fn axiom_show_ref<A>(a: &&A) ensures #[trigger] sp_show::<&A>(a) == sp_show::<A>(*a);
pub uninterp spec fn sp_parse_usize(s: Seq<char>) -> Option<usize>;
/// numbers shown, padded or not, read back as themselves, and a shown number has no separator in it
pub broadcast axiom fn axiom_show_usize(a: &usize) ensures sp_parse_usize(#[trigger] sp_show::<usize>(a)) == Some(*a), !sp_show::<usize>(a).contains('/');
pub broadcast axiom fn axiom_zero_usize(a: &usize, w: int) ensures sp_parse_usize(#[trigger] sp_zero::<usize>(a, w)) == Some(*a), !sp_zero::<usize>(a, w).contains('/');
#if checkpointing
// ---- texts, by characters and by bytes ----
pub open spec fn clen(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// the length in bytes
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { lemma_blen_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); } }
pub proof fn lemma_blen_pos(a: Seq<char>) ensures blen(a) >= a.len() decreases a.len()
{ if a.len() > 0 { lemma_blen_pos(a.drop_last()); } }
/// a byte offset falls on the boundary before character i
pub open spec fn at_byte(s: Seq<char>, i: int, b: int) -> bool { 0 <= i <= s.len() && blen(s.take(i)) == b }
pub open spec fn boundary(s: Seq<char>, b: int) -> bool { exists|i: int| #[trigger] at_byte(s, i, b) }
pub proof fn lemma_at_byte(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures blen(s.take(j)) >= blen(s.take(i)) + (j - i)
{ assert(s.take(j) =~= s.take(i) + s.subrange(i, j)); lemma_blen_add(s.take(i), s.subrange(i, j)); lemma_blen_pos(s.subrange(i, j)); }
pub open spec fn sp_prefix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn sp_suffix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub trait TextV { spec fn tv(&self) -> Seq<char>; }
impl TextV for str { open spec fn tv(&self) -> Seq<char> { self@ } }
impl TextV for String { open spec fn tv(&self) -> Seq<char> { self@ } }
impl<'a, A: TextV + ?Sized> TextV for &'a A { open spec fn tv(&self) -> Seq<char> { (**self).tv() } }
pub trait ParseU: Sized { spec fn pu(s: Seq<char>) -> Option<Self>; }
impl ParseU for usize { open spec fn pu(s: Seq<char>) -> Option<usize> { sp_parse_usize(s) } }
#[verifier::external_body] pub struct ParseE { x: u8 }
pub open spec fn from_(a: Option<usize>) -> int { match a { Some(a) => a as int, None => 0 } }
pub open spec fn to_(b: Option<usize>, s: Seq<char>) -> int { match b { Some(b) => b as int, None => blen(s) } }
pub broadcast proof fn lemma_ends_at(t: Seq<char>, e: Seq<char>) ensures #[trigger] sp_suffix(t, e) && e.len() > 0 ==> t.len() > 0 && t.last() == e.last()
{ if sp_suffix(t, e) && e.len() > 0 { assert(t.skip(t.len() - e.len())[e.len() - 1] == t[t.len() - 1]); } }
pub broadcast proof fn lemma_contains_add(a: Seq<char>, b: Seq<char>, c: char) ensures #[trigger] (a + b).contains(c) == (a.contains(c) || b.contains(c))
{
    if (a + b).contains(c) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == c; if i < a.len() { assert(a[i] == c); } else { assert(b[i - a.len()] == c); } }
    if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert((a + b)[i] == c); }
    if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; assert((a + b)[a.len() + i] == c); }
}
pub trait TextX {
    spec fn tx(&self) -> Seq<char>;
    fn starts_with_<P: TextV + ?Sized>(&self, p: &P) -> (r: bool) ensures r == sp_prefix(self.tx(), p.tv());
    fn ends_with_<P: TextV + ?Sized>(&self, p: &P) -> (r: bool) ensures r == sp_suffix(self.tx(), p.tv());
    fn blen_(&self) -> (r: usize) ensures r == blen(self.tx());
    fn slice_(&self, a: Option<usize>, b: Option<usize>) -> (r: &str)
        requires from_(a) <= to_(b, self.tx()), boundary(self.tx(), from_(a)), boundary(self.tx(), to_(b, self.tx()))
        ensures forall|i: int, j: int, x: int, y: int| #[trigger] at_byte(self.tx(), i, x) && #[trigger] at_byte(self.tx(), j, y) && x == from_(a) && y == to_(b, self.tx()) ==> r@ == self.tx().subrange(i, j);
    fn strip_prefix_<P: TextV + ?Sized>(&self, p: &P) -> (r: Option<&str>) ensures r is Some == sp_prefix(self.tx(), p.tv()), r matches Some(x) ==> x@ == self.tx().skip(p.tv().len() as int);
    fn strip_suffix_<P: TextV + ?Sized>(&self, p: &P) -> (r: Option<&str>) ensures r is Some == sp_suffix(self.tx(), p.tv()), r matches Some(x) ==> x@ == self.tx().take(self.tx().len() - p.tv().len());
    fn parse_<T: ParseU>(&self) -> (r: Result<T, ParseE>) ensures r.sp_ok() == T::pu(self.tx());
}
impl TextX for str {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn starts_with_<P: TextV + ?Sized>(&self, p: &P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn ends_with_<P: TextV + ?Sized>(&self, p: &P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn blen_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn slice_(&self, a: Option<usize>, b: Option<usize>) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn strip_prefix_<P: TextV + ?Sized>(&self, p: &P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn strip_suffix_<P: TextV + ?Sized>(&self, p: &P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn parse_<T: ParseU>(&self) -> (r: Result<T, ParseE>) { unimplemented!() }
}
impl TextX for String {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn starts_with_<P: TextV + ?Sized>(&self, p: &P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn ends_with_<P: TextV + ?Sized>(&self, p: &P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn blen_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn slice_(&self, a: Option<usize>, b: Option<usize>) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn strip_prefix_<P: TextV + ?Sized>(&self, p: &P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn strip_suffix_<P: TextV + ?Sized>(&self, p: &P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn parse_<T: ParseU>(&self) -> (r: Result<T, ParseE>) { unimplemented!() }
}
pub open spec fn ucmp(a: usize, b: usize) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub trait CmpX: Sized { spec fn sp_ucmp_(self, o: Self) -> Ordering; fn ucmp_(&self, o: &Self) -> (r: Ordering) ensures r == (*self).sp_ucmp_(*o); }
impl CmpX for usize { open spec fn sp_ucmp_(self, o: usize) -> Ordering { ucmp(self, o) } fn ucmp_(&self, o: &usize) -> (r: Ordering) { if *self < *o { Ordering::Less } else if *self > *o { Ordering::Greater } else { Ordering::Equal } } }
// ---- the file system: a map from paths to contents, what may be found in it if the program is stopped ----
/// the name of a directory entry need not be text
pub enum NameV { Text(Seq<char>), Other(int) }
pub ghost struct PathV { pub dir: Seq<char>, pub name: NameV }
pub type FilesV = Map<PathV, Seq<u8>>;
/// healthy: no operation fails for reasons of its own (space, permissions, a missing directory)
pub ghost struct FsV { pub files: FilesV, pub healthy: bool, pub crash: Set<FilesV> }
#[verifier::external_body] pub struct Fs { x: u8 }
impl View for Fs { type V = FsV; uninterp spec fn view(&self) -> FsV; }
#[verifier::external_body] pub struct PathBuf { x: u8 }
pub type Path = PathBuf;
impl View for PathBuf { type V = PathV; uninterp spec fn view(&self) -> PathV; }
impl Cl for PathBuf { #[verifier::external_body] fn cl(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct OsStr { x: u8 }
impl View for OsStr { type V = NameV; uninterp spec fn view(&self) -> NameV; }
impl OsStr {
    pub uninterp spec fn sp_to_str(&self) -> Option<&str>;
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r == self.sp_to_str() { unimplemented!() }
}
pub broadcast axiom fn axiom_to_str(o: &OsStr) ensures match #[trigger] o.sp_to_str() { Some(t) => o@ == NameV::Text(t@), None => o@ is Other };
/// the path as the directory part of the entries in it
pub uninterp spec fn sp_dir(p: PathV) -> Seq<char>;
pub uninterp spec fn sp_join(p: PathV, n: Seq<char>) -> PathV;
pub broadcast axiom fn axiom_join(p: PathV, n: Seq<char>) ensures !n.contains('/') ==> #[trigger] sp_join(p, n) == (PathV { dir: sp_dir(p), name: NameV::Text(n) });
/// another ending for the last component of the path
pub uninterp spec fn sp_with_ext(p: PathV, e: Seq<char>) -> PathV;
pub broadcast axiom fn axiom_with_ext(p: PathV, e: Seq<char>) ensures (#[trigger] sp_with_ext(p, e)).dir == p.dir, e.len() > 0 && p.name is Text ==> sp_with_ext(p, e).name is Text && sp_suffix(sp_with_ext(p, e).name->Text_0, seq!['.'] + e);
/// a path put together here
pub open spec fn put_together(p: PathV) -> bool { true }
pub broadcast proof fn lemma_put(p: PathV, n: Seq<char>) ensures #![trigger sp_join(p, n)] put_together(sp_join(p, n)) { }
pub broadcast proof fn lemma_push_contains<T>(s: Seq<T>, x: T, y: T) ensures #[trigger] s.push(x).contains(y) == (s.contains(y) || x == y)
{ let t = s.push(x); assert(t[s.len() as int] == x); if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i] == y); } if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; if i < s.len() { assert(s[i] == y); } } }
impl PathBuf {
    #[verifier::external_body] pub fn join<P: TextV>(&self, n: P) -> (r: PathBuf) ensures r@ == sp_join(self@, n.tv()) { unimplemented!() }
    #[verifier::external_body] pub fn with_extension<P: TextV>(&self, n: P) -> (r: PathBuf) ensures r@ == sp_with_ext(self@, n.tv()) { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some, r->0@ == self@.name { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self, fs: &mut Fs) -> (r: bool) ensures final(fs)@ == old(fs)@, old(fs)@.files.contains_key(self@) && old(fs)@.healthy ==> r, r ==> old(fs)@.files.contains_key(self@) || is_dir(self@) { unimplemented!() }
}
#[verifier::external_body] pub struct DirEntry { x: u8 }
impl View for DirEntry { type V = PathV; uninterp spec fn view(&self) -> PathV; }
impl DirEntry { #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() } }
/// what reading a directory yields: entries of the directory, each once; all of them unless one cannot be read
pub open spec fn listing(es: Seq<Result<DirEntry, Error>>, fs: FsV, d: PathV) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> ((#[trigger] es[i]) matches Ok(e) ==> (fs.files.contains_key(e@) || is_dir(e@)) && e@.dir == sp_dir(d))
    &&& forall|i: int, j: int| 0 <= i < j < es.len() && (#[trigger] es[i]) is Ok && (#[trigger] es[j]) is Ok ==> es[i]->Ok_0@ != es[j]->Ok_0@
    &&& (forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]) is Ok) ==> forall|p: PathV| #[trigger] fs.files.contains_key(p) && p.dir == sp_dir(d) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i])->Ok_0@ == p
    &&& fs.healthy ==> forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]) is Ok
}
/// a directory, not a file
pub uninterp spec fn is_dir(p: PathV) -> bool;
/// the same files, except perhaps at p
pub open spec fn except(a: FilesV, b: FilesV, p: PathV) -> bool { forall|q: PathV| q != p ==> #[trigger] a.contains_key(q) == b.contains_key(q) && (b.contains_key(q) ==> a[q] == b[q]) }
pub mod fs {
    use super::*;
    verus! {
    /// not atomic: until it is done, and when it fails, anything may be found at the path
    #[verifier::external_body] pub fn write(p: &PathBuf, b: Vec<u8>, fs: &mut Fs) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(fs)@.files == old(fs)@.files.insert(p@, b@), except(final(fs)@.files, old(fs)@.files, p@), final(fs)@.healthy == old(fs)@.healthy, old(fs)@.healthy ==> r is Ok,
            forall|c: FilesV| #[trigger] final(fs)@.crash.contains(c) ==> old(fs)@.crash.contains(c) || except(c, old(fs)@.files, p@) { unimplemented!() }
    /// atomic
    #[verifier::external_body] pub fn rename(a: &PathBuf, b: &PathBuf, fs: &mut Fs) -> (r: Result<(), Error>)
        ensures r is Ok ==> old(fs)@.files.contains_key(a@) && final(fs)@.files == old(fs)@.files.remove(a@).insert(b@, old(fs)@.files[a@]), r is Err ==> final(fs)@.files == old(fs)@.files, final(fs)@.healthy == old(fs)@.healthy, old(fs)@.healthy && old(fs)@.files.contains_key(a@) ==> r is Ok,
            forall|c: FilesV| #[trigger] final(fs)@.crash.contains(c) ==> old(fs)@.crash.contains(c) || c == old(fs)@.files || c == final(fs)@.files { unimplemented!() }
    #[verifier::external_body] pub fn remove_file(p: &PathBuf, fs: &mut Fs) -> (r: Result<(), Error>)
        ensures r is Ok ==> old(fs)@.files.contains_key(p@) && final(fs)@.files == old(fs)@.files.remove(p@), r is Err ==> final(fs)@.files == old(fs)@.files, final(fs)@.healthy == old(fs)@.healthy, old(fs)@.healthy && old(fs)@.files.contains_key(p@) ==> r is Ok,
            forall|c: FilesV| #[trigger] final(fs)@.crash.contains(c) ==> old(fs)@.crash.contains(c) || c == old(fs)@.files || c == final(fs)@.files { unimplemented!() }
    #[verifier::external_body] pub fn copy(a: &PathBuf, b: &PathBuf, fs: &mut Fs) -> (r: Result<u64, Error>)
        ensures r is Ok ==> old(fs)@.files.contains_key(a@) && final(fs)@.files == old(fs)@.files.insert(b@, old(fs)@.files[a@]), except(final(fs)@.files, old(fs)@.files, b@), final(fs)@.healthy == old(fs)@.healthy,
            forall|c: FilesV| #[trigger] final(fs)@.crash.contains(c) ==> old(fs)@.crash.contains(c) || except(c, old(fs)@.files, b@) { unimplemented!() }
    #[verifier::external_body] pub fn read(p: &PathBuf, fs: &mut Fs) -> (r: Result<Vec<u8>, Error>)
        ensures final(fs)@ == old(fs)@, r matches Ok(b) ==> old(fs)@.files.contains_key(p@) && b@ == old(fs)@.files[p@], old(fs)@.healthy && old(fs)@.files.contains_key(p@) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn read_dir(p: &PathBuf, fs: &mut Fs) -> (r: Result<It<Result<DirEntry, Error>>, Error>)
        ensures final(fs)@ == old(fs)@, r matches Ok(it) ==> listing(it@, old(fs)@, p@), old(fs)@.healthy ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn create_dir_all(p: &PathBuf, fs: &mut Fs) -> (r: Result<(), Error>)
        ensures final(fs)@.files == old(fs)@.files, final(fs)@.crash == old(fs)@.crash, final(fs)@.healthy == old(fs)@.healthy, old(fs)@.healthy ==> r is Ok { unimplemented!() }
    }
}
/// bincode: what is encoded is decoded again
pub uninterp spec fn sp_enc<T>(t: T, c: int) -> Seq<u8>;
pub uninterp spec fn sp_dec<T>(b: Seq<u8>, c: int) -> Option<T>;
pub broadcast axiom fn axiom_bincode<T>(t: T, c: int) ensures sp_dec::<T>(#[trigger] sp_enc::<T>(t, c), c) == Some(t);
pub mod bincode {
    pub mod error { use super::super::*; verus! { #[verifier::external_body] pub struct EncodeError { x: u8 } #[verifier::external_body] pub struct DecodeError { x: u8 } } }
    pub mod config { use super::super::*; verus! { pub struct Config { pub k: Ghost<int> }
        pub fn legacy() -> (r: Config) ensures r.k@ == 0 { Config { k: Ghost(0) } }
        pub fn standard() -> (r: Config) ensures r.k@ == 1 { Config { k: Ghost(1) } } } }
    pub mod serde { use super::super::*; verus! {
        #[verifier::external_body] pub fn encode_to_vec<T>(t: &T, c: super::config::Config) -> (r: Result<Vec<u8>, super::error::EncodeError>) ensures r matches Ok(b) ==> b@ == sp_enc::<T>(*t, c.k@) { unimplemented!() }
        #[verifier::external_body] pub fn decode_from_slice<T>(b: &Vec<u8>, c: super::config::Config) -> (r: Result<(T, usize), super::error::DecodeError>) ensures match r { Ok(x) => sp_dec::<T>(b@, c.k@) == Some(x.0), Err(_) => sp_dec::<T>(b@, c.k@) is None } { unimplemented!() } } }
}
#else
#[verifier::external_body] pub struct PathBuf { x: u8 }
impl Cl for PathBuf { #[verifier::external_body] fn cl(&self) -> (r: Self) { unimplemented!() } }
#endif
#[verifier::external_body] pub fn fmt1_<A>(m: &str, a: &A) -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn fmt2_<A, B>(m: &str, a: &A, b: &B) -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn fmt3_<A, B, C>(m: &str, a: &A, b: &B, c: &C) -> (r: String) { unimplemented!() }
impl ToStr for Error { #[verifier::external_body] fn to_string_(&self) -> String { unimplemented!() } #[verifier::external_body] fn to_lowercase_(&self) -> String { unimplemented!() } #[verifier::external_body] fn as_str_(&self) -> &str { unimplemented!() } }
// ---- the evaluation counter ----
pub struct Arc<T> { pub x: T }
impl<T> Arc<T> { pub fn new(x: T) -> (r: Self) ensures r.x == x { Arc { x } } }
#[verifier::external_body] pub struct AtomicU64 { x: u8 }
pub enum AOrdering { Relaxed, SeqCst, Acquire, Release, AcqRel }
impl AtomicU64 { pub uninterp spec fn init(self) -> u64; #[verifier::external_body] pub fn new(n: u64) -> (r: Self) ensures r.init() == n { unimplemented!() } }
impl Cl for Arc<AtomicU64> { #[verifier::external_body] fn cl(&self) -> (r: Self) { unimplemented!() } }
impl Arc<AtomicU64> {
    /// what the counter holds when it is read
    pub uninterp spec fn sp_load(self, o: AOrdering) -> u64;
    #[verifier::external_body] pub fn load(&self, o: AOrdering) -> (r: u64) ensures r == self.sp_load(o) { unimplemented!() }
    /// one call counts one evaluation
    #[verifier::external_body] pub fn fetch_add(&self, n: u64, o: AOrdering) -> (r: u64) requires n == 1 { unimplemented!() }
}
impl Error { #[verifier::external_body] pub fn msg<S>(s: S) -> (r: Error) { unimplemented!() } }
// ---- argmin: the state a run starts from ----
pub struct IterState { pub start: Ghost<Option<Seq<F64>>>, pub max_iters: Option<u64>, pub best_param: Option<Array1<F64>>, pub param: Option<Array1<F64>>, pub best_cost: F64, pub cost: F64 }
impl IterState {
    #[verifier::external_body] pub fn get_best_param(&self) -> (r: Option<&Array1<F64>>) ensures self.best_param is None ==> r is None, self.best_param matches Some(b) ==> r == Some(&b) { unimplemented!() }
    pub fn get_best_cost(&self) -> (r: F64) ensures r == self.best_cost { self.best_cost }
    pub open spec fn sp_param(self, p: Array1<F64>) -> IterState { IterState { start: Ghost(Some(p@)), ..self } }
    pub open spec fn sp_max_iters(self, n: u64) -> IterState { IterState { max_iters: Some(n), ..self } }
    #[verifier::external_body] pub fn param(self, p: Array1<F64>) -> (r: IterState) ensures r == self.sp_param(p) { unimplemented!() }
    pub fn max_iters(self, n: u64) -> (r: IterState) ensures r == self.sp_max_iters(n) { IterState { max_iters: Some(n), ..self } }
}
pub broadcast proof fn lemma_mod_small(a: usize, b: usize) requires a < b ensures #[trigger] (a % b) == a { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, b as nat); }
#if checkpointing
pub broadcast group group_text { axiom_show_string, axiom_show_str, axiom_show_ref, axiom_show_usize, axiom_zero_usize, axiom_to_str, axiom_join, axiom_with_ext, axiom_bincode, lemma_ends_at, lemma_contains_add, lemma_put, lemma_push_contains }
#endif
pub broadcast group group_prelude { axiom_mk_arr, axiom_arr_ext }
} // verus!
}
