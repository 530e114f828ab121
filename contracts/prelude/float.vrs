verus! {
/// f64 / f32 as the contracts see them: exact real arithmetic (no rounding, no NaN)
pub mod fl {
    use vstd::prelude::*;
    use core::cmp::Ordering;
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct F { v: f64 }
    impl View for F { type V = real; uninterp spec fn view(&self) -> real; }
    pub uninterp spec fn fmk(r: real) -> F;
    pub broadcast axiom fn fmk_view(r: real) ensures (#[trigger] fmk(r))@ == r;
    pub broadcast axiom fn view_inj(a: F) ensures fmk(#[trigger] a@) == a;
    impl core::ops::Add for F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> F { unimplemented!() } }
    impl core::ops::Sub for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> F { unimplemented!() } }
    impl core::ops::Mul for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> F { unimplemented!() } }
    impl vstd::std_specs::ops::AddSpecImpl for F {
        open spec fn obeys_add_spec() -> bool { true }
        open spec fn add_req(self, rhs: F) -> bool { true }
        open spec fn add_spec(self, rhs: F) -> F { fmk(self@ + rhs@) }
    }
    impl vstd::std_specs::ops::SubSpecImpl for F {
        open spec fn obeys_sub_spec() -> bool { true }
        open spec fn sub_req(self, rhs: F) -> bool { true }
        open spec fn sub_spec(self, rhs: F) -> F { fmk(self@ - rhs@) }
    }
    impl core::ops::Div for F { type Output = F; #[verifier::external_body] fn div(self, o: F) -> F { unimplemented!() } }
    impl vstd::std_specs::ops::DivSpecImpl for F {
        open spec fn obeys_div_spec() -> bool { true }
        open spec fn div_req(self, rhs: F) -> bool { true }
        open spec fn div_spec(self, rhs: F) -> F { fmk(rdiv(self@, rhs@)) }
    }
    impl vstd::std_specs::ops::MulSpecImpl for F {
        open spec fn obeys_mul_spec() -> bool { true }
        open spec fn mul_req(self, rhs: F) -> bool { true }
        open spec fn mul_spec(self, rhs: F) -> F { fmk(self@ * rhs@) }
    }
    impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> bool { unimplemented!() } }
    impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> Option<Ordering> { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for F {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &F) -> bool { self@ == o@ }
    }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for F {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &F) -> Option<Ordering> {
            if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
        }
    }
    pub open spec fn rdiv(a: real, b: real) -> real { a / b }
    pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
    pub open spec fn rmax(a: real, b: real) -> real { if a <= b { b } else { a } }
    impl F {
        #[verifier::external_body] pub fn min(self, o: F) -> (r: F) ensures r@ == rmin(self@, o@) { unimplemented!() }
        #[verifier::external_body] pub fn max(self, o: F) -> (r: F) ensures r@ == rmax(self@, o@) { unimplemented!() }
        #[verifier::external_body] pub fn ceil(self) -> (r: F) ensures self@ <= r@, r@ < self@ + 1real { unimplemented!() }
        #[verifier::external_body] pub fn to_u64(self) -> (r: u64)
            ensures 0real <= self@ && self@ < 18446744073709551616real ==> (r as int) as real <= self@ && self@ < (r as int) as real + 1real { unimplemented!() }
        #[verifier::external_body] pub fn to_u32(self) -> (r: u32)
            ensures 0real <= self@ && self@ < 4294967296real ==> (r as int) as real <= self@ && self@ < (r as int) as real + 1real { unimplemented!() }
    }
    /// `x as f64`
    pub trait ToF: Sized { spec fn rv(self) -> real; fn to_f(self) -> (r: F) ensures r@ == self.rv(); }
    impl ToF for u32 { open spec fn rv(self) -> real { self as int as real } #[verifier::external_body] fn to_f(self) -> F { unimplemented!() } }
    impl ToF for u64 { open spec fn rv(self) -> real { self as int as real } #[verifier::external_body] fn to_f(self) -> F { unimplemented!() } }
    impl ToF for u128 { open spec fn rv(self) -> real { self as int as real } #[verifier::external_body] fn to_f(self) -> F { unimplemented!() } }
    impl ToF for i32 { open spec fn rv(self) -> real { self as int as real } #[verifier::external_body] fn to_f(self) -> F { unimplemented!() } }
}
use fl::*;
} // verus!
