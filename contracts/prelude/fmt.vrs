verus! {
/// printing: what {} writes for each argument type (assumed contracts on std::fmt)
pub mod fmtx {
    use vstd::prelude::*;
    use vstd::string::*;
    use super::st::*;
    use super::sx::*;
    use super::sm::*;
    pub struct FmtErr;
    /// the character of a decimal digit
    pub open spec fn dch(n: nat) -> char { (48 + n % 10) as u8 as char }
    /// decimal digits of n, no leading zero
    pub open spec fn dtext(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dch(n)] } else { dtext(n / 10).push(dch(n)) } }
    pub proof fn dtext_dec(n: nat)
        ensures dec(dtext(n)) == n, all_digits(dtext(n)), dtext(n).len() >= 1
        decreases n
    {
        if n < 10 { let t = seq![dch(n)]; assert(t.drop_last() =~= Seq::<char>::empty()); assert(t.last() == dch(n)); assert(dec(t.drop_last()) == 0); }
        else { dtext_dec(n / 10); let t = dtext(n / 10).push(dch(n)); assert(t.drop_last() =~= dtext(n / 10)); }
    }
    pub proof fn dtext_len(n: nat, k: nat, p: nat)
        requires n < p, k >= 1, p == pow10(k)
        ensures dtext(n).len() <= k
        decreases n
    { if n >= 10 { assert(k > 1) by { if k == 1 { assert(pow10(1) == 10 * pow10(0)); assert(pow10(0) == 1); } } assert(pow10(k) == 10 * pow10((k - 1) as nat)); dtext_len(n / 10, (k - 1) as nat, pow10((k - 1) as nat)); } }
    pub open spec fn pow10(k: nat) -> nat decreases k { if k == 0 { 1 } else { 10 * pow10((k - 1) as nat) } }
    pub uninterp spec fn dbg<T: ?Sized>(t: &T) -> Seq<char>;
    pub uninterp spec fn fmt_as<T: ?Sized>(t: &T, how: Seq<char>) -> Seq<char>;
    pub trait XFmt { spec fn fv(&self) -> Seq<char>; fn x_text(&self) -> (r: String) ensures r@ == self.fv(); }
    impl XFmt for str { open spec fn fv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
    impl XFmt for String { open spec fn fv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
    impl XFmt for SmolStr { open spec fn fv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
    impl XFmt for char { open spec fn fv(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
    impl XFmt for u8 { open spec fn fv(&self) -> Seq<char> { dtext(*self as nat) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
    impl XFmt for u16 { open spec fn fv(&self) -> Seq<char> { dtext(*self as nat) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
    impl XFmt for u32 { open spec fn fv(&self) -> Seq<char> { dtext(*self as nat) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
    impl XFmt for u64 { open spec fn fv(&self) -> Seq<char> { dtext(*self as nat) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
    impl XFmt for usize { open spec fn fv(&self) -> Seq<char> { dtext(*self as nat) } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
    impl<T: XFmt + ?Sized> XFmt for &T { open spec fn fv(&self) -> Seq<char> { (**self).fv() } #[verifier::external_body] fn x_text(&self) -> (r: String) { unimplemented!() } }
    /// somewhere text is written to
    pub trait XSink {
        spec fn sv(&self) -> Seq<char>;
        fn x_push(&mut self, t: &str) ensures final(self).sv() == old(self).sv() + t@;
        fn x_fmt<T: XFmt + ?Sized>(&mut self, t: &T) ensures final(self).sv() == old(self).sv() + t.fv();
        fn x_fmt_as<T: ?Sized>(&mut self, t: &T, how: &str) ensures final(self).sv() == old(self).sv() + fmt_as(t, how@);
        fn x_dbg<T: ?Sized>(&mut self, t: &T) ensures final(self).sv() == old(self).sv() + dbg(t);
    }
    impl XSink for String {
        open spec fn sv(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn x_push(&mut self, t: &str) { unimplemented!() }
        #[verifier::external_body] fn x_fmt<T: XFmt + ?Sized>(&mut self, t: &T) { unimplemented!() }
        #[verifier::external_body] fn x_fmt_as<T: ?Sized>(&mut self, t: &T, how: &str) { unimplemented!() }
        #[verifier::external_body] fn x_dbg<T: ?Sized>(&mut self, t: &T) { unimplemented!() }
    }
    /// std::fmt::Formatter as the text written so far
    #[verifier::external_body] pub struct Fmtr { x: u128 }
    impl View for Fmtr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    impl XSink for Fmtr {
        open spec fn sv(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn x_push(&mut self, t: &str) { unimplemented!() }
        #[verifier::external_body] fn x_fmt<T: XFmt + ?Sized>(&mut self, t: &T) { unimplemented!() }
        #[verifier::external_body] fn x_fmt_as<T: ?Sized>(&mut self, t: &T, how: &str) { unimplemented!() }
        #[verifier::external_body] fn x_dbg<T: ?Sized>(&mut self, t: &T) { unimplemented!() }
    }
}
use fmtx::*;
} // verus!
