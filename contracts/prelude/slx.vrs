//@rewrite . chars ( ) . any ( | c | c . is_control ( ) ) ==> .x_any_ctrl()
verus! {
/// slices, splits and iteration of text by byte offsets (assumed contracts on std; the arithmetic on byte
/// offsets is proved from the UTF-8 encoding)
pub mod sl {
    use vstd::prelude::*;
    use vstd::string::*;
    use super::st::*;
    use super::sx::*;
    pub open spec fn clen(c: char) -> nat { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
    pub proof fn blen_first(s: Seq<char>)
        requires s.len() > 0
        ensures blen(s) == clen(s[0]) + blen(s.drop_first())
    { assert(s.drop_first() =~= s.subrange(1, s.len() as int)); reveal_with_fuel(vstd::utf8::encode_utf8, 2); }
    pub proof fn blen_empty() ensures blen(Seq::<char>::empty()) == 0 { reveal_with_fuel(vstd::utf8::encode_utf8, 2); }
    pub proof fn blen_cat(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) { vstd::utf8::encode_utf8_concat(a, b); }
    pub proof fn blen_push(a: Seq<char>, c: char) ensures blen(a.push(c)) == blen(a) + clen(c)
    {
        let t = Seq::<char>::empty().push(c);
        assert(a.push(c) =~= a + t);
        blen_cat(a, t);
        blen_first(t);
        assert(t.drop_first() =~= Seq::<char>::empty());
        blen_empty();
    }
    /// every character takes at least one byte
    pub proof fn blen_len(s: Seq<char>) ensures s.len() <= blen(s), (blen(s) == 0) == (s.len() == 0) decreases s.len()
    { if s.len() > 0 { blen_first(s); blen_len(s.drop_first()); } else { assert(s =~= Seq::empty()); blen_empty(); } }
    pub proof fn blen_take(s: Seq<char>, i: int, j: int)
        requires 0 <= i <= j <= s.len()
        ensures blen(s.take(j)) == blen(s.take(i)) + blen(s.subrange(i, j)), (blen(s.take(i)) == blen(s.take(j))) == (i == j)
    { assert(s.take(j) =~= s.take(i) + s.subrange(i, j)); blen_cat(s.take(i), s.subrange(i, j)); blen_len(s.subrange(i, j)); }
    pub proof fn blen_ascii(s: Seq<char>)
        requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128
        ensures blen(s) == s.len() decreases s.len()
    { if s.len() > 0 { blen_first(s); blen_ascii(s.drop_first()); } else { assert(s =~= Seq::empty()); blen_empty(); } }
    /// offset of character i
    pub open spec fn boff(s: Seq<char>, i: int) -> int { blen(s.take(i)) as int }
    pub proof fn at_char(s: Seq<char>, i: int)
        requires 0 <= i <= s.len()
        ensures bnd(s, boff(s, i)), cidx(s, boff(s, i)) == i
    {
        let k = cidx(s, boff(s, i));
        assert(0 <= k <= s.len() && blen(s.take(k)) as int == boff(s, i));
        if k < i { blen_take(s, k, i); } else { blen_take(s, i, k); }
    }
    pub proof fn at_next(s: Seq<char>, i: int)
        requires 0 <= i < s.len()
        ensures boff(s, i + 1) == boff(s, i) + clen(s[i]), bnd(s, boff(s, i + 1)), cidx(s, boff(s, i + 1)) == i + 1
    { assert(s.take(i + 1) =~= s.take(i).push(s[i])); blen_push(s.take(i), s[i]); at_char(s, i + 1); }
    pub broadcast proof fn at_zero(s: Seq<char>)
        ensures bnd(s, 0), #[trigger] cidx(s, 0) == 0
    { assert(s.take(0) =~= Seq::empty()); blen_empty(); at_char(s, 0); }
    pub proof fn at_end(s: Seq<char>)
        ensures bnd(s, blen(s) as int), cidx(s, blen(s) as int) == s.len()
    { assert(s.take(s.len() as int) =~= s); at_char(s, s.len() as int); }
    pub proof fn mono(s: Seq<char>, a: int, b: int)
        requires bnd(s, a), bnd(s, b)
        ensures a < b <==> cidx(s, a) < cidx(s, b), a == b <==> cidx(s, a) == cidx(s, b), b <= blen(s)
    {
        let i = cidx(s, a); let j = cidx(s, b);
        if i <= j { blen_take(s, i, j); } else { blen_take(s, j, i); }
        blen_take(s, j, s.len() as int); assert(s.take(s.len() as int) =~= s);
    }
    /// stepping over one ASCII character
    pub broadcast proof fn step_ascii(s: Seq<char>, b: int)
        requires bnd(s, b), cidx(s, b) < s.len(), (s[cidx(s, b)] as u32) < 128
        ensures #![trigger bnd(s, b), bnd(s, b + 1)] #![trigger cidx(s, b + 1)] bnd(s, b + 1), cidx(s, b + 1) == cidx(s, b) + 1
    { at_next(s, cidx(s, b)); }
    /// an offset inside a suffix
    pub broadcast proof fn sub_off(s: Seq<char>, a: int, b: int)
        requires bnd(s, a), bnd(s.skip(cidx(s, a)), b)
        ensures #![trigger bnd(s.skip(cidx(s, a)), b)] bnd(s, a + b), cidx(s, a + b) == cidx(s, a) + cidx(s.skip(cidx(s, a)), b)
    {
        let i = cidx(s, a); let j = cidx(s.skip(i), b);
        assert(s.take(i + j) =~= s.take(i) + s.skip(i).take(j));
        blen_cat(s.take(i), s.skip(i).take(j));
        at_char(s, i + j);
    }
    pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
    /// an ASCII prefix of n characters is n bytes long
    pub proof fn at_ascii(s: Seq<char>, n: int)
        requires 0 <= n <= s.len(), ascii(s.take(n))
        ensures bnd(s, n), cidx(s, n) == n
    { blen_ascii(s.take(n)); at_char(s, n); }
    pub open spec fn fields(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
        if s.len() == 0 { Seq::empty().push(Seq::empty()) } else {
            let f = fields(s.drop_last(), c);
            if s.last() == c { f.push(Seq::empty()) } else { f.update(f.len() - 1, f.last().push(s.last())) }
        }
    }
    pub broadcast proof fn fields_some(s: Seq<char>, c: char) ensures (#[trigger] fields(s, c)).len() >= 1 decreases s.len()
    { if s.len() > 0 { fields_some(s.drop_last(), c); } }
    /// s without the matching characters at both ends
    pub open spec fn strip_l(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { strip_l(s.drop_first(), c) } else { s } }
    pub open spec fn strip_r(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { strip_r(s.drop_last(), c) } else { s } }
    pub open spec fn has_ctrl(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && is_ctrl(#[trigger] s[i]) }
    pub trait XSlice {
        spec fn xs(&self) -> Seq<char>;
        fn x_from(&self, a: usize) -> (r: &str) requires bnd(self.xs(), a as int), ensures r@ == self.xs().skip(cidx(self.xs(), a as int));
        fn x_to(&self, b: usize) -> (r: &str) requires bnd(self.xs(), b as int), ensures r@ == self.xs().take(cidx(self.xs(), b as int));
        fn x_sub(&self, a: usize, b: usize) -> (r: &str) requires a <= b, bnd(self.xs(), a as int), bnd(self.xs(), b as int),
            ensures r@ == self.xs().subrange(cidx(self.xs(), a as int), cidx(self.xs(), b as int)),
                r@ == self.xs().skip(cidx(self.xs(), a as int)).take(cidx(self.xs(), b as int) - cidx(self.xs(), a as int));
        fn x_get_to(&self, b: usize) -> (r: Option<&str>)
            ensures match r { Some(t) => bnd(self.xs(), b as int) && t@ == self.xs().take(cidx(self.xs(), b as int)), None => !bnd(self.xs(), b as int) };
        /// split(c) collected
        fn x_split_c(&self, c: char) -> (r: Vec<&str>) ensures r@.len() == fields(self.xs(), c).len(), r@.len() >= 1, r@.len() <= blen(self.xs()) + 1, views(r@) == fields(self.xs(), c),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == fields(self.xs(), c)[i];
        /// char_indices() collected
        fn x_char_indices(&self) -> (r: Vec<(usize, char)>) ensures r@.len() == self.xs().len(), r@.len() <= 0x7fff_ffff_ffff_ffff,
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == self.xs()[i] && r@[i].0 as int == boff(self.xs(), i) && r@[i].0 < 0x7fff_ffff_ffff_ffff;
        fn x_any_ctrl(&self) -> (r: bool) ensures r == has_ctrl(self.xs());
        fn x_chars(&self) -> (r: Vec<char>) ensures r@ == self.xs();
        fn x_rfind_c(&self, c: char) -> (r: Option<usize>)
            ensures match r { Some(b) => b < 0x7fff_ffff_ffff_ffff && bnd(self.xs(), b as int) && last(self.xs(), Pat::C(c), cidx(self.xs(), b as int)), None => !occ(self.xs(), Pat::C(c)) };
        fn x_ends_with_c(&self, c: char) -> (r: bool) ensures r == (self.xs().len() > 0 && self.xs().last() == c);
        fn x_trim_c(&self, c: char) -> (r: &str) ensures r@ == strip_r(strip_l(self.xs(), c), c);
        fn x_trim_end_c(&self, c: char) -> (r: &str) ensures r@ == strip_r(self.xs(), c);
        fn x_ws_first(&self) -> (r: Option<&str>) ensures match r { Some(t) => ws_fields(self.xs()).len() > 0 && t@ == ws_fields(self.xs())[0], None => ws_fields(self.xs()).len() == 0 };
    }
    impl XSlice for str {
        open spec fn xs(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn x_from(&self, a: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn x_to(&self, b: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn x_sub(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn x_get_to(&self, b: usize) -> (r: Option<&str>) { unimplemented!() }
        #[verifier::external_body] fn x_split_c(&self, c: char) -> (r: Vec<&str>) { unimplemented!() }
        #[verifier::external_body] fn x_char_indices(&self) -> (r: Vec<(usize, char)>) { unimplemented!() }
        #[verifier::external_body] fn x_any_ctrl(&self) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn x_chars(&self) -> (r: Vec<char>) { unimplemented!() }
        #[verifier::external_body] fn x_rfind_c(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
        #[verifier::external_body] fn x_ends_with_c(&self, c: char) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn x_trim_c(&self, c: char) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn x_trim_end_c(&self, c: char) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn x_ws_first(&self) -> (r: Option<&str>) { unimplemented!() }
    }
}
use sl::*;
} // verus!
