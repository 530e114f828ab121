verus! {
/// std string, character, option functions: what each does to the characters (assumed contracts on std)
pub mod sx {
    use vstd::prelude::*;
    use vstd::string::*;
    use std::str::pattern::Pattern;
    use super::st::*;
    // ---- characters ----
    pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
    pub open spec fn is_upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
    pub open spec fn is_lower(c: char) -> bool { 'a' <= c && c <= 'z' }
    pub open spec fn is_alpha(c: char) -> bool { is_upper(c) || is_lower(c) }
    pub open spec fn is_alnum(c: char) -> bool { is_alpha(c) || is_digit(c) }
    pub open spec fn is_actl(c: char) -> bool { c as u32 <= 31 || c as u32 == 127 }
    pub open spec fn is_hex(c: char) -> bool { is_digit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
    pub open spec fn low(c: char) -> char { if is_upper(c) { ((c as u8) + 32) as u8 as char } else { c } }
    pub open spec fn upp(c: char) -> char { if is_lower(c) { ((c as u8) - 32) as u8 as char } else { c } }
    pub open spec fn is_ws(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
    pub broadcast axiom fn ws_ascii(c: char)
        ensures (c as u32) < 128 ==> (#[trigger] vstd::std_specs::char::is_white_space(c) == (c as u32 == 32 || (9 <= c as u32 && c as u32 <= 13)));
    pub broadcast axiom fn ctrl_ascii(c: char) ensures (c as u32) < 128 ==> (#[trigger] is_ctrl(c) == is_actl(c));
    pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == is_alnum(*c);
    pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == is_alpha(*c);
    pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == is_digit(*c);
    pub assume_specification [char::is_ascii_control] (c: &char) -> (r: bool) ensures r == is_actl(*c);
    pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool) ensures r == is_hex(*c);
    pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
    // ---- text ----
    pub open spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| low(s[i])) }
    pub open spec fn upper(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| upp(s[i])) }
    pub open spec fn eq_ci(a: Seq<char>, b: Seq<char>) -> bool { lower(a) == lower(b) }
    pub open spec fn trim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s[0]) { trim_l(s.drop_first()) } else { s } }
    pub open spec fn trim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trim_r(s.drop_last()) } else { s } }
    pub open spec fn trim_s(s: Seq<char>) -> Seq<char> { trim_r(trim_l(s)) }
    pub uninterp spec fn ulower(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn uupper(s: Seq<char>) -> Seq<char>;
    pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == trim_s(s@);
    pub assume_specification [str::trim_start] (s: &str) -> (r: &str) ensures r@ == trim_l(s@);
    pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == trim_r(s@);
    pub assume_specification [str::eq_ignore_ascii_case] (s: &str, t: &str) -> (r: bool) ensures r == eq_ci(s@, t@);
    pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == lower(s@);
    pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String) ensures r@ == upper(s@);
    pub assume_specification [str::to_lowercase] (s: &str) -> (r: String) ensures r@ == ulower(s@);
    pub assume_specification [str::to_uppercase] (s: &str) -> (r: String) ensures r@ == uupper(s@);
    // ---- searching ----
    pub enum Pat { C(char), S(Seq<char>), Other }
    pub uninterp spec fn pat<P>(p: P) -> Pat;
    pub broadcast axiom fn pat_c(c: char) ensures #[trigger] pat::<char>(c) == Pat::C(c);
    pub broadcast axiom fn pat_s(s: &str) ensures #[trigger] pat::<&str>(s) == Pat::S(s@);
    pub broadcast axiom fn pat_rs(s: &String) ensures #[trigger] pat::<&String>(s) == Pat::S(s@);
    pub open spec fn plen(p: Pat) -> int { match p { Pat::C(_) => 1, Pat::S(t) => t.len() as int, Pat::Other => 0 } }
    pub open spec fn at(s: Seq<char>, p: Pat, i: int) -> bool {
        match p {
            Pat::C(c) => 0 <= i < s.len() && s[i] == c,
            Pat::S(t) => 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t,
            Pat::Other => arbitrary(),
        }
    }
    pub open spec fn occ(s: Seq<char>, p: Pat) -> bool { exists|i: int| #[trigger] at(s, p, i) }
    /// i is the first place p occurs in s
    pub open spec fn first(s: Seq<char>, p: Pat, i: int) -> bool { at(s, p, i) && forall|j: int| 0 <= j < i ==> !#[trigger] at(s, p, j) }
    pub open spec fn last(s: Seq<char>, p: Pat, i: int) -> bool { at(s, p, i) && forall|j: int| j > i ==> !#[trigger] at(s, p, j) }
    pub open spec fn fidx(s: Seq<char>, p: Pat) -> int { choose|i: int| first(s, p, i) }
    pub open spec fn lidx(s: Seq<char>, p: Pat) -> int { choose|i: int| last(s, p, i) }
    pub broadcast proof fn first_is(s: Seq<char>, p: Pat, i: int)
        requires #[trigger] first(s, p, i), p != Pat::Other
        ensures occ(s, p), fidx(s, p) == i
    { let k = fidx(s, p); assert(first(s, p, k)); assert(at(s, p, i)); if k < i { assert(!at(s, p, k)); } else if i < k { assert(!at(s, p, i)); } }
    pub broadcast proof fn last_is(s: Seq<char>, p: Pat, i: int)
        requires #[trigger] last(s, p, i), p != Pat::Other
        ensures occ(s, p), lidx(s, p) == i
    { let k = lidx(s, p); assert(last(s, p, k)); assert(at(s, p, i)); if k < i { assert(!at(s, p, i)); } else if i < k { assert(!at(s, p, k)); } }
    pub assume_specification<P: Pattern> [str::contains] (s: &str, p: P) -> (r: bool) ensures pat(p) != Pat::Other ==> r == occ(s@, pat(p));
    pub assume_specification<P: Pattern> [str::starts_with] (s: &str, p: P) -> (r: bool) ensures pat(p) != Pat::Other ==> r == at(s@, pat(p), 0);
    pub assume_specification<'a, P: Pattern> [str::strip_prefix] (s: &'a str, p: P) -> (r: Option<&'a str>)
        ensures pat(p) != Pat::Other ==> match r { Some(t) => at(s@, pat(p), 0) && t@ == s@.skip(plen(pat(p))), None => !at(s@, pat(p), 0) };
    pub assume_specification<'a, P: Pattern> [str::split_once] (s: &'a str, p: P) -> (r: Option<(&'a str, &'a str)>)
        ensures pat(p) != Pat::Other ==> match r {
            Some((a, b)) => first(s@, pat(p), a@.len() as int) && a@ == s@.take(a@.len() as int) && b@ == s@.skip(a@.len() + plen(pat(p))),
            None => !occ(s@, pat(p)) };
    // byte offsets
    pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && #[trigger] blen(s.take(i)) as int == b }
    pub open spec fn bnd(s: Seq<char>, b: int) -> bool { 0 <= cidx(s, b) <= s.len() && blen(s.take(cidx(s, b))) as int == b }
    pub assume_specification<P: Pattern> [str::find] (s: &str, p: P) -> (r: Option<usize>)
        ensures pat(p) != Pat::Other ==> match r { Some(b) => b < 0x7fff_ffff_ffff_ffff && bnd(s@, b as int) && first(s@, pat(p), cidx(s@, b as int)), None => !occ(s@, pat(p)) };
    // ---- numbers ----
    pub open spec fn dig(c: char) -> nat { (c as u32 - 48) as nat }
    pub open spec fn all_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
    pub open spec fn dec(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + dig(s.last()) } }
    /// str::parse::<unsigned>(): optional '+', digits, in range
    pub open spec fn unum(s: Seq<char>, max: nat) -> Option<nat> {
        let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
        if all_digits(t) && dec(t) <= max { Some(dec(t)) } else { None }
    }
    /// the error of a failed number parse
    pub struct NumErr;
    /// str::parse::<T>() for the unsigned integers (through the rewrite .parse::<T>() => .xp_T())
    pub trait XParse {
        spec fn xv(&self) -> Seq<char>;
        fn xp_u8(&self) -> (r: Result<u8, NumErr>) ensures match r { Ok(v) => unum(self.xv(), 255) == Some(v as nat), Err(_) => unum(self.xv(), 255).is_none() };
        fn xp_u16(&self) -> (r: Result<u16, NumErr>) ensures match r { Ok(v) => unum(self.xv(), 65535) == Some(v as nat), Err(_) => unum(self.xv(), 65535).is_none() };
        fn xp_u32(&self) -> (r: Result<u32, NumErr>) ensures match r { Ok(v) => unum(self.xv(), 0xffff_ffff) == Some(v as nat), Err(_) => unum(self.xv(), 0xffff_ffff).is_none() };
        fn xp_u64(&self) -> (r: Result<u64, NumErr>) ensures match r { Ok(v) => unum(self.xv(), 0xffff_ffff_ffff_ffff) == Some(v as nat), Err(_) => unum(self.xv(), 0xffff_ffff_ffff_ffff).is_none() };
        fn xp_usize(&self) -> (r: Result<usize, NumErr>) ensures match r { Ok(v) => unum(self.xv(), 0xffff_ffff_ffff_ffff) == Some(v as nat), Err(_) => unum(self.xv(), 0xffff_ffff_ffff_ffff).is_none() };
    }
    impl XParse for str {
        open spec fn xv(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn xp_u8(&self) -> (r: Result<u8, NumErr>) { unimplemented!() }
        #[verifier::external_body] fn xp_u16(&self) -> (r: Result<u16, NumErr>) { unimplemented!() }
        #[verifier::external_body] fn xp_u32(&self) -> (r: Result<u32, NumErr>) { unimplemented!() }
        #[verifier::external_body] fn xp_u64(&self) -> (r: Result<u64, NumErr>) { unimplemented!() }
        #[verifier::external_body] fn xp_usize(&self) -> (r: Result<usize, NumErr>) { unimplemented!() }
    }
    // ---- splitting (called through the rewrites .split_whitespace().collect() => split_ws(..)) ----
    pub uninterp spec fn ws_fields(s: Seq<char>) -> Seq<Seq<char>>;
    pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
    pub trait XSplit {
        spec fn xw(&self) -> Seq<char>;
        fn x_split_ws<'a>(&'a self) -> (r: Vec<&'a str>) ensures views(r@) == ws_fields(self.xw()), r@.len() == ws_fields(self.xw()).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == ws_fields(self.xw())[i];
    }
    impl XSplit for str {
        open spec fn xw(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn x_split_ws<'a>(&'a self) -> (r: Vec<&'a str>) { unimplemented!() }
    }
    // ---- options ----
    pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
        requires o matches Some(x) ==> call_requires(f, (x,)),
        ensures match o { Some(x) => call_ensures(f, (x,), r), None => !r };
    pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>)
        ensures r == (match o { Some(x) => Some(*x), None => None });
    pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o.is_some() { o } else { p });
}
use sx::*;
} // verus!
