verus! {
/// std string and character functions
pub mod st {
    use vstd::prelude::*;
    use vstd::string::*;
    /// length in bytes of a piece of text
    pub open spec fn blen(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
    /// no piece of text is longer than isize::MAX bytes (Rust's allocation limit)
    pub broadcast axiom fn str_bytes_bound(s: &str) ensures (#[trigger] s.spec_bytes()).len() <= 0x7fff_ffff_ffff_ffff;
    pub uninterp spec fn is_ctrl(c: char) -> bool;
    pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
        ensures r as nat == blen(s@);
    pub assume_specification [char::is_control] (c: char) -> (r: bool)
        ensures r == is_ctrl(c);
}
use st::*;
} // verus!
