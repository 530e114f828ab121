//@include base
//@include str
//@include strx
//@include slx
//@include smol
//@include chars
//@rewrite $a . extend ( $*e ) ; ==> { let mut e__ = $e; let ghost e0__ = e__@; let ghost a0__ = $a@; $a.append(&mut e__); proof { assert($a@.skip(a0__.len() as int) =~= e0__); } }
//@rewrite usize :: from ( needs_pad ) ==> (if needs_pad { 1usize } else { 0usize })
//@rewrite . as_bytes ( ) ==> .x_bytes()
//@rewrite . as_ref ( ) ==> .x_ref()
//@rewrite . as_deref ( ) ==> .x_deref()
//@rewrite . unwrap_or_default ( ) ==> .x_or_empty()
//@rewrite header . alg != $l ==> header.alg.as_str() != $l
//@rewrite serde_json :: to_vec ( $*a ) . map_err ( | e | SignError :: Json ( e . to_string ( ) ) ) ==> x_ser($a).x_else(SignError::Json(String::new()))
//@rewrite . map_err ( | _ | SignError :: Signing ( $*c ) ) ==> .x_else(SignError::Signing(String::new()))
//@rewrite . map_err ( | e | IdentityError :: Base64 ( e . to_string ( ) ) ) ==> .x_else(IdentityError::Base64(String::new()))
//@rewrite . map_err ( | e | VerifyError :: ChainInvalid ( e . to_string ( ) ) ) ==> .x_else(VerifyError::ChainInvalid(String::new()))
//@rewrite . map_err ( | e | VerifyError :: CertParse ( $*c ) ) ==> .x_else(VerifyError::CertParse(String::new()))
//@rewrite . map_err ( | e | IdentityError :: Json ( $*c ) ) ==> .x_else(IdentityError::Json(String::new()))
//@rewrite . ok_or_else ( || IdentityError :: InvalidParam ( $*c ) ) ==> .x_or_err(IdentityError::InvalidParam(String::new()))
//@rewrite serde_json :: from_slice ( $*a ) ==> x_json($a)
//@rewrite let ( Some ( p_b64 ) , Some ( c_b64 ) , Some ( s_b64 ) , None ) = ( $*e ) else { $*b } ; ==> let (p_b64, c_b64, s_b64) = match ($e) { (Some(a__), Some(b__), Some(c__), None) => (a__, b__, c__), _ => { $b } };
//@rewrite token . split ( '.' ) . count ( ) ==> token.x_split_it('.').x_count()
//@rewrite $a . split ( '.' ) ==> $a.x_split_it('.')
//@rewrite $a . split ( ';' ) ==> $a.x_split_it(';')
//@rewrite for seg in segments { $*b } ==> while let Some(seg) = segments.next() { $b }
//@rewrite match raw_claims . attest . x_deref ( ) { $*b } ==> match raw_claims.attest.x_deref() { $b }
//@rewrite . and_then ( | o | $*b ) ==> .and_then(|o: Orig| -> (r: Option<String>) ensures r == o.tn { $b })
//@rewrite . and_then ( | d | $*b ) ==> .and_then(|d: Dest| -> (r: Option<Vec<String>>) ensures r == d.tn { $b })
//@rewrite trust_anchor_ders . iter ( ) . map ( | d | CertificateDer :: from ( * d ) ) . collect ( ) ==> x_ders(trust_anchor_ders)
//@rewrite intermediates . iter ( ) . map ( | d | CertificateDer :: from ( * d ) ) . collect ( ) ==> x_ders(intermediates)
//@rewrite anchor_certs . iter ( ) . map ( | c | anchor_from_trusted_cert ( c ) ) . collect :: < Result < Vec < _ > , _ > > ( ) ==> x_anchors(&anchor_certs)
//@rewrite EndEntityCert :: try_from ( $*a ) ==> x_cert($a)
//@rewrite s . strip_prefix ( $*p ) . and_then ( | s | s . strip_suffix ( $*q ) ) ==> (match s.strip_prefix($p) { Some(s) => s.x_strip_end($q), None => None })
//@rewrite . map ( | inner | $*b ) ==> .map(|inner: &str| -> (o: String) ensures o@ == trim_s(inner@) { $b })
//@include errx
//@include strit
//@include fmt
verus! {
broadcast use {prel::str_ext, sx::pat_c, sx::ws_ascii, st::str_bytes_bound};
/// the crates the identity code relies on (assumed contracts)
pub mod dep {
    use super::*;
    use vstd::utf8::encode_utf8;
    // ---- base64 ----
    pub enum B64 { UrlNoPad, Url, Std, StdNoPad }
    pub const URL_SAFE_NO_PAD: B64 = B64::UrlNoPad;
    pub const URL_SAFE: B64 = B64::Url;
    pub const STANDARD: B64 = B64::Std;
    pub const STANDARD_NO_PAD: B64 = B64::StdNoPad;
    pub uninterp spec fn b64d(e: B64, s: Seq<char>) -> Option<Seq<u8>>;
    pub uninterp spec fn b64e(e: B64, b: Seq<u8>) -> Seq<char>;
    /// characters of the URL-safe alphabet
    pub open spec fn b64c(c: char) -> bool { is_alnum(c) || c == '-' || c == '_' }
    /// encoding is undone by decoding, stays in the alphabet, and no other text decodes to the same octets (the engine refuses padding and stray bits)
    pub axiom fn b64_back(b: Seq<u8>) ensures b64d(B64::UrlNoPad, b64e(B64::UrlNoPad, b)) == Some(b), forall|i: int| 0 <= i < b64e(B64::UrlNoPad, b).len() ==> b64c(#[trigger] b64e(B64::UrlNoPad, b)[i]), b.len() > 0 ==> b64e(B64::UrlNoPad, b).len() > 0;
    pub axiom fn b64_once(s: Seq<char>, t: Seq<char>) requires b64d(B64::UrlNoPad, s).is_some(), b64d(B64::UrlNoPad, s) == b64d(B64::UrlNoPad, t) ensures s == t;
    pub axiom fn b64_text(s: Seq<char>) requires b64d(B64::UrlNoPad, s).is_some() ensures forall|i: int| 0 <= i < s.len() ==> b64c(#[trigger] s[i]);
    pub trait XB<T> { spec fn bs(&self) -> Seq<u8>; }
    impl B64 {
        #[verifier::external_body] pub fn decode(&self, s: &str) -> (r: Result<Vec<u8>, NumErr>) ensures match r { Ok(v) => b64d(*self, s@) == Some(v@), Err(_) => b64d(*self, s@).is_none() } { unimplemented!() }
        #[verifier::external_body] pub fn encode(&self, b: &Vec<u8>) -> (r: String) ensures r@ == b64e(*self, b@), blen(r@) <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    }
    // ---- JSON ----
    /// serde_json::from_slice, for each type read: a function of the octets
    pub trait FromJson: Sized { spec fn of(b: Seq<u8>) -> Option<Self>; }
    #[verifier::external_body] pub fn x_json<T: FromJson>(b: &Vec<u8>) -> (r: Result<T, NumErr>) ensures match r { Ok(v) => T::of(b@) == Some(v), Err(_) => T::of(b@).is_none() } { unimplemented!() }
    /// serde_json::to_vec: what the written octets say when read by the types of passport.rs
    pub trait Ser { spec fn reads(&self, b: Seq<u8>) -> bool; }
    #[verifier::external_body] pub fn x_ser<T: Ser>(t: &T) -> (r: Result<Vec<u8>, NumErr>) ensures r matches Ok(b) ==> t.reads(b@) && b@.len() > 0 { unimplemented!() }
    // ---- signatures: ring ----
    pub enum VAlg { P256Fixed, P256Asn1, P384Fixed, P384Asn1, Ed, Other }
    pub const ECDSA_P256_SHA256_FIXED: VAlg = VAlg::P256Fixed;
    pub const ECDSA_P256_SHA256_ASN1: VAlg = VAlg::P256Asn1;
    pub const ECDSA_P384_SHA384_FIXED: VAlg = VAlg::P384Fixed;
    /// the signature is one made with the key over exactly this text
    pub uninterp spec fn sig_ok(alg: VAlg, key: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;
    pub struct UnparsedPublicKey<'a> { pub alg: &'a VAlg, pub key: &'a [u8] }
    impl<'a> UnparsedPublicKey<'a> {
        pub fn new(alg: &'a VAlg, key: &'a [u8]) -> (r: Self) ensures r.alg == alg, r.key == key { UnparsedPublicKey { alg, key } }
        #[verifier::external_body] pub fn verify(&self, msg: &Vec<u8>, sig: &Vec<u8>) -> (r: Result<(), NumErr>) ensures r.is_ok() == sig_ok(*self.alg, self.key@, msg@, sig@) { unimplemented!() }
    }
    #[verifier::external_body] pub struct EcdsaKeyPair { p: u8 }
    #[verifier::external_body] pub struct SecureRandom { p: u8 }
    #[verifier::external_body] pub struct Signature { p: u8 }
    impl Signature { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn x_ref(&self) -> (r: &Vec<u8>) ensures r@ == self@ { unimplemented!() } }
    impl EcdsaKeyPair {
        /// the public key of this pair, as an uncompressed P-256 point
        pub uninterp spec fn pk(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn sign(&self, rng: &SecureRandom, msg: &Vec<u8>) -> (r: Result<Signature, NumErr>)
            ensures r matches Ok(s) ==> sig_ok(VAlg::P256Fixed, self.pk(), msg@, s@) && s@.len() == 64 && self.pk().len() == 65 && self.pk()[0] == 4 { unimplemented!() }
    }
    // ---- certificates: webpki ----
    #[verifier::external_body] pub struct UnixTime { p: u8 }
    #[verifier::external_body] pub struct CertificateDer { p: u8 }
    impl CertificateDer { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn from(d: &[u8]) -> (r: Self) ensures r@ == d@ { unimplemented!() } }
    #[verifier::external_body] pub struct TrustAnchor { p: u8 }
    impl TrustAnchor { pub uninterp spec fn view(&self) -> Seq<u8>; }
    #[verifier::external_body] pub struct EndEntityCert { p: u8 }
    pub struct AlgSet { pub all: bool }
    pub open spec fn raw(v: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
    pub open spec fn ders(v: Seq<CertificateDer>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
    pub open spec fn roots(v: Seq<TrustAnchor>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
    pub uninterp spec fn is_cert(der: Seq<u8>) -> bool;
    pub uninterp spec fn is_anchor(der: Seq<u8>) -> bool;
    /// the public key in a certificate, as an uncompressed point
    pub uninterp spec fn cert_key(der: Seq<u8>) -> Seq<u8>;
    /// the certificate leads to one of the roots at this time through the given intermediates, for any usage, without revocation lists
    pub uninterp spec fn chain_ok(ee: Seq<u8>, all_algs: bool, anchors: Seq<Seq<u8>>, inter: Seq<Seq<u8>>, now: UnixTime, eku_any: bool) -> bool;
    pub uninterp spec fn cert_sig_ok(ee: Seq<u8>, alg: VAlg, msg: Seq<u8>, sig: Seq<u8>) -> bool;
    #[verifier::external_body] pub fn x_ders(v: &[&[u8]]) -> (r: Vec<CertificateDer>) ensures ders(r@) == raw(v@) { unimplemented!() }
    #[verifier::external_body] pub fn x_anchors(v: &Vec<CertificateDer>) -> (r: Result<Vec<TrustAnchor>, NumErr>)
        ensures r.is_ok() == (forall|i: int| 0 <= i < v@.len() ==> is_anchor(#[trigger] ders(v@)[i])), r matches Ok(a) ==> roots(a@) == ders(v@) { unimplemented!() }
    #[verifier::external_body] pub fn x_cert(d: &CertificateDer) -> (r: Result<EndEntityCert, NumErr>) ensures r.is_ok() == is_cert(d@), r matches Ok(c) ==> c@ == d@ { unimplemented!() }
    pub trait ExtendedKeyUsageValidator { spec fn any(&self) -> bool; }
    pub struct KeyPurposeIdIter;
    impl EndEntityCert {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn verify_for_usage<U: ExtendedKeyUsageValidator>(&self, algs: AlgSet, anchors: &Vec<TrustAnchor>, inter: &Vec<CertificateDer>, now: UnixTime, eku: U, rev: Option<u8>, path: Option<u8>) -> (r: Result<(), NumErr>)
            ensures rev.is_none() && path.is_none() ==> r.is_ok() == chain_ok(self@, algs.all, roots(anchors@), ders(inter@), now, eku.any()) { unimplemented!() }
        #[verifier::external_body] pub fn verify_signature(&self, alg: VAlg, msg: &Vec<u8>, sig: &Vec<u8>) -> (r: Result<(), NumErr>) ensures r.is_ok() == cert_sig_ok(self@, alg, msg@, sig@) { unimplemented!() }
    }
    // ---- text ----
    pub trait XBytes { spec fn cs(&self) -> Seq<char>; fn x_bytes(&self) -> (r: &[u8]) ensures r@ == encode_utf8(self.cs());
        fn x_strip_end(&self, c: char) -> (r: Option<&str>) ensures match r { Some(t) => self.cs().len() > 0 && self.cs().last() == c && t@ == self.cs().drop_last(), None => !(self.cs().len() > 0 && self.cs().last() == c) }; }
    impl XBytes for str { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_bytes(&self) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn x_strip_end(&self, c: char) -> (r: Option<&str>) { unimplemented!() } }
    impl<'a> XIt<'a> { #[verifier::external_body] pub fn x_count(self) -> (r: usize) { unimplemented!() } }
    pub trait XDeref { spec fn ds(&self) -> Option<Seq<char>>; fn x_deref(&self) -> (r: Option<&str>) ensures match r { Some(t) => self.ds() == Some(t@), None => self.ds().is_none() }; }
    pub open spec fn ostr(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
    impl XDeref for Option<String> { open spec fn ds(&self) -> Option<Seq<char>> { ostr(*self) } #[verifier::external_body] fn x_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
    pub trait XOrEmpty: Sized { spec fn oe(&self) -> Option<Seq<String>>; fn x_or_empty(self) -> (r: Vec<String>) ensures match self.oe() { Some(s) => r@ == s, None => r@.len() == 0 }; }
    impl XOrEmpty for Option<Vec<String>> { open spec fn oe(&self) -> Option<Seq<String>> { match *self { Some(v) => Some(v@), None => None } } #[verifier::external_body] fn x_or_empty(self) -> (r: Vec<String>) { unimplemented!() } }
}
use dep::*;
use vstd::utf8::encode_utf8;
pub mod webpki { use super::dep::*; use vstd::prelude::*;
    pub const ALL_VERIFICATION_ALGS: AlgSet = AlgSet { all: true };
    pub mod ring { use super::super::dep::*; use vstd::prelude::*;
        pub const ECDSA_P256_SHA256: VAlg = VAlg::P256Asn1; pub const ECDSA_P384_SHA384: VAlg = VAlg::P384Asn1; pub const ECDSA_P256_SHA384: VAlg = VAlg::Other; pub const ECDSA_P384_SHA256: VAlg = VAlg::Other; pub const ED25519: VAlg = VAlg::Ed; }
    pub struct Error; }
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }

//@file crates/sip-identity/src/error.rs
//@enum IdentityError
//@file crates/sip-identity/src/verify.rs
//@enum VerifyError
//@const P256_UNCOMPRESSED_LEN
//@file crates/sip-identity/src/passport.rs
//@enum AttestationLevel derive=Clone,Copy
//@struct PassportHeader
//@struct PassportClaims
//@struct Passport
//@struct RawHeader
//@struct RawClaims
//@struct Orig
//@struct Dest
pub uninterp spec fn json_header(b: Seq<u8>) -> Option<RawHeader>;
pub uninterp spec fn json_claims(b: Seq<u8>) -> Option<RawClaims>;
impl FromJson for RawHeader { open spec fn of(b: Seq<u8>) -> Option<Self> { json_header(b) } }
impl FromJson for RawClaims { open spec fn of(b: Seq<u8>) -> Option<Self> { json_claims(b) } }

// ---- what a token says ------------------------------------------------------------------------------------------
pub open spec fn att_of(s: Seq<char>) -> Option<AttestationLevel> { if s == seq!['A'] { Some(AttestationLevel::A) } else if s == seq!['B'] { Some(AttestationLevel::B) } else if s == seq!['C'] { Some(AttestationLevel::C) } else { None } }
pub open spec fn att_text(a: AttestationLevel) -> Seq<char> { match a { AttestationLevel::A => seq!['A'], AttestationLevel::B => seq!['B'], AttestationLevel::C => seq!['C'] } }
/// the header and claims of a token, and what its signature is and covers
pub ghost struct PH { pub alg: Seq<char>, pub typ: Option<Seq<char>>, pub ppt: Option<Seq<char>>, pub x5u: Seq<char> }
pub ghost struct PC { pub attest: Option<AttestationLevel>, pub orig: Option<Seq<char>>, pub dest: Seq<Seq<char>>, pub iat: Option<i64>, pub origid: Option<Seq<char>> }
pub ghost struct PV { pub h: PH, pub c: PC, pub input: Seq<u8>, pub sig: Seq<u8> }
pub open spec fn hv(h: PassportHeader) -> PH { PH { alg: h.alg@, typ: ostr(h.typ), ppt: ostr(h.ppt), x5u: h.x5u@ } }
pub open spec fn cv(c: PassportClaims) -> PC { PC { attest: c.attest, orig: ostr(c.orig_tn), dest: strs(c.dest_tns@), iat: c.iat, origid: ostr(c.origid) } }
pub open spec fn pv(p: Passport) -> PV { PV { h: hv(p.header), c: cv(p.claims), input: p.signing_input@, sig: p.signature@ } }
pub open spec fn read_header(b: Seq<u8>) -> Option<PH> { match json_header(b) { Some(h) => match h.x5u { Some(x) => Some(PH { alg: h.alg@, typ: ostr(h.typ), ppt: ostr(h.ppt), x5u: x@ }), None => None }, None => None } }
pub open spec fn read_claims(b: Seq<u8>) -> Option<PC> {
    match json_claims(b) {
        Some(c) => match c.attest { Some(a) => match att_of(a@) { Some(l) => Some(claims_with(c, Some(l))), None => None }, None => Some(claims_with(c, None)) },
        None => None } }
pub open spec fn claims_with(c: RawClaims, a: Option<AttestationLevel>) -> PC {
    PC { attest: a, orig: (match c.orig { Some(o) => ostr(o.tn), None => None }), dest: (match c.dest { Some(d) => match d.tn { Some(v) => strs(v@), None => Seq::empty() }, None => Seq::empty() }), iat: c.iat, origid: ostr(c.origid) } }
pub open spec fn u64d(s: Seq<char>) -> Option<Seq<u8>> { b64d(B64::UrlNoPad, s) }
/// the reading of a token of three parts
pub open spec fn tok3(a: Seq<char>, b: Seq<char>, c: Seq<char>) -> Option<PV> {
    if u64d(a).is_some() && u64d(b).is_some() && u64d(c).is_some() && read_header(u64d(a)->0).is_some() && read_claims(u64d(b)->0).is_some() {
        Some(PV { h: read_header(u64d(a)->0)->0, c: read_claims(u64d(b)->0)->0, input: encode_utf8(a + ch('.') + b), sig: u64d(c)->0 })
    } else { None } }
pub open spec fn ch(c: char) -> Seq<char> { seq![c] }
#[verifier::opaque]
pub open spec fn tok_read(t: Seq<char>) -> Option<PV> { let f = fields(t, '.'); if f.len() == 3 { tok3(f[0], f[1], f[2]) } else { None } }
/// a signature check of what was read
pub open spec fn checked(p: PV, key: Seq<u8>) -> bool { p.h.alg == "ES256"@ && key.len() == 65 && key[0] == 4 && sig_ok(VAlg::P256Fixed, key, p.input, p.sig) }
/// a check under a certificate chain
pub open spec fn chained(p: PV, ee: Seq<u8>, inter: Seq<Seq<u8>>, anchors: Seq<Seq<u8>>, now: UnixTime) -> bool {
    p.h.alg == "ES256"@ && is_cert(ee) && (forall|i: int| 0 <= i < anchors.len() ==> is_anchor(#[trigger] anchors[i])) && chain_ok(ee, true, anchors, inter, now, true)
    && p.sig.len() == 64 && sig_ok(VAlg::P256Fixed, cert_key(ee), p.input, p.sig) }

impl AttestationLevel {
//@fn AttestationLevel::parse
@props P21
    ensures match r { Ok(a) => att_of(s@) == Some(a), Err(_) => att_of(s@).is_none() }
@ret r
@entry
    proof { abc(); }
//@end
//@fn AttestationLevel::as_str
@props P21
    ensures r@ == att_text(self)
@ret r
@entry
    proof { abc(); }
//@end
}
proof fn abc() ensures "A"@ == seq!['A'], "B"@ == seq!['B'], "C"@ == seq!['C'] { reveal_strlit("A"); reveal_strlit("B"); reveal_strlit("C"); assert("A"@ =~= seq!['A']); assert("B"@ =~= seq!['B']); assert("C"@ =~= seq!['C']); }
//@fn b64url
@props P21
    ensures match r { Ok(v) => u64d(s@) == Some(v@), Err(_) => u64d(s@).is_none() }
@ret r
//@end
impl Passport {
//@fn Passport::decode
@props P21
    ensures match r { Ok(p) => tok_read(token@) == Some(pv(p)), Err(_) => tok_read(token@).is_none() }
@ret r
@rewrite let x5u = $*e . ok_or ( $*f ) ? ; ==> let x5u = $e.x_or_err($f)?;
@rewrite Ok ( Self { $*f } ) ==> { proof { enc3(fs[0], fs[1]); assert(fs.len() == 3); assert(signing_input@ =~= encode_utf8(fs[0] + ch('.') + fs[1])); assert(strs(claims.dest_tns@) =~= cv(claims).dest); assert(tok3(fs[0], fs[1], fs[2]).is_some()); let t__ = tok3(fs[0], fs[1], fs[2])->0; assert(cv(claims).dest =~= t__.c.dest); assert(cv(claims) == t__.c); assert(hv(header) == t__.h); } Ok(Self { $f }) }
@entry
    proof { reveal(tok_read); }
    let ghost fs = fields(token@, '.');
//@end
}
proof fn enc3(a: Seq<char>, b: Seq<char>) ensures encode_utf8(a + ch('.') + b) == encode_utf8(a) + seq![46u8] + encode_utf8(b)
{ vstd::utf8::encode_utf8_concat(a + ch('.'), b); vstd::utf8::encode_utf8_concat(a, ch('.')); dot(); }
proof fn dot() ensures encode_utf8(ch('.')) == seq![46u8]
{ reveal_with_fuel(vstd::utf8::encode_utf8, 3); assert(ch('.').drop_first() =~= Seq::<char>::empty()); vstd::utf8::is_ascii_chars_encode_utf8(ch('.')); assert(encode_utf8(ch('.')) =~= seq![46u8]); }

// ---- the signature check -----------------------------------------------------------------------------------------
//@file crates/sip-identity/src/verify.rs
impl Passport {
//@fn Passport::verify_signature
@props P21
    ensures r.is_ok() == checked(pv(*self), public_key_sec1@)
@ret r
//@end
}

// ---- the certificate chain ---------------------------------------------------------------------------------------
/// the number these octets stand for
pub open spec fn beval(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { beval(s.drop_last()) * 256 + s.last() as nat } }
/// e is the DER encoding of that number: tag, short length, shortest two's complement content without a sign bit
pub open spec fn der_int(e: Seq<u8>, n: nat) -> bool {
    3 <= e.len() < 130 && e[0] == 2 && e[1] as int == e.len() - 2 && e[2] < 128 && (e.len() > 3 && e[2] == 0 ==> e[3] >= 128) && beval(e.skip(2)) == n }
pub open spec fn der_at(der: Seq<u8>, k: int, r: nat, s: nat) -> bool { 2 <= k <= der.len() && der_int(der.subrange(2, k), r) && der_int(der.skip(k), s) }
/// der is the DER sequence of the two numbers
pub open spec fn der_sig(der: Seq<u8>, r: nat, s: nat) -> bool { der.len() >= 2 && der[0] == 0x30 && der[1] as int == der.len() - 2 && der[1] < 128 && exists|k: int| #[trigger] der_at(der, k, r, s) }
/// webpki takes the DER form of a signature, ring the fixed one: the two agree on the key of the certificate
pub axiom fn same_sig(ee: Seq<u8>, msg: Seq<u8>, der: Seq<u8>, sig: Seq<u8>)
    requires sig.len() == 64, der_sig(der, beval(sig.take(32)), beval(sig.skip(32)))
    ensures cert_sig_ok(ee, VAlg::P256Asn1, msg, der) == sig_ok(VAlg::P256Fixed, cert_key(ee), msg, sig);
proof fn beval_zero(s: Seq<u8>) requires s.len() > 0, s[0] == 0 ensures beval(s.skip(1)) == beval(s) decreases s.len()
{
    if s.len() == 1 { assert(s.skip(1).len() == 0); assert(s.drop_last().len() == 0); assert(beval(s.drop_last()) == 0); assert(beval(s.skip(1)) == 0); assert(s.last() == 0); }
    else { beval_zero(s.drop_last()); assert(s.skip(1).drop_last() =~= s.drop_last().skip(1)); assert(s.skip(1).last() == s.last()); assert(s.drop_last()[0] == 0); assert(beval(s.skip(1)) == beval(s.skip(1).drop_last()) * 256 + s.skip(1).last() as nat); }
}
//@file crates/sip-identity/src/chain.rs
//@struct AnyEku
impl ExtendedKeyUsageValidator for AnyEku { open spec fn any(&self) -> bool { true } }
impl AnyEku {
//@fn AnyEku::validate trait=ExtendedKeyUsageValidator
@props P21
@sig (&self, _ekus: KeyPurposeIdIter) -> Result<(), webpki::Error>
    ensures r.is_ok()
@ret r
//@end
}
//@fn der_unsigned_integer
@props P21
    requires 1 <= be@.len() <= 32
    ensures der_int(r@, beval(be@)), r@.len() <= 35
@ret r
@entry
    let ghost mut k__: int = 0;
    proof { assert(be@.skip(0) =~= be@); }
@loop 1
    invariant 0 <= k__ < be@.len() <= 32, v@ == be@.skip(k__), beval(v@) == beval(be@)
    decreases v@.len()
@loopbody 1
    proof { beval_zero(v@); assert(v@.skip(1) =~= v@.subrange(1, v@.len() as int)); assert(v@.skip(1) =~= be@.skip(k__ + 1)); k__ = k__ + 1; }
@afterloop 1
    proof { let b__ = v@[0]; assert((b__ & 0x80 != 0) == (b__ >= 128)) by (bit_vector); }
@rewrite out . extend_from_slice ( $*e ) ; ==> out.extend_from_slice($e); proof { let c__ = out@.skip(2); if needs_pad { assert(c__.skip(1) =~= v@); beval_zero(c__); } else { assert(c__ =~= v@); } }
//@end
//@fn jose_es256_to_der
@props P21
    ensures match r { Some(d) => sig@.len() == 64 && der_sig(d@, beval(sig@.take(32)), beval(sig@.skip(32))), None => sig@.len() != 64 }
@ret r
@rewrite let mut body = $*e ( $*f ) ; ==> let mut body = $e($f); let ghost b1__ = body@;
@rewrite out . push ( body . len ( ) as u8 ) ; ==> let ghost b2__ = body@; out.push(body.len() as u8);
@rewrite Some ( out ) ==> { proof { let k__ = 2 + b1__.len() as int; assert(out@.subrange(2, k__) =~= b1__); assert(sig@.subrange(0, 32) =~= sig@.take(32)); assert(sig@.subrange(32, 64) =~= sig@.skip(32)); assert(der_int(out@.skip(k__), beval(sig@.skip(32)))) by { assert(out@.skip(k__) =~= b2__.skip(b1__.len() as int)); }; assert(der_at(out@, k__, beval(sig@.take(32)), beval(sig@.skip(32)))); } Some(out) }
//@end
impl Passport {
//@fn Passport::verify_with_chain
@props P21
@sig (&self, end_entity_der: &[u8], intermediates: &[&[u8]], trust_anchor_ders: &[&[u8]], now: UnixTime) -> Result<(), VerifyError>
    ensures r.is_ok() == chained(pv(*self), end_entity_der@, raw(intermediates@), raw(trust_anchor_ders@), now)
@ret r
@rewrite jose_es256_to_der ( $*e ) . ok_or ( $*f ) ? ; ==> jose_es256_to_der($e).x_or_err($f)?; proof { same_sig(ee@, self.signing_input@, der_sig@, self.signature@); }
//@end
}

// ---- the header ----------------------------------------------------------------------------------------------------
//@file crates/sip-identity/src/header.rs
//@const MAX_HEADER_LEN
//@struct IdentityHeader
pub open spec fn angled(v: Seq<char>) -> Option<Seq<char>> { let t = trim_s(v); if t.len() >= 2 && t[0] == '<' && t.last() == '>' { Some(trim_s(t.skip(1).drop_last())) } else { None } }
pub open spec fn unq(v: Seq<char>) -> Seq<char> { if v.len() >= 2 && v[0] == '"' && v.last() == '"' { v.skip(1).drop_last() } else { v } }
pub ghost struct HP { pub info: Option<Seq<char>>, pub alg: Option<Seq<char>>, pub ppt: Option<Seq<char>> }
pub open spec fn hset(p: HP, k: Seq<char>, v: Seq<char>) -> Option<HP> {
    if k == "info"@ { match angled(v) { Some(u) => Some(HP { info: Some(u), ..p }), None => None } }
    else if k == "alg"@ { Some(HP { alg: Some(unq(v)), ..p }) }
    else if k == "ppt"@ { Some(HP { ppt: Some(unq(v)), ..p }) }
    else { Some(p) } }
#[verifier::opaque]
pub open spec fn hstep(p: HP, seg: Seq<char>) -> Option<HP> {
    let t = trim_s(seg);
    if !occ(t, Pat::C('=')) { Some(p) } else { let n = fidx(t, Pat::C('=')); hset(p, lower(trim_s(t.take(n))), trim_s(t.skip(n + 1))) } }
pub open spec fn hfold(p: HP, segs: Seq<Seq<char>>) -> Option<HP> decreases segs.len() {
    if segs.len() == 0 { Some(p) } else { match hstep(p, segs[0]) { Some(q) => hfold(q, segs.drop_first()), None => None } } }
pub ghost struct HV { pub token: Seq<char>, pub p: PV, pub ps: HP }
pub open spec fn hp0() -> HP { HP { info: None, alg: None, ppt: None } }
/// what an Identity header value says
#[verifier::opaque]
pub open spec fn hdr_read(x: Seq<char>) -> Option<HV> {
    let f = fields(x, ';'); let t = trim_s(f[0]);
    if blen(x) > 8192 || t.len() == 0 { None } else { match (tok_read(t), hfold(hp0(), f.skip(1))) { (Some(p), Some(ps)) => Some(HV { token: t, p, ps }), _ => None } } }
pub open spec fn hview(h: IdentityHeader) -> HV { HV { token: h.raw_token@, p: pv(h.passport), ps: HP { info: ostr(h.info), alg: ostr(h.alg), ppt: ostr(h.ppt) } } }
proof fn keys() ensures "info"@ == seq!['i', 'n', 'f', 'o'], "alg"@ == seq!['a', 'l', 'g'], "ppt"@ == seq!['p', 'p', 't'], ""@ == Seq::<char>::empty()
{ reveal_strlit("info"); reveal_strlit("alg"); reveal_strlit("ppt"); reveal_strlit(""); assert("info"@ =~= seq!['i', 'n', 'f', 'o']); assert("alg"@ =~= seq!['a', 'l', 'g']); assert("ppt"@ =~= seq!['p', 'p', 't']); assert(""@ =~= Seq::<char>::empty()); }
//@fn strip_angle_brackets
@props P21
    ensures match r { Ok(u) => angled(s@) == Some(u@), Err(_) => angled(s@).is_none() }
@ret r
//@end
//@fn unquote
@props P21
    ensures r@ == unq(s@)
@ret r
@entry
    let ghost s0__ = s@;
    proof { assert(s@.skip(1).len() == s@.len() - 1 || s@.len() == 0); }
//@end
impl IdentityHeader {
//@fn IdentityHeader::parse
@props P21
    ensures match r { Ok(h) => hdr_read(value@) == Some(hview(h)), Err(_) => hdr_read(value@).is_none() }
@ret r
@rewrite ; let mut alg = None ==> ; let mut alg: Option<String> = None
@rewrite let mut info = None ; ==> let mut info: Option<String> = None;
@rewrite let mut ppt = None ; ==> let mut ppt: Option<String> = None;
@rewrite let mut alg = None ; ==> let mut alg: Option<String> = None;
@entry
    proof { reveal(hdr_read); keys(); }
    let ghost fs = fields(value@, ';');
@loop 1
    invariant segments.wf(), blen(value@) <= 8192, tok_read(token@) == Some(pv(passport)), token@.len() > 0, token@ == trim_s(fs[0]), fs == fields(value@, ';'), fs.len() >= 1,
        hfold(hp0(), fs.skip(1)) == hfold(HP { info: ostr(info), alg: ostr(alg), ppt: ostr(ppt) }, segments.rest()),
    ensures segments.rest().len() == 0
    decreases segments.rest().len()
@loopbody 1
    proof { reveal(hstep); reveal(hdr_read); keys(); }
//@end
}

// ---- what an accepted token binds ---------------------------------------------------------------------------------
pub open spec fn lacks(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub proof fn fields_lacks(s: Seq<char>, c: char) requires lacks(s, c) ensures fields(s, c) == seq![s] decreases s.len()
{ if s.len() > 0 { assert(lacks(s.drop_last(), c)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_last()[i] != c by { assert(s[i] != c); } } fields_lacks(s.drop_last(), c); assert(s.last() != c); assert(fields(s, c) =~= seq![s]) by { assert(s.drop_last().push(s.last()) =~= s); } } else { assert(s =~= Seq::empty()); assert(fields(s, c) =~= seq![s]); } }
pub proof fn fields_add(a: Seq<char>, c: char, b: Seq<char>) requires lacks(b, c) ensures fields(a + ch(c) + b, c) == fields(a, c).push(b) decreases b.len()
{
    let s = a + ch(c) + b;
    fields_some(a, c);
    if b.len() == 0 { assert(b =~= Seq::empty()); assert(s.drop_last() =~= a); assert(s.last() == c); }
    else {
        let b1 = b.drop_last();
        assert(lacks(b1, c)) by { assert forall|i: int| 0 <= i < b1.len() implies #[trigger] b1[i] != c by { assert(b[i] != c); } }
        fields_add(a, c, b1);
        assert(s.drop_last() =~= a + ch(c) + b1); assert(s.last() == b.last()); assert(b[b.len() - 1] != c);
        let f = fields(a, c).push(b1);
        assert(f.update(f.len() - 1, f.last().push(s.last())) =~= fields(a, c).push(b)) by { assert(b1.push(b.last()) =~= b); }
    }
}
pub open spec fn joined(f: Seq<Seq<char>>, c: char) -> Seq<char> decreases f.len() { if f.len() == 0 { Seq::empty() } else if f.len() == 1 { f[0] } else { joined(f.drop_last(), c) + ch(c) + f.last() } }
/// the pieces joined again are the text
pub proof fn fields_join(s: Seq<char>, c: char) ensures joined(fields(s, c), c) == s decreases s.len()
{
    let f = fields(s, c);
    if s.len() == 0 { assert(f =~= seq![Seq::<char>::empty()]); assert(s =~= Seq::empty()); }
    else {
        let g = fields(s.drop_last(), c); fields_some(s.drop_last(), c); fields_join(s.drop_last(), c);
        if s.last() == c { assert(f.drop_last() =~= g); assert(joined(f, c) =~= s); }
        else if g.len() == 1 { assert(f.len() == 1); assert(f[0] =~= s); }
        else { assert(f.drop_last() =~= g.drop_last()); assert(joined(g, c) == joined(g.drop_last(), c) + ch(c) + g.last()); assert(f.last() == g.last().push(s.last())); assert(joined(f, c) =~= s.drop_last().push(s.last())); assert(s.drop_last().push(s.last()) =~= s); }
    }
}
proof fn split_at(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) requires lacks(a, '.'), lacks(b, '.'), lacks(c, '.'), lacks(d, '.'), a + ch('.') + b == c + ch('.') + d ensures a == c, b == d
{ fields_lacks(a, '.'); fields_lacks(c, '.'); fields_add(a, '.', b); fields_add(c, '.', d); let x = seq![a].push(b); let y = seq![c].push(d); assert(x == y); assert(x[0] == a && x[1] == b && y[0] == c && y[1] == d); }
proof fn parts(t: Seq<char>) requires tok_read(t).is_some()
    ensures ({ let f = fields(t, '.'); f.len() == 3 && tok_read(t) == tok3(f[0], f[1], f[2]) && lacks(f[0], '.') && lacks(f[1], '.') && lacks(f[2], '.') && t == f[0] + ch('.') + f[1] + ch('.') + f[2] })
{
    reveal(tok_read); let f = fields(t, '.');
    b64_text(f[0]); b64_text(f[1]); b64_text(f[2]);
    assert forall|i: int| 0 <= i < f[0].len() implies #[trigger] f[0][i] != '.' by { assert(b64c(f[0][i])); }
    assert forall|i: int| 0 <= i < f[1].len() implies #[trigger] f[1][i] != '.' by { assert(b64c(f[1][i])); }
    assert forall|i: int| 0 <= i < f[2].len() implies #[trigger] f[2][i] != '.' by { assert(b64c(f[2][i])); }
    fields_join(t, '.'); let g = f.drop_last(); let h = g.drop_last(); assert(h.len() == 1); assert(joined(h, '.') == f[0]); assert(joined(g, '.') == f[0] + ch('.') + f[1]);
}
/// the text a signature covers fixes the header and every claim, and with the signature the whole token:
/// a token with any of them changed is accepted only with a signature made over the changed text
pub proof fn p21_bound(t: Seq<char>, u: Seq<char>)
    requires tok_read(t).is_some(), tok_read(u).is_some(), (tok_read(t)->0).input == (tok_read(u)->0).input
    ensures (tok_read(t)->0).h == (tok_read(u)->0).h, (tok_read(t)->0).c == (tok_read(u)->0).c, (tok_read(t)->0).sig == (tok_read(u)->0).sig ==> t == u
{
    parts(t); parts(u); let f = fields(t, '.'); let g = fields(u, '.');
    vstd::utf8::encode_utf8_decode_utf8(f[0] + ch('.') + f[1]); vstd::utf8::encode_utf8_decode_utf8(g[0] + ch('.') + g[1]);
    split_at(f[0], f[1], g[0], g[1]);
    if (tok_read(t)->0).sig == (tok_read(u)->0).sig { b64_once(f[2], g[2]); }
}
/// the signed text is the token up to its last dot
pub proof fn p21_input(t: Seq<char>) requires tok_read(t).is_some()
    ensures exists|c: Seq<char>, a: Seq<char>| lacks(c, '.') && t == #[trigger] (a + ch('.') + c) && (tok_read(t)->0).input == encode_utf8(a) && u64d(c) == Some((tok_read(t)->0).sig)
{ parts(t); let f = fields(t, '.'); assert(t == (f[0] + ch('.') + f[1]) + ch('.') + f[2]); }
/// only the one algorithm is ever accepted
pub proof fn p21_alg(p: PV, key: Seq<u8>, ee: Seq<u8>, inter: Seq<Seq<u8>>, anchors: Seq<Seq<u8>>, now: UnixTime)
    ensures checked(p, key) ==> p.h.alg == "ES256"@, chained(p, ee, inter, anchors, now) ==> p.h.alg == "ES256"@ && chain_ok(ee, true, anchors, inter, now, true) && sig_ok(VAlg::P256Fixed, cert_key(ee), p.input, p.sig)
{ }

// ---- signing ---------------------------------------------------------------------------------------------------------
/// three parts put together read as those parts
pub proof fn put3(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires u64d(a).is_some(), u64d(b).is_some(), u64d(c).is_some() ensures tok_read(a + ch('.') + b + ch('.') + c) == tok3(a, b, c)
{
    reveal(tok_read); b64_text(a); b64_text(b); b64_text(c);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '.' by { assert(b64c(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != '.' by { assert(b64c(b[i])); }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] != '.' by { assert(b64c(c[i])); }
    fields_lacks(a, '.'); fields_add(a, '.', b); fields_add(a + ch('.') + b, '.', c);
    let f = seq![a].push(b).push(c); assert(f[0] == a && f[1] == b && f[2] == c);
}
pub mod sg {
use super::*;
broadcast use {prel::str_ext, st::str_bytes_bound};
//@file crates/sip-identity/src/sign.rs
//@enum SignError
//@struct PassportParams
//@struct SignHeader
//@struct SignClaims
//@struct Orig
//@struct Dest
//@struct SignedPassport
impl<'a> Ser for SignHeader<'a> { open spec fn reads(&self, b: Seq<u8>) -> bool { read_header(b) == Some(PH { alg: self.alg@, typ: Some(self.typ@), ppt: Some(self.ppt@), x5u: self.x5u@ }) } }
impl<'a> Ser for SignClaims<'a> { open spec fn reads(&self, b: Seq<u8>) -> bool {
    att_of(self.attest@).is_some() ==> read_claims(b) == Some(PC { attest: att_of(self.attest@), orig: Some(self.orig.tn@), dest: strs(self.dest.tn@), iat: Some(self.iat), origid: (match self.origid { Some(x) => Some(x@), None => None }) }) } }
/// the token the parameters ask for
pub open spec fn asked(q: PassportParams, p: PV) -> bool {
    p.h == (PH { alg: "ES256"@, typ: Some("passport"@), ppt: Some("shaken"@), x5u: q.x5u@ })
    && p.c == (PC { attest: Some(q.attest), orig: Some(q.orig_tn@), dest: strs(q.dest_tns@), iat: Some(q.iat), origid: ostr(q.origid) }) }
pub open spec fn value_text(s: SignedPassport) -> Seq<char> { s.token@ + ";info=<"@ + s.x5u@ + ">;alg=ES256;ppt=shaken"@ }
impl SignedPassport {
//@fn SignedPassport::identity_header_value
@fmt
@props P21
    ensures r@ == value_text(*self)
@ret r
//@end
}
//@fn sign
@fmt
@props P21
@sig (params: &PassportParams, key: &EcdsaKeyPair, rng: &SecureRandom) -> Result<SignedPassport, SignError>
    ensures r matches Ok(s) ==> s.x5u@ == params.x5u@ && params.orig_tn@.len() > 0 && params.dest_tns@.len() > 0 && (tok_read(s.token@) matches Some(p) && asked(*params, p) && checked(p, key.pk()))
@ret r
@rewrite params . orig_tn . is_empty ( ) ==> params.orig_tn.as_str().is_empty()
@rewrite Ok ( SignedPassport { $*f } ) ==> { proof { b64_back(header_json@); b64_back(claims_json@); b64_back(sig@); enc3(p_b64@, c_b64@); assert(signing_input@ =~= encode_utf8(p_b64@ + ch('.') + c_b64@)); put3(p_b64@, c_b64@, s_b64@); dots(); att_back(params.attest); reveal_strlit(""); } Ok(SignedPassport { $f }) }
//@end
pub proof fn dots() ensures "."@ == ch('.') { reveal_strlit("."); assert("."@ =~= ch('.')); }
pub proof fn att_back(a: AttestationLevel) ensures att_of(att_text(a)) == Some(a) { assert(seq!['A'][0] != seq!['B'][0]); assert(seq!['A'][0] != seq!['C'][0]); assert(seq!['B'][0] != seq!['C'][0]); }
/// what the library signs, its own reader takes: the written header value says that token and those parameters
pub proof fn p21_written(s: SignedPassport, p: PV)
    requires tok_read(s.token@) == Some(p), lacks(s.x5u@, ';'), trim_s(s.x5u@) == s.x5u@, blen(value_text(s)) <= 8192, s.token@.len() > 0
    ensures hdr_read(value_text(s)) == Some(HV { token: s.token@, p, ps: HP { info: Some(s.x5u@), alg: Some("ES256"@), ppt: Some("shaken"@) } })
{
    let t = s.token@; let i1 = seq!['i', 'n', 'f', 'o']; let e1 = seq!['E', 'S', '2', '5', '6']; let s1 = seq!['s', 'h', 'a', 'k', 'e', 'n'];
    keys(); reveal_strlit("ES256"); reveal_strlit("shaken"); reveal_strlit(";info=<"); reveal_strlit(">;alg=ES256;ppt=shaken");
    assert("ES256"@ =~= e1); assert("shaken"@ =~= s1);
    let a1 = seq!['a', 'l', 'g']; let p1 = seq!['p', 'p', 't'];
    let u = ch('<') + s.x5u@ + ch('>');
    let f1 = i1 + ch('=') + u; let f2 = a1 + ch('=') + e1; let f3 = p1 + ch('=') + s1;
    let x = t + ch(';') + f1 + ch(';') + f2 + ch(';') + f3;
    assert(value_text(s) =~= x);
    token_chars(t);
    assert forall|i: int| 0 <= i < f1.len() implies #[trigger] f1[i] != ';' by { if 6 <= i < f1.len() - 1 { assert(f1[i] == s.x5u@[i - 6]); } }
    fields_lacks(t, ';'); fields_add(t, ';', f1); fields_add(t + ch(';') + f1, ';', f2); fields_add(t + ch(';') + f1 + ch(';') + f2, ';', f3);
    let f = fields(x, ';'); assert(f =~= seq![t, f1, f2, f3]);
    trim_ends(t); let g = f.skip(1); assert(g =~= seq![f1, f2, f3]);
    step(hp0(), i1, u); step2(u, s.x5u@);
    let q1 = HP { info: Some(s.x5u@), alg: None, ppt: None };
    lower3();
    assert(hstep(hp0(), f1) == Some(q1));
    step(q1, a1, e1); assert(a1 != i1) by { assert(a1.len() != i1.len()); }
    let q2 = HP { alg: Some(e1), ..q1 }; assert(hstep(q1, f2) == Some(q2));
    step(q2, p1, s1); assert(p1 != i1) by { assert(p1.len() != i1.len()); } assert(p1 != a1) by { assert(p1[0] != a1[0]); }
    let q3 = HP { ppt: Some(s1), ..q2 }; assert(hstep(q2, f3) == Some(q3));
    assert(g.drop_first() =~= seq![f2, f3]); assert(g.drop_first().drop_first() =~= seq![f3]); assert(g.drop_first().drop_first().drop_first().len() == 0);
    assert(hfold(q3, g.drop_first().drop_first().drop_first()) == Some(q3));
    assert(hfold(q2, g.drop_first().drop_first()) == Some(q3)); assert(hfold(q1, g.drop_first()) == Some(q3)); assert(hfold(hp0(), g) == Some(q3));
    reveal(hdr_read);
}
proof fn lower3() ensures lower(seq!['i', 'n', 'f', 'o']) == seq!['i', 'n', 'f', 'o'], lower(seq!['a', 'l', 'g']) == seq!['a', 'l', 'g'], lower(seq!['p', 'p', 't']) == seq!['p', 'p', 't']
{ assert(lower(seq!['i', 'n', 'f', 'o']) =~= seq!['i', 'n', 'f', 'o']); assert(lower(seq!['a', 'l', 'g']) =~= seq!['a', 'l', 'g']); assert(lower(seq!['p', 'p', 't']) =~= seq!['p', 'p', 't']); }
proof fn trim_ends(s: Seq<char>) requires s.len() > 0, !is_ws(s[0]), !is_ws(s.last()) ensures trim_s(s) == s { assert(trim_l(s) == s); assert(trim_r(s) == s); }
proof fn token_chars(t: Seq<char>) requires tok_read(t).is_some(), t.len() > 0 ensures lacks(t, ';'), !is_ws(t[0]), !is_ws(t.last())
{
    parts(t); let f = fields(t, '.'); reveal(tok_read); b64_text(f[0]); b64_text(f[1]); b64_text(f[2]);
    assert forall|i: int| 0 <= i < t.len() implies b64c(#[trigger] t[i]) || t[i] == '.' by {
        let n = f[0].len() as int; let m = f[1].len() as int;
        if i < n { assert(b64c(f[0][i])); } else if n < i < n + 1 + m { assert(b64c(f[1][i - n - 1])); } else if i > n + 1 + m { assert(b64c(f[2][i - n - m - 2])); } }
    assert(b64c(t[0]) || t[0] == '.'); assert(b64c(t.last()) || t.last() == '.');
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != ';' by { assert(b64c(t[i]) || t[i] == '.'); }
}
/// one written parameter
proof fn step(p: HP, k: Seq<char>, v: Seq<char>)
    requires k.len() > 0, v.len() > 0, lacks(k, '='), !is_ws(k[0]), !is_ws(k.last()), !is_ws(v[0]), !is_ws(v.last())
    ensures hstep(p, k + ch('=') + v) == hset(p, lower(k), v)
{
    reveal(hstep); let t = k + ch('=') + v; trim_ends(t); trim_ends(k); trim_ends(v); let n = k.len() as int;
    assert(at(t, Pat::C('='), n)); assert forall|j: int| 0 <= j < n implies !#[trigger] at(t, Pat::C('='), j) by { assert(t[j] == k[j]); }
    assert(first(t, Pat::C('='), n)); first_is(t, Pat::C('='), n); assert(t.take(n) =~= k); assert(t.skip(n + 1) =~= v);
}
proof fn step2(u: Seq<char>, x: Seq<char>) requires u == ch('<') + x + ch('>'), trim_s(x) == x ensures angled(u) == Some(x)
{ trim_ends(u); assert(u.skip(1).drop_last() =~= x); }
}
} // verus!
