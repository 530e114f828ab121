//! P21, bounded: seeded tokens, headers, keys and certificate chains against the real decoder, verifiers and signer.
use base64::engine::general_purpose::URL_SAFE_NO_PAD;
use base64::Engine;
use common::{Report, Rng};
use rcgen::{BasicConstraints, CertificateParams, IsCa, KeyPair as RcKey, PKCS_ECDSA_P256_SHA256, PKCS_ECDSA_P384_SHA384};
use ring::rand::SystemRandom;
use ring::signature::{EcdsaKeyPair, KeyPair, UnparsedPublicKey, ECDSA_P256_SHA256_FIXED, ECDSA_P256_SHA256_FIXED_SIGNING};
use rustls_pki_types::UnixTime;
use serde_json::{json, Map, Value};
use sip_identity::*;
use time::OffsetDateTime;

// ---------- an independent reading of a token ----------
fn b64_read(s: &str) -> Option<Vec<u8>> {
    let mut bits = 0u32; let mut n = 0; let mut out = vec![];
    for c in s.bytes() {
        let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'-' => 62, b'_' => 63, _ => return None };
        bits = bits << 6 | v as u32; n += 6;
        if n >= 8 { n -= 8; out.push((bits >> n) as u8); bits &= (1 << n) - 1; }
    }
    if n == 6 || bits != 0 { return None; }
    Some(out)
}
#[derive(Debug, Clone, PartialEq)]
struct Want { alg: String, typ: Option<String>, ppt: Option<String>, x5u: String, attest: Option<String>, orig: Option<String>, dest: Vec<String>, iat: Option<i64>, origid: Option<String>, input: Vec<u8>, sig: Vec<u8> }
fn ostr(m: &Map<String, Value>, k: &str) -> Option<Option<String>> { match m.get(k) { None | Some(Value::Null) => Some(None), Some(Value::String(s)) => Some(Some(s.clone())), _ => None } }
fn oobj<'a>(m: &'a Map<String, Value>, k: &str) -> Option<Option<&'a Map<String, Value>>> { match m.get(k) { None | Some(Value::Null) => Some(None), Some(Value::Object(s)) => Some(Some(s)), _ => None } }
fn read(t: &str) -> Option<Want> {
    let p: Vec<&str> = t.split('.').collect();
    if p.len() != 3 { return None; }
    let (h, c, sig) = (b64_read(p[0])?, b64_read(p[1])?, b64_read(p[2])?);
    let (Value::Object(h), Value::Object(c)) = (serde_json::from_slice(&h).ok()?, serde_json::from_slice(&c).ok()?) else { return None };
    let alg = ostr(&h, "alg")??; let (typ, ppt) = (ostr(&h, "typ")?, ostr(&h, "ppt")?); let x5u = ostr(&h, "x5u")??;
    let attest = ostr(&c, "attest")?;
    if let Some(a) = &attest { if !["A", "B", "C"].contains(&a.as_str()) { return None; } }
    let orig = match oobj(&c, "orig")? { Some(o) => ostr(o, "tn")?, None => None };
    let dest = match oobj(&c, "dest")? { None => vec![], Some(d) => match d.get("tn") { None | Some(Value::Null) => vec![], Some(Value::Array(v)) => v.iter().map(|x| x.as_str().map(String::from)).collect::<Option<_>>()?, _ => return None } };
    let iat = match c.get("iat") { None | Some(Value::Null) => None, Some(Value::Number(n)) => Some(n.as_i64()?), _ => return None };
    Some(Want { alg, typ, ppt, x5u, attest, orig, dest, iat, origid: ostr(&c, "origid")?, input: format!("{}.{}", p[0], p[1]).into_bytes(), sig })
}
fn got(p: &Passport) -> Want {
    Want { alg: p.header.alg.clone(), typ: p.header.typ.clone(), ppt: p.header.ppt.clone(), x5u: p.header.x5u.clone(), attest: p.claims.attest.map(|a| a.as_str().to_string()), orig: p.claims.orig_tn.clone(), dest: p.claims.dest_tns.clone(), iat: p.claims.iat, origid: p.claims.origid.clone(), input: p.signing_input.clone(), sig: p.signature.clone() }
}
/// octets that are no strict JSON text are not judged (the reader skips over fields it does not use)
fn unclear(t: &str) -> bool { t.split('.').take(2).any(|p| b64_read(p).is_some_and(|b| serde_json::from_slice::<Value>(&b).is_err())) }
fn check_token(rep: &mut Report, t: &str) -> Option<Passport> {
    rep.case(t);
    let g = rep.guard("decode", || Passport::decode(t))?;
    let w = read(t);
    rep.check(unclear(t) && w.is_none() || g.as_ref().ok().map(got) == w, "decode", || format!("decoded {:?}\nwritten {w:?}", g.as_ref().map(got)));
    g.ok()
}
// ---------- generators ----------
fn word(r: &mut Rng) -> Value { match r.below(8) { 0 => Value::Null, 1 => json!(7), 2 => json!(["x"]), _ => Value::String(r.pick_s(&["A", "B", "C", "a", "", "AA", "ES256", "es256", "RS256", "none", "shaken", "+12155551212", "https://c.example/c.crt", "é\u{1f600}", "a.b;c=\"d\"", "ES256 "])) } }
fn put(r: &mut Rng, m: &mut Map<String, Value>, k: &str, good: Value) { match r.below(14) { 0 => {} 1 => { let w = word(r); if !(w.is_array() && ["orig", "dest"].contains(&k)) { m.insert(k.into(), w); } } _ => { m.insert(k.into(), good); } } }
fn header(r: &mut Rng) -> Value {
    let mut m = Map::new();
    let alg = if r.chance(5, 6) { json!("ES256") } else { word(r) };
    put(r, &mut m, "alg", alg); put(r, &mut m, "typ", json!("passport")); put(r, &mut m, "ppt", json!("shaken")); put(r, &mut m, "x5u", json!("https://c.example/c.crt"));
    if r.chance(1, 8) { m.insert(r.pick_s(&["crit", "kid", "ALG", "x"]), word(r)); }
    Value::Object(m)
}
fn tn(r: &mut Rng) -> String { (0..r.below(16)).map(|i| if i == 0 { '+' } else { (b'0' + r.below(10) as u8) as char }).collect() }
fn payload(r: &mut Rng) -> Value {
    let mut m = Map::new();
    let a = Value::String(r.pick_s(&["A", "B", "C"])); put(r, &mut m, "attest", a);
    let o = if r.chance(1, 10) { json!({}) } else { json!({ "tn": tn(r) }) }; put(r, &mut m, "orig", o);
    let d = match r.below(10) { 0 => json!({}), 1 => json!({ "tn": [1] }), 2 => json!({ "tn": "x" }), 3 => json!({ "tn": null }), _ => { let v: Vec<String> = (0..r.below(4)).map(|_| tn(r)).collect(); json!({ "tn": v, "uri": ["sip:x"] }) } }; put(r, &mut m, "dest", d);
    let i = match r.below(10) { 0 => json!(1.5), 1 => json!(i64::MAX), 2 => json!(u64::MAX), 3 => json!(-1), _ => json!(1_443_208_345 + r.below(1000)) }; put(r, &mut m, "iat", i);
    put(r, &mut m, "origid", json!("123e4567-e89b-12d3-a456-426655440000"));
    Value::Object(m)
}
fn spoil(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(2) {
        let i = r.below(c.len() as u64 + 1) as usize;
        match r.below(4) {
            0 if i < c.len() => { c.remove(i); }
            1 if i < c.len() => { c[i] = *r.pick(&['A', 'B', 'Q', 'z', '0', '-', '_', '.', '=', '+', '/', ' ', 'é', '\n']); }
            2 => c.insert(i.min(c.len()), *r.pick(&['A', '.', '=', 'g', '\0'])),
            _ => c.truncate(i),
        }
    }
    c.into_iter().collect()
}
fn b64(b: &[u8]) -> String { URL_SAFE_NO_PAD.encode(b) }
fn token(r: &mut Rng) -> String {
    let (h, p) = (header(r), payload(r));
    let n = *r.pick(&[0usize, 1, 63, 64, 64, 64, 65, 70]);
    let sig: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
    let hs = if r.chance(1, 6) { serde_json::to_string_pretty(&h).unwrap() } else { h.to_string() };
    format!("{}.{}.{}", b64(hs.as_bytes()), b64(p.to_string().as_bytes()), b64(&sig))
}
// ---------- headers ----------
fn header_value(rep: &mut Report, r: &mut Rng) {
    let t = token(r);
    let mut s = format!("{}{}{}", r.pick_s(&["", "", " ", "\t"]), t, r.pick_s(&["", "", " "]));
    for _ in 0..r.below(5) {
        s += ";";
        let k = r.pick_s(&["info", "alg", "ppt", "INFO", "Alg", "x", " info ", ""]);
        let v = r.pick_s(&["<https://c.example/c.crt>", "< https://c >", "https://c", "<", "<>", "\"ES256\"", "ES256", "\"", "\"\"", "shaken", "", " shaken ", "a=b"]);
        s += &match r.below(8) { 0 => k, 1 => String::new(), _ => format!("{k}={v}") };
    }
    if r.chance(1, 40) { let n = 8185 + r.below(12) as usize; while s.len() < n { s.push(if s.len() % 2 == 0 { ';' } else { 'x' }); } }
    rep.case(&s);
    let Some(g) = rep.guard("header", || IdentityHeader::parse(&s)) else { return };
    let mut f = s.split(';');
    let tok = f.next().unwrap().trim();
    let mut want = if s.len() > 8192 || tok.is_empty() { None } else { read(tok).map(|w| (w, None::<String>, None::<String>, None::<String>)) };
    for p in f {
        let Some((k, v)) = p.trim().split_once('=') else { continue };
        let v = v.trim();
        let unq = if v.len() >= 2 && v.starts_with('"') && v.ends_with('"') { &v[1..v.len() - 1] } else { v }.to_string();
        match k.trim().to_ascii_lowercase().as_str() {
            "info" => if v.len() >= 2 && v.starts_with('<') && v.ends_with('>') { if let Some(w) = &mut want { w.1 = Some(v[1..v.len() - 1].trim().to_string()); } } else { want = None; break },
            "alg" => if let Some(w) = &mut want { w.2 = Some(unq) },
            "ppt" => if let Some(w) = &mut want { w.3 = Some(unq) },
            _ => {}
        }
    }
    let have = g.as_ref().ok().map(|h| (got(&h.passport), h.info.clone(), h.alg.clone(), h.ppt.clone()));
    rep.check(have == want, "header", || format!("parsed {have:?}\nwritten {want:?}"));
    if let Ok(h) = &g { rep.check(h.raw_token == tok, "header-token", || format!("raw token {:?}", h.raw_token)); }
}
// ---------- signatures ----------
struct Key { pair: EcdsaKeyPair, public: Vec<u8> }
fn key(rng: &SystemRandom) -> Key { let p = EcdsaKeyPair::generate_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, rng).unwrap(); let pair = EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, p.as_ref(), rng).unwrap(); let public = pair.public_key().as_ref().to_vec(); Key { pair, public } }
fn ring_ok(k: &[u8], m: &[u8], s: &[u8]) -> bool { UnparsedPublicKey::new(&ECDSA_P256_SHA256_FIXED, k).verify(m, s).is_ok() }
fn signed(r: &mut Rng, pair: &EcdsaKeyPair, rng: &SystemRandom) -> String {
    let (h, p) = (header(r), payload(r));
    let i = format!("{}.{}", b64(h.to_string().as_bytes()), b64(p.to_string().as_bytes()));
    let s = pair.sign(rng, i.as_bytes()).unwrap();
    format!("{i}.{}", b64(s.as_ref()))
}
fn check_sig(rep: &mut Report, p: &Passport, k: &[u8], what: &str) {
    let want = p.header.alg == "ES256" && k.len() == 65 && k[0] == 4 && ring_ok(k, &p.signing_input, &p.signature);
    let Some(g) = rep.guard("verify", || p.verify_signature(k)) else { return };
    rep.check(g.is_ok() == want, "verify", || format!("{what}: accepted {g:?}, a valid ES256 signature: {want}, key of {} octets", k.len()));
}
fn signatures(rep: &mut Report, r: &mut Rng, keys: &[Key], rng: &SystemRandom) {
    let k = r.pick(keys);
    let t = signed(r, &k.pair, rng);
    let Some(p) = check_token(rep, &t) else { return };
    check_sig(rep, &p, &k.public, "its key");
    // any change to the signed text or the signature
    for _ in 0..2 {
        let u = spoil(r, &t);
        if let Some(q) = check_token(rep, &u) {
            check_sig(rep, &q, &k.public, "changed token");
            if q.signing_input != p.signing_input { let g = q.verify_signature(&k.public); rep.check(g.is_err(), "changed", || format!("a changed token is accepted: {t}")); }
        }
    }
    let parts: Vec<&str> = t.split('.').collect();
    let mut claims: Value = serde_json::from_slice(&b64_read(parts[1]).unwrap()).unwrap();
    claims["attest"] = json!(r.pick_s(&["A", "B", "C"])); claims["iat"] = json!(1_443_208_346i64);
    let forged = format!("{}.{}.{}", parts[0], b64(claims.to_string().as_bytes()), parts[2]);
    if let Some(q) = check_token(rep, &forged) { if q.claims != p.claims { rep.check(q.verify_signature(&k.public).is_err(), "changed", || format!("changed claims are accepted, from {t}")); } }
    // other keys and key forms
    let other = r.pick(keys);
    check_sig(rep, &p, &other.public, "a key");
    let mut bad = k.public.clone();
    match r.below(5) { 0 => bad.truncate(r.below(66) as usize), 1 => bad.push(0), 2 => bad[0] = r.below(256) as u8, 3 => bad = vec![], _ => { let i = r.below(65) as usize; bad[i] ^= 1 << r.below(8); } }
    check_sig(rep, &p, &bad, "a damaged key");
}
// ---------- certificate chains ----------
const T0: i64 = 1_700_000_000;
struct Ca { cert: rcgen::Certificate, key: RcKey }
struct Leaf { der: Vec<u8>, pkcs8: Vec<u8>, p256: bool, good: bool, inter: Vec<Vec<u8>>, root: Vec<u8>, from: i64, to: i64, what: &'static str }
fn at(s: i64) -> OffsetDateTime { OffsetDateTime::from_unix_timestamp(s).unwrap() }
fn ca(name: &str, by: Option<&Ca>, ca: bool, from: i64, to: i64) -> Ca {
    let key = RcKey::generate_for(&PKCS_ECDSA_P256_SHA256).unwrap();
    let mut p = CertificateParams::new(vec![]).unwrap();
    p.distinguished_name.push(rcgen::DnType::CommonName, name);
    p.is_ca = if ca { IsCa::Ca(BasicConstraints::Unconstrained) } else { IsCa::ExplicitNoCa };
    p.not_before = at(from); p.not_after = at(to);
    let cert = match by { Some(b) => p.signed_by(&key, &b.cert, &b.key).unwrap(), None => p.self_signed(&key).unwrap() };
    Ca { cert, key }
}
fn leaf(by: &Ca, p256: bool, from: i64, to: i64) -> (Vec<u8>, Vec<u8>) {
    let key = RcKey::generate_for(if p256 { &PKCS_ECDSA_P256_SHA256 } else { &PKCS_ECDSA_P384_SHA384 }).unwrap();
    let mut p = CertificateParams::new(vec!["sti.example.com".into()]).unwrap();
    if from % 2 == 1 { p.extended_key_usages = vec![rcgen::ExtendedKeyUsagePurpose::ClientAuth]; }
    p.not_before = at(from); p.not_after = at(to);
    (p.signed_by(&key, &by.cert, &by.key).unwrap().der().to_vec(), key.serialize_der())
}
fn leaves() -> Vec<Leaf> {
    let mut v = vec![];
    for y in 0..2i64 {
        let (from, to) = (T0 + y, T0 + 365 * 86400 + y);
        let root = ca("root", None, true, T0 - 86400, T0 + 900 * 86400);
        let rd = root.cert.der().to_vec();
        let (d, k) = leaf(&root, true, from, to); v.push(Leaf { der: d, pkcs8: k, p256: true, good: true, inter: vec![], root: rd.clone(), from, to, what: "under the root" });
        let mid = ca("mid", Some(&root), true, T0 - 86400, T0 + 900 * 86400);
        let (d, k) = leaf(&mid, true, from, to); v.push(Leaf { der: d, pkcs8: k, p256: true, good: true, inter: vec![mid.cert.der().to_vec()], root: rd.clone(), from, to, what: "under an intermediate" });
        let no = ca("noca", Some(&root), false, T0 - 86400, T0 + 900 * 86400);
        let (d, k) = leaf(&no, true, from, to); v.push(Leaf { der: d, pkcs8: k, p256: true, good: false, inter: vec![no.cert.der().to_vec()], root: rd.clone(), from, to, what: "under a certificate that is no CA" });
        let old = ca("old", Some(&root), true, T0 - 86400, T0 - 10);
        let (d, k) = leaf(&old, true, from, to); v.push(Leaf { der: d, pkcs8: k, p256: true, good: false, inter: vec![old.cert.der().to_vec()], root: rd.clone(), from, to, what: "under an expired intermediate" });
        let (d, k) = leaf(&root, false, from, to); v.push(Leaf { der: d, pkcs8: k, p256: false, good: true, inter: vec![], root: rd.clone(), from, to, what: "a P-384 certificate" });
    }
    v
}
fn chains(rep: &mut Report, r: &mut Rng, ls: &[Leaf], rng: &SystemRandom) {
    let l = r.pick(ls);
    // signed with the key of this certificate, or of another
    let signer = if r.chance(4, 5) { l } else { r.pick(ls) };
    let signer = if signer.p256 { signer } else { &ls[0] };
    let pair = EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, &signer.pkcs8, rng).unwrap();
    let t = signed(r, &pair, rng);
    let Some(mut p) = check_token(rep, &t) else { return };
    let own = std::ptr::eq(signer, l) && l.p256;
    let mut valid = own;
    match r.below(10) {
        0 => { let i = r.below(p.signature.len() as u64) as usize; p.signature[i] ^= 1 << r.below(8); valid = false; }
        1 => { let n = r.below(64) as usize; p.signature.truncate(n); valid = false; }
        2 => { p.signature.push(0); valid = false; }
        3 => { let i = r.below(p.signing_input.len() as u64) as usize; p.signing_input[i] ^= 1; valid = false; }
        _ => {}
    }
    let now = match r.below(6) { 0 => l.from - 1, 1 => l.from, 2 => l.to, 3 => l.to + 1, _ => l.from + r.below(365 * 86400) as i64 };
    let in_time = l.from <= now && now <= l.to;
    let roots: Vec<&[u8]> = match r.below(6) { 0 => vec![], 1 => ls.iter().filter(|x| x.root != l.root).map(|x| &x.root[..]).collect(), 2 => ls.iter().map(|x| &x.root[..]).collect(), _ => vec![&l.root[..]] };
    let junk = [0x30u8, 3, 2, 1];
    let bad_root = r.chance(1, 12);
    let roots: Vec<&[u8]> = if bad_root { let mut v = roots.clone(); v.insert(r.below(v.len() as u64 + 1) as usize, &junk[..]); v } else { roots };
    let trusted = !bad_root && roots.iter().any(|x| *x == &l.root[..]);
    let give = l.inter.is_empty() || r.chance(5, 6);
    let mut inter: Vec<&[u8]> = if give { l.inter.iter().map(|x| &x[..]).collect() } else { vec![] };
    if r.chance(1, 4) { inter.insert(0, &ls[1].inter[0][..]); }
    let have = l.inter.iter().all(|x| inter.contains(&&x[..]));
    let want = p.header.alg == "ES256" && l.good && in_time && trusted && have && valid;
    rep.case(&format!("{t} certificate {} now {now}", l.what));
    let Some(g) = rep.guard("chain", || p.verify_with_chain(&l.der, &inter, &roots, UnixTime::since_unix_epoch(std::time::Duration::from_secs(now as u64)))) else { return };
    rep.check(g.is_ok() == want, "chain", || format!("{g:?}; {}: alg {:?}, in time {in_time}, root trusted {trusted}, intermediates given {have}, signature valid {valid}", l.what, p.header.alg));
    if r.chance(1, 8) {
        let mut d = l.der.clone(); let i = r.below(d.len() as u64) as usize; d[i] ^= 1 << r.below(8); if r.chance(1, 3) { d.truncate(i); }
        if let Some(g) = rep.guard("chain", || p.verify_with_chain(&d, &inter, &roots, UnixTime::since_unix_epoch(std::time::Duration::from_secs(now as u64)))) { rep.check(g.is_err(), "chain-damaged", || format!("a damaged certificate is accepted (octet {i})")); }
    }
}
// ---------- signing ----------
fn signing(rep: &mut Report, r: &mut Rng, keys: &[Key], rng: &SystemRandom) {
    let k = r.pick(keys);
    let q = PassportParams { x5u: r.pick_s(&["https://c.example/c.crt", "", "a\"b\\", "é", "https://c/x?y=z#a"]), attest: *r.pick(&[AttestationLevel::A, AttestationLevel::B, AttestationLevel::C]), orig_tn: if r.chance(1, 8) { word(r).to_string() } else { tn(r) }, dest_tns: (0..r.below(4)).map(|_| tn(r)).collect(), iat: r.next() as i64 >> r.below(64), origid: if r.chance(1, 2) { None } else { Some(r.pick_s(&["", "id", "\u{0}\n"])) } };
    rep.case(&format!("{q:?}"));
    let Some(g) = rep.guard("sign", || sign(&q, &k.pair, rng)) else { return };
    if q.orig_tn.is_empty() || q.dest_tns.is_empty() { rep.check(g.is_err(), "sign-missing", || "signed without a number".into()); return; }
    let s = match g { Ok(s) => s, Err(e) => { rep.fail("sign", &format!("refused: {e}")); return } };
    let p = match rep.guard("decode", || Passport::decode(&s.token)) { Some(Ok(p)) => p, x => { rep.fail("sign-read", &format!("{x:?}")); return } };
    rep.check(p.header.alg == "ES256" && p.header.typ.as_deref() == Some("passport") && p.header.ppt.as_deref() == Some("shaken") && p.header.x5u == q.x5u && p.claims.attest == Some(q.attest) && p.claims.orig_tn.as_deref() == Some(&q.orig_tn) && p.claims.dest_tns == q.dest_tns && p.claims.iat == Some(q.iat) && p.claims.origid == q.origid, "sign-claims", || format!("{:?} {:?}", p.header, p.claims));
    rep.check(p.verify_signature(&k.public).is_ok(), "sign-verify", || "its own signature is refused".into());
    match IdentityHeader::parse(&s.identity_header_value()) {
        Ok(h) => rep.check(h.passport == p && h.raw_token == s.token && h.info.as_deref() == Some(q.x5u.trim()) && h.alg.as_deref() == Some("ES256") && h.ppt.as_deref() == Some("shaken"), "sign-header", || format!("{h:?}")),
        Err(e) => rep.fail("sign-header", &format!("refused: {e}")),
    }
}
fn main() {
    let mut rep = Report::from_args();
    rep.rule("PASSporT tokens and Identity headers built from random JSON (missing, null, mistyped and extra fields) and damaged texts; real ES256 signatures under several keys; certificate chains of length 1 and 2 with wrong roots, times, keys, algorithms and non-CA issuers");
    let mut r = rep.rng(21);
    let rng = SystemRandom::new();
    let keys: Vec<Key> = (0..6).map(|_| key(&rng)).collect();
    let ls = leaves();
    while rep.time_left() {
        for _ in 0..8 { let mut t = token(&mut r); if r.chance(1, 3) { t = spoil(&mut r, &t); } check_token(&mut rep, &t); header_value(&mut rep, &mut r); }
        signatures(&mut rep, &mut r, &keys, &rng);
        signing(&mut rep, &mut r, &keys, &rng);
        for _ in 0..2 { chains(&mut rep, &mut r, &ls, &rng); }
    }
    rep.finish();
}
