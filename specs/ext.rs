verus! {
/// Stand-ins for the external crates and std iterators the extracted code uses.  Everything marked
/// external_body here is an assumption (listed in the evidence): its contract is the documented
/// behaviour of the std / bytes / uuid / widestring item named in the comment.
pub mod ext {
use vstd::prelude::*;
use std::collections::HashMap;

global size_of usize == 8;

/// error-message payloads (dropped by the extraction)
#[derive(Clone, Copy)]
pub struct Msg;
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }

// ---- little-endian values -------------------------------------------------------------------
pub open spec fn le16(s: Seq<u8>) -> u16 { (s[0] as u16) | ((s[1] as u16) << 8) }
pub open spec fn le32(s: Seq<u8>) -> u32 { (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24) }
pub open spec fn le64(s: Seq<u8>) -> u64 {
    (s[0] as u64) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24)
    | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56)
}
pub open spec fn le128(s: Seq<u8>) -> u128 { (le64(s) as u128) | ((le64(s.skip(8)) as u128) << 64) }
/// the f32 with the given bits (an uninterpreted bijection)
pub uninterp spec fn f32_bits(b: u32) -> f32;

#[verifier::external_body] pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == le16(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == le64(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_f32_from_le_bytes(b: [u8; 4]) -> (r: f32) ensures r == f32_bits(le32(b@)) { unimplemented!() }

/// to_le_bytes (proved from its definition by shifts)
pub trait VxToLe<const N: usize> { spec fn vx_le_is(&self, b: Seq<u8>) -> bool; fn vx_to_le_bytes(self) -> (r: [u8; N]) where Self: Sized ensures self.vx_le_is(r@); }
impl VxToLe<4> for u32 {
    open spec fn vx_le_is(&self, b: Seq<u8>) -> bool { b.len() == 4 && le32(b) == *self && b[0] == *self as u8 && b[1] == (*self >> 8) as u8 && b[2] == (*self >> 16) as u8 && b[3] == (*self >> 24) as u8 }
    fn vx_to_le_bytes(self) -> (r: [u8; 4]) {
        proof { assert(((self as u8) as u32) | (((self >> 8) as u8) as u32) << 8 | (((self >> 16) as u8) as u32) << 16 | (((self >> 24) as u8) as u32) << 24 == self) by (bit_vector); }
        [self as u8, (self >> 8) as u8, (self >> 16) as u8, (self >> 24) as u8]
    }
}

/// what is left of `s` after reading `n` bytes.  Kept apart from Seq::skip so that long chains of reads do not set off the solver's sequence axioms.
pub closed spec fn adv(s: Seq<u8>, n: int) -> Seq<u8> { s.skip(n) }
pub broadcast proof fn adv_is_skip(s: Seq<u8>, n: int) ensures #[trigger] adv(s, n) == s.skip(n) {}
pub broadcast proof fn adv_len(s: Seq<u8>, n: int) ensures 0 <= n <= s.len() ==> #[trigger] adv(s, n).len() == s.len() - n {}

// ---- bytes::Buf for &[u8] -----------------------------------------------------------------------
pub struct TryGetError;
pub trait Buf {
    spec fn bv(&self) -> Seq<u8>;
    fn remaining(&self) -> (r: usize) ensures r == self.bv().len();
    fn advance(&mut self, cnt: usize) requires cnt <= old(self).bv().len() ensures final(self).bv() == old(self).bv().skip(cnt as int);
    fn chunk(&self) -> (r: &[u8]) ensures r@ == self.bv();
    fn try_get_u8(&mut self) -> (r: std::result::Result<u8, TryGetError>)
        ensures match r { Ok(v) => old(self).bv().len() >= 1 && v == old(self).bv()[0] && final(self).bv() == old(self).bv().skip(1), Err(_) => old(self).bv().len() < 1 && final(self).bv() == old(self).bv() };
    fn try_get_u16_le(&mut self) -> (r: std::result::Result<u16, TryGetError>)
        ensures match r { Ok(v) => old(self).bv().len() >= 2 && v == le16(old(self).bv()) && final(self).bv() == old(self).bv().skip(2), Err(_) => old(self).bv().len() < 2 && final(self).bv() == old(self).bv() };
    fn try_get_u32_le(&mut self) -> (r: std::result::Result<u32, TryGetError>)
        ensures match r { Ok(v) => old(self).bv().len() >= 4 && v == le32(old(self).bv()) && final(self).bv() == old(self).bv().skip(4), Err(_) => old(self).bv().len() < 4 && final(self).bv() == old(self).bv() };
    fn try_get_u64_le(&mut self) -> (r: std::result::Result<u64, TryGetError>)
        ensures match r { Ok(v) => old(self).bv().len() >= 8 && v == le64(old(self).bv()) && final(self).bv() == old(self).bv().skip(8), Err(_) => old(self).bv().len() < 8 && final(self).bv() == old(self).bv() };
    fn try_get_u128_le(&mut self) -> (r: std::result::Result<u128, TryGetError>)
        ensures match r { Ok(v) => old(self).bv().len() >= 16 && v == le128(old(self).bv()) && final(self).bv() == old(self).bv().skip(16), Err(_) => old(self).bv().len() < 16 && final(self).bv() == old(self).bv() };
    fn try_get_f32_le(&mut self) -> (r: std::result::Result<f32, TryGetError>)
        ensures match r { Ok(v) => old(self).bv().len() >= 4 && v == f32_bits(le32(old(self).bv())) && final(self).bv() == old(self).bv().skip(4), Err(_) => old(self).bv().len() < 4 && final(self).bv() == old(self).bv() };
}
impl<'a> Buf for &'a [u8] {
    open spec fn bv(&self) -> Seq<u8> { (*self)@ }
    #[verifier::external_body] fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn advance(&mut self, cnt: usize) { unimplemented!() }
    #[verifier::external_body] fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn try_get_u8(&mut self) -> (r: std::result::Result<u8, TryGetError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u16_le(&mut self) -> (r: std::result::Result<u16, TryGetError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u32_le(&mut self) -> (r: std::result::Result<u32, TryGetError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u64_le(&mut self) -> (r: std::result::Result<u64, TryGetError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_u128_le(&mut self) -> (r: std::result::Result<u128, TryGetError>) { unimplemented!() }
    #[verifier::external_body] fn try_get_f32_le(&mut self) -> (r: std::result::Result<f32, TryGetError>) { unimplemented!() }
}

// ---- uuid::Uuid (its 16 bytes in display order) ---------------------------------------------------
#[derive(Clone, Copy, Hash, Eq)]
pub struct Uuid { pub b: [u8; 16] }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Uuid { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }
impl PartialEq for Uuid { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
pub struct UuidError;
impl vstd::std_specs::convert::FromSpecImpl<UuidError> for crate::errors::Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: UuidError) -> crate::errors::Error { crate::errors::Error { kind: crate::errors::ErrorKind::InvalidUuid { err: Msg } } } }
impl From<UuidError> for crate::errors::Error { fn from(kind: UuidError) -> (r: crate::errors::Error) { crate::errors::Error { kind: crate::errors::ErrorKind::InvalidUuid { err: Msg } } } }
/// the uuid with the given bytes
pub uninterp spec fn uuid_of(s: Seq<u8>) -> Uuid;
pub broadcast axiom fn uuid_of_bytes(u: Uuid) ensures #[trigger] uuid_of(u.b@) == u;
pub uninterp spec fn uuid_lit(v: u128) -> Uuid;
/// Uuid::parse_str: which strings it accepts is not modelled
pub uninterp spec fn uuid_parse(s: Seq<char>) -> Option<Uuid>;
impl Uuid {
    #[verifier::external_body] pub fn from_bytes(b: [u8; 16]) -> (r: Uuid) ensures r == (Uuid { b }), r == uuid_of(b@) { unimplemented!() }
    #[verifier::external_body] pub fn nil() -> (r: Uuid) ensures r == uuid_lit(0) { unimplemented!() }
    #[verifier::external_body] pub fn is_nil(&self) -> (r: bool) ensures r == (*self == uuid_lit(0)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_lit(v: u128) -> (r: Uuid) ensures r == uuid_lit(v) { unimplemented!() }
    #[verifier::external_body] pub fn parse_str(s: &str) -> (r: std::result::Result<Uuid, UuidError>) ensures match r { Ok(u) => uuid_parse(s@) == Some(u), Err(_) => uuid_parse(s@) is None } { unimplemented!() }
}
pub broadcast axiom fn uuid_nil_bytes() ensures #[trigger] uuid_lit(0).b@ == seq![0u8,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0];

// ---- widestring, encoding_rs, char ---------------------------------------------------------------------
/// the 16-bit units of `s`, least significant byte first; an odd byte at the end is not part of one
pub open spec fn u16s(s: Seq<u8>) -> Seq<u16> { Seq::new(s.len() / 2, |i: int| le16(s.subrange(2 * i, 2 * i + 2))) }
pub open spec fn u32s(s: Seq<u8>) -> Seq<u32> { Seq::new(s.len() / 4, |i: int| le32(s.subrange(4 * i, 4 * i + 4))) }
/// `u` up to its first NUL
pub open spec fn upto_nul(u: Seq<u16>) -> Seq<u16> decreases u.len() { if u.len() == 0 || u[0] == 0 { Seq::empty() } else { seq![u[0]] + upto_nul(u.skip(1)) } }
/// the text that UTF-16 units encode; None: an unpaired surrogate
pub uninterp spec fn utf16(u: Seq<u16>) -> Option<Seq<char>>;
/// what a decoder for UTF-16 units yields one after the other
pub uninterp spec fn utf16_items(u: Seq<u16>) -> Seq<std::result::Result<char, DecodeUtf16Error>>;
pub open spec fn lossy(c: std::result::Result<char, DecodeUtf16Error>) -> char { match c { Ok(x) => x, Err(_) => REPLACEMENT_CHARACTER } }
/// the text, with U+FFFD for every unpaired surrogate
pub open spec fn utf16_lossy(u: Seq<u16>) -> Seq<char> { utf16_items(u).map_values(|c: std::result::Result<char, DecodeUtf16Error>| lossy(c)) }
pub struct DecodeUtf16Error;
pub const REPLACEMENT_CHARACTER: char = '\u{FFFD}';
#[verifier::external_body]
pub fn decode_utf16(u: Vec<u16>) -> (r: Vec<std::result::Result<char, DecodeUtf16Error>>) ensures r@ == utf16_items(u@) { unimplemented!() }
pub open spec fn has_suffix(s: Seq<char>, a: Seq<char>) -> bool { exists|x: Seq<char>| s == #[trigger] (x + a) }
/// str::replace
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub trait VxText { spec fn vx_text(&self) -> Seq<char>; fn vx_chars(&self) -> (r: Vec<char>) ensures r@ == self.vx_text(); fn vx_replace(&self, a: &str, b: &str) -> (r: String) ensures r@ == replaced(self.vx_text(), a@, b@); fn vx_strip_suffix(&self, a: &str) -> (r: Option<&str>) ensures match r { Some(x) => self.vx_text() == x@ + a@, None => !has_suffix(self.vx_text(), a@) }; }
impl VxText for String { open spec fn vx_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) { unimplemented!() } #[verifier::external_body] fn vx_replace(&self, a: &str, b: &str) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_strip_suffix(&self, a: &str) -> (r: Option<&str>) { unimplemented!() } }
impl VxText for str { open spec fn vx_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) { unimplemented!() } #[verifier::external_body] fn vx_replace(&self, a: &str, b: &str) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_strip_suffix(&self, a: &str) -> (r: Option<&str>) { unimplemented!() } }
pub open spec fn opt_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
/// there, with the right type
pub open spec fn is_req<T>(o: Option<Option<T>>) -> bool { match o { Some(Some(_)) => true, _ => false } }
/// ISO-8859-1
pub open spec fn latin1(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
/// views of optional vectors and strings
pub open spec fn ov<T>(v: Option<Vec<T>>) -> Option<Seq<T>> { match v { Some(x) => Some(x@), None => None } }
pub open spec fn os(v: Option<String>) -> Option<Seq<char>> { match v { Some(x) => Some(x@), None => None } }
pub trait VxAsDeref<'a> { type O; spec fn vx_ad(&self, r: &Self::O) -> bool; fn vx_as_deref(&'a self) -> (r: Self::O) ensures self.vx_ad(&r); }
impl<'a> VxAsDeref<'a> for Option<String> { type O = Option<&'a str>; open spec fn vx_ad(&self, r: &Option<&'a str>) -> bool { match (*self, *r) { (Some(a), Some(b)) => b@ == a@, (None, None) => true, _ => false } } #[verifier::external_body] fn vx_as_deref(&'a self) -> (r: Option<&'a str>) { unimplemented!() } }
impl<'a, T: 'a> VxAsDeref<'a> for Option<Vec<T>> { type O = Option<&'a [T]>; open spec fn vx_ad(&self, r: &Option<&'a [T]>) -> bool { match (*self, *r) { (Some(a), Some(b)) => b@ == a@, (None, None) => true, _ => false } } #[verifier::external_body] fn vx_as_deref(&'a self) -> (r: Option<&'a [T]>) { unimplemented!() } }
pub struct Utf16Error;
pub struct U16CString { pub u: Vec<u16> }
impl U16CString {
    #[verifier::external_body] pub fn from_vec_truncate(v: Vec<u16>) -> (r: U16CString) ensures r.u@ == upto_nul(v@) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: std::result::Result<String, Utf16Error>) ensures match r { Ok(x) => utf16(self.u@) == Some(x@), Err(_) => utf16(self.u@) is None } { unimplemented!() }
}
pub struct U16String { pub u: Vec<u16> }
impl U16String {
    #[verifier::external_body] pub fn from_vec<const N: usize>(v: [u16; N]) -> (r: U16String) ensures r.u@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: std::result::Result<String, Utf16Error>) ensures match r { Ok(x) => utf16(self.u@) == Some(x@), Err(_) => utf16(self.u@) is None } { unimplemented!() }
}
#[verifier::external_body]
pub fn decode_latin1(s: &[u8]) -> (r: Cow) ensures r.v@ == latin1(s@) { unimplemented!() }
pub struct Cow { pub v: String }
impl Cow { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.v@ { unimplemented!() } }

// ---- std ---------------------------------------------------------------------------------------------
/// "take element k out of the sequence the loop iterates over" (by value for into_iter)
#[verifier::external_body]
pub fn vx_get<T>(v: &Vec<T>, k: usize) -> (r: T) requires k < v@.len() ensures r == v@[k as int] { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone<T>(v: &T) -> (r: T) ensures r == *v { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_vec<T>(v: &[T]) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }

pub open spec fn vx_refs<T>(r: Seq<&T>, s: Seq<T>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i] }

/// slice/Vec `.iter()`
pub trait VxIter<T> { spec fn vx_seq(&self) -> Seq<T>; fn vx_iter(&self) -> (r: Vec<&T>) ensures vx_refs(r@, self.vx_seq()); }
impl<T> VxIter<T> for [T] { open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> (r: Vec<&T>) { unimplemented!() } }
impl<T> VxIter<T> for Vec<T> { open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> (r: Vec<&T>) { unimplemented!() } }

/// HashMap `.values()` / `.keys()`: some enumeration of the entries, in no particular order
pub trait VxMap<K, V> {
    spec fn vx_m(&self) -> Map<K, V>;
    fn vx_values(&self) -> (r: Vec<&V>) ensures vx_enum_values(r@, self.vx_m());
    fn vx_keys(&self) -> (r: Vec<&K>) ensures vx_enum_keys(r@, self.vx_m());
    /// `.iter()`
    fn vx_iter(&self) -> (r: Vec<(&K, &V)>) ensures vx_enum_refs(r@, self.vx_m());
}
/// `ks` enumerates the keys of `m` without repetition
pub open spec fn vx_key_enum<K, V>(ks: Seq<K>, m: Map<K, V>) -> bool { ks.no_duplicates() && (forall|k: K| m.contains_key(k) <==> ks.contains(k)) }
pub open spec fn vx_enum_values<K, V>(r: Seq<&V>, m: Map<K, V>) -> bool {
    exists|ks: Seq<K>| #[trigger] vx_key_enum(ks, m) && ks.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == m[ks[i]])
}
pub open spec fn vx_enum_keys<K, V>(r: Seq<&K>, m: Map<K, V>) -> bool {
    exists|ks: Seq<K>| #[trigger] vx_key_enum(ks, m) && ks.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == ks[i])
}
pub open spec fn vx_enum_refs<K, V>(r: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    exists|ks: Seq<K>| #[trigger] vx_key_enum(ks, m) && ks.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]).0 == ks[i] && *r[i].1 == m[ks[i]])
}
/// by-value iteration over a map
pub open spec fn vx_enum_entries<K, V>(r: Seq<(K, V)>, m: Map<K, V>) -> bool {
    exists|ks: Seq<K>| #[trigger] vx_key_enum(ks, m) && ks.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == ks[i] && r[i].1 == m[ks[i]])
}
/// the keys behind an enumeration of values, and a key's place in it
pub closed spec fn vx_ks<K, V>(r: Seq<&V>, m: Map<K, V>) -> Seq<K> {
    choose|ks: Seq<K>| #[trigger] vx_key_enum(ks, m) && ks.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == m[ks[i]])
}
pub closed spec fn vx_ix<K, V>(r: Seq<&V>, m: Map<K, V>, k: K) -> int { choose|i: int| 0 <= i < vx_ks(r, m).len() && vx_ks(r, m)[i] == k }
pub broadcast proof fn lemma_enum_values<K, V>(r: Seq<&V>, m: Map<K, V>)
    requires #[trigger] vx_enum_values(r, m)
    ensures vx_ks(r, m).len() == r.len(),
        forall|i: int| 0 <= i < r.len() ==> m.contains_key(#[trigger] vx_ks(r, m)[i]),
        forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == m[vx_ks(r, m)[i]],
        forall|k: K| #[trigger] m.contains_key(k) ==> 0 <= vx_ix(r, m, k) < r.len() && vx_ks(r, m)[vx_ix(r, m, k)] == k && *r[vx_ix(r, m, k)] == m[k],
        r.len() == 0 <==> m == Map::<K, V>::empty()
{
    let ks = vx_ks(r, m);
    assert(vx_key_enum(ks, m));
    assert forall|i: int| 0 <= i < r.len() implies m.contains_key(#[trigger] ks[i]) by { assert(ks.contains(ks[i])); }
    assert forall|k: K| #[trigger] m.contains_key(k) implies 0 <= vx_ix(r, m, k) < r.len() && ks[vx_ix(r, m, k)] == k && *r[vx_ix(r, m, k)] == m[k] by {
        assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(0 <= i < ks.len() && ks[i] == k); assert(*r[vx_ix(r, m, k)] == m[ks[vx_ix(r, m, k)]]); }
    if r.len() == 0 { assert forall|k: K| !m.contains_key(k) by { } assert(m =~= Map::empty()); }
    if m == Map::<K, V>::empty() { if r.len() > 0 { assert(m.contains_key(ks[0])); } }
}
pub proof fn lemma_ks_enum<K, V>(r: Seq<&V>, m: Map<K, V>)
    requires vx_enum_values(r, m)
    ensures vx_key_enum(vx_ks(r, m), m), vx_ks(r, m).len() == r.len(), forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == m[vx_ks(r, m)[i]]
{}
impl<K, V> VxMap<K, V> for HashMap<K, V> {
    open spec fn vx_m(&self) -> Map<K, V> { self@ }
    #[verifier::external_body] fn vx_values(&self) -> (r: Vec<&V>) { unimplemented!() }
    #[verifier::external_body] fn vx_keys(&self) -> (r: Vec<&K>) { unimplemented!() }
    #[verifier::external_body] fn vx_iter(&self) -> (r: Vec<(&K, &V)>) { unimplemented!() }
}
/// HashMap::entry with what follows it
pub trait VxEntry<K, V> {
    fn vx_entry_or_insert(&mut self, k: K, v: V);
}
impl<K, V> VxEntry<K, V> for HashMap<K, V> {
    #[verifier::external_body] fn vx_entry_or_insert(&mut self, k: K, v: V) ensures final(self)@ == (if old(self)@.contains_key(k) { old(self)@ } else { old(self)@.insert(k, v) }) { unimplemented!() }
}
/// what a map of lists holds for a key
pub open spec fn vx_list<K, T>(m: Map<K, Vec<T>>, k: K) -> Seq<T> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
pub trait VxEntryPush<K, T> { fn vx_entry_push(&mut self, k: K, v: T); }
impl<K, T> VxEntryPush<K, T> for HashMap<K, Vec<T>> {
    #[verifier::external_body] fn vx_entry_push(&mut self, k: K, v: T)
        ensures final(self)@.contains_key(k), final(self)@[k]@ == vx_list(old(self)@, k).push(v), final(self)@.dom() == old(self)@.dom().insert(k),
            forall|j: K| j != k && old(self)@.contains_key(j) ==> #[trigger] final(self)@[j] == old(self)@[j] { unimplemented!() }
}
/// slice patterns of a fixed length
pub trait VxSlice<T> { spec fn vx_sl(&self) -> Seq<T>;
    /// `[a..b]`, `[a..]`: panics unless the range is inside
    fn vx_sub(&self, a: usize, b: usize) -> (r: &[T]) requires a <= b <= self.vx_sl().len() ensures r@ == self.vx_sl().subrange(a as int, b as int);
    fn vx_from(&self, a: usize) -> (r: &[T]) requires a <= self.vx_sl().len() ensures r@ == self.vx_sl().skip(a as int);
    fn vx_slice0(&self) -> (r: Option<()>) ensures r is Some <==> self.vx_sl().len() == 0;
    fn vx_slice1(&self) -> (r: Option<(&T,)>) ensures match r { Some(x) => self.vx_sl().len() == 1 && *x.0 == self.vx_sl()[0], None => self.vx_sl().len() != 1 };
    fn vx_slice2(&self) -> (r: Option<(&T, &T)>) ensures match r { Some(x) => self.vx_sl().len() == 2 && *x.0 == self.vx_sl()[0] && *x.1 == self.vx_sl()[1], None => self.vx_sl().len() != 2 };
}
impl<T> VxSlice<T> for Vec<T> { open spec fn vx_sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sub(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_slice0(&self) -> (r: Option<()>) { unimplemented!() }
    #[verifier::external_body] fn vx_slice1(&self) -> (r: Option<(&T,)>) { unimplemented!() }
    #[verifier::external_body] fn vx_slice2(&self) -> (r: Option<(&T, &T)>) { unimplemented!() }
}
impl<T> VxSlice<T> for [T] { open spec fn vx_sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sub(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_slice0(&self) -> (r: Option<()>) { unimplemented!() }
    #[verifier::external_body] fn vx_slice1(&self) -> (r: Option<(&T,)>) { unimplemented!() }
    #[verifier::external_body] fn vx_slice2(&self) -> (r: Option<(&T, &T)>) { unimplemented!() }
}
/// Vec::extend / HashMap::extend with a materialised iterator
pub trait VxExtend<T> { fn vx_extend(&mut self, v: Vec<T>); }
pub open spec fn vx_map_ext<K, V>(m: Map<K, V>, v: Seq<(K, V)>) -> Map<K, V> decreases v.len() {
    if v.len() == 0 { m } else { vx_map_ext(m, v.drop_last()).insert(v.last().0, v.last().1) }
}
impl<T> VxExtend<T> for Vec<T> { #[verifier::external_body] fn vx_extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() } }
pub open spec fn vx_map_ext_refs<K, V>(m: Map<K, V>, v: Seq<(&K, &V)>) -> Map<K, V> decreases v.len() {
    if v.len() == 0 { m } else { vx_map_ext_refs(m, v.drop_last()).insert(*v.last().0, *v.last().1) }
}
impl<'a, K: Copy, V: Copy> VxExtend<(&'a K, &'a V)> for HashMap<K, V> { #[verifier::external_body] fn vx_extend(&mut self, v: Vec<(&'a K, &'a V)>) ensures final(self)@ == vx_map_ext_refs(old(self)@, v@) { unimplemented!() } }
impl<K, V> VxExtend<(K, V)> for HashMap<K, V> { #[verifier::external_body] fn vx_extend(&mut self, v: Vec<(K, V)>) ensures final(self)@ == vx_map_ext(old(self)@, v@) { unimplemented!() } }

/// IntoIterator for Vec<T> (by value) and &Vec / &[T]
pub trait VxInto<T> { spec fn vx_is(&self, r: Seq<T>) -> bool; fn vx_into(self) -> (r: Vec<T>) where Self: Sized ensures self.vx_is(r@); }
impl<T> VxInto<T> for Vec<T> { open spec fn vx_is(&self, r: Seq<T>) -> bool { r == self@ } #[verifier::external_body] fn vx_into(self) -> (r: Vec<T>) { unimplemented!() } }
impl<'a, T> VxInto<&'a T> for &'a Vec<T> { open spec fn vx_is(&self, r: Seq<&'a T>) -> bool { vx_refs(r, self@) } #[verifier::external_body] fn vx_into(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<K, V> VxInto<(K, V)> for HashMap<K, V> { open spec fn vx_is(&self, r: Seq<(K, V)>) -> bool { vx_enum_entries(r, self@) } #[verifier::external_body] fn vx_into(self) -> (r: Vec<(K, V)>) { unimplemented!() } }
impl<'a, T> VxInto<&'a T> for &'a [T] { open spec fn vx_is(&self, r: Seq<&'a T>) -> bool { vx_refs(r, self@) } #[verifier::external_body] fn vx_into(self) -> (r: Vec<&'a T>) { unimplemented!() } }

pub open spec fn vx_max(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn vx_min(a: int, b: int) -> int { if a <= b { a } else { b } }
#[verifier::external_body] pub fn vx_skip<T>(v: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == v@.skip(vx_min(n as int, v@.len() as int)) { unimplemented!() }
#[verifier::external_body] pub fn vx_take<T>(v: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == v@.take(vx_min(n as int, v@.len() as int)) { unimplemented!() }
#[verifier::external_body] pub fn vx_rev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }
#[verifier::external_body] pub fn vx_chain<T>(v: Vec<T>, w: Vec<T>) -> (r: Vec<T>) ensures r@ == v@ + w@ { unimplemented!() }
#[verifier::external_body] pub fn vx_enumerate<T>(v: Vec<T>) -> (r: Vec<(usize, T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, v@[i]) { unimplemented!() }
pub open spec fn s_zip<T, U>(a: Seq<T>, b: Seq<U>) -> Seq<(T, U)> { Seq::new(vx_min(a.len() as int, b.len() as int) as nat, |i: int| (a[i], b[i])) }
pub open spec fn s_copied<T>(v: Seq<&T>) -> Seq<T> { Seq::new(v.len(), |i: int| *v[i]) }
pub broadcast proof fn lemma_copied<T>(r: Seq<&T>, s: Seq<T>) ensures #[trigger] vx_refs(r, s) ==> #[trigger] s_copied(r) == s { if vx_refs(r, s) { assert(s_copied(r) =~= s); } }
#[verifier::external_body] pub fn vx_zip<T, U>(v: Vec<T>, w: Vec<U>) -> (r: Vec<(T, U)>) ensures r@ == s_zip(v@, w@), r@.len() == vx_min(v@.len() as int, w@.len() as int), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (v@[i], w@[i]) { unimplemented!() }
#[verifier::external_body] pub fn vx_copied<T>(v: Vec<&T>) -> (r: Vec<T>) ensures r@ == s_copied(v@), r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == *v@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_next<T>(v: Vec<T>) -> (r: Option<T>) ensures r == (if v@.len() > 0 { Some(v@[0]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_last<T>(v: Vec<T>) -> (r: Option<T>) ensures r == (if v@.len() > 0 { Some(v@.last()) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nth<T>(v: Vec<T>, n: usize) -> (r: Option<T>) ensures r == (if v@.len() > n { Some(v@[n as int]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_count<T>(v: Vec<T>) -> (r: usize) ensures r == v@.len() { unimplemented!() }
/// Ord: `a <= b`. Nothing but its being an order is used, and that only of the types named in an axiom
pub uninterp spec fn vx_le<T>(a: T, b: T) -> bool;
pub broadcast axiom fn vx_le_ref<T>(a: &T, b: &T) ensures #[trigger] vx_le::<&T>(a, b) == vx_le::<T>(*a, *b);
pub open spec fn vx_least<T>(s: Seq<T>, x: T) -> bool { s.contains(x) && forall|i: int| 0 <= i < s.len() ==> vx_le(x, #[trigger] s[i]) }
pub open spec fn vx_greatest<T>(s: Seq<T>, x: T) -> bool { s.contains(x) && forall|i: int| 0 <= i < s.len() ==> vx_le(#[trigger] s[i], x) }
#[verifier::external_body] pub fn vx_min_of<T>(v: Vec<T>) -> (r: Option<T>) ensures match r { Some(x) => vx_least(v@, x), None => v@.len() == 0 } { unimplemented!() }
#[verifier::external_body] pub fn vx_max_of<T>(v: Vec<T>) -> (r: Option<T>) ensures match r { Some(x) => vx_greatest(v@, x), None => v@.len() == 0 } { unimplemented!() }
pub broadcast proof fn lemma_least_key<K, V>(r: Seq<&K>, m: Map<K, V>, x: &K)
    requires #[trigger] vx_enum_keys(r, m), #[trigger] vx_least(r, x)
    ensures m.contains_key(*x), forall|j: K| #[trigger] m.contains_key(j) ==> vx_le::<K>(*x, j)
{
    broadcast use vx_le_ref;
    let ks = choose|ks: Seq<K>| #[trigger] vx_key_enum(ks, m) && ks.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == ks[i]);
    let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(*r[i] == ks[i]); assert(ks.contains(ks[i]));
    assert forall|j: K| #[trigger] m.contains_key(j) implies vx_le::<K>(*x, j) by { let q = choose|q: int| 0 <= q < ks.len() && ks[q] == j; assert(ks.contains(j)); assert(*r[q] == ks[q]); assert(vx_le::<&K>(x, r[q])); }
}
pub broadcast proof fn lemma_no_keys<K, V>(r: Seq<&K>, m: Map<K, V>)
    requires #[trigger] vx_enum_keys(r, m)
    ensures r.len() == 0 ==> m =~= Map::<K, V>::empty()
{
    let ks = choose|ks: Seq<K>| #[trigger] vx_key_enum(ks, m) && ks.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == ks[i]);
    if r.len() == 0 { assert forall|k: K| !m.contains_key(k) by { assert(!ks.contains(k)); } }
}
pub open spec fn vx_total(s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { 0 } else { vx_total(s.drop_last()) + s.last() } }
pub broadcast proof fn vx_total_push(s: Seq<usize>, x: usize) ensures #[trigger] vx_total(s.push(x)) == vx_total(s) + x { assert(s.push(x).drop_last() =~= s); }
/// assumes that the total fits, with room to spare (what is added up are counts of references in a file)
#[verifier::external_body] pub fn vx_sum_of(v: Vec<usize>) -> (r: usize) ensures r == vx_total(v@), r <= 0x3fff_ffff_ffff_ffff { unimplemented!() }
/// slice::chunks_exact: consecutive, full chunks only
#[verifier::external_body] pub fn vx_chunks_exact<'a, T>(v: &'a [T], n: usize) -> (r: Vec<&'a [T]>)
    requires n > 0
    ensures r@.len() == v@.len() / n as nat, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == v@.subrange(i * n, (i + 1) * n) { unimplemented!() }

/// Iterator::flatten over Options
pub open spec fn vx_flat<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => vx_flat(s.drop_last()).push(x), None => vx_flat(s.drop_last()) } }
}
pub trait VxFlatten<T> { spec fn vx_fl(&self) -> Seq<T>; fn vx_flatten(self) -> (r: Vec<T>) where Self: Sized ensures r@ == self.vx_fl(); }
impl<T> VxFlatten<T> for Vec<Option<T>> { open spec fn vx_fl(&self) -> Seq<T> { vx_flat(self@) } #[verifier::external_body] fn vx_flatten(self) -> (r: Vec<T>) { unimplemented!() } }

/// what `flat_map` takes out of an Option or a Result
pub trait VxOpt<T> { spec fn vx_o(&self) -> Option<T>; fn vx_opt(self) -> (r: Option<T>) where Self: Sized ensures r == self.vx_o(); }
impl<T> VxOpt<T> for Option<T> { open spec fn vx_o(&self) -> Option<T> { *self } fn vx_opt(self) -> (r: Option<T>) { self } }
impl<T, E> VxOpt<T> for std::result::Result<T, E> { open spec fn vx_o(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } fn vx_opt(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => None } } }
/// Vec::extend by a vector
pub fn vx_append<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { let mut w = w; v.append(&mut w); }
/// a stable sort: `p` says where each item of the result was before
pub open spec fn vx_sorted_as<T, K: VxOrd>(r: Seq<T>, v: Seq<T>, keys: Seq<K>, p: Seq<int>) -> bool {
    r.len() == v.len() && p.len() == v.len() && p.no_duplicates()
    && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < v.len() && r[i] == v[p[i]])
    && (forall|i: int, j: int| 0 <= i < j < p.len() ==> keys[#[trigger] p[i]].vx_le(&keys[#[trigger] p[j]]) && (keys[p[j]].vx_le(&keys[p[i]]) ==> p[i] < p[j]))
}
pub trait VxOrd { spec fn vx_le(&self, o: &Self) -> bool; }
impl VxOrd for u8 { open spec fn vx_le(&self, o: &u8) -> bool { *self <= *o } }
impl VxOrd for u16 { open spec fn vx_le(&self, o: &u16) -> bool { *self <= *o } }
impl VxOrd for u32 { open spec fn vx_le(&self, o: &u32) -> bool { *self <= *o } }
impl VxOrd for u64 { open spec fn vx_le(&self, o: &u64) -> bool { *self <= *o } }
impl VxOrd for usize { open spec fn vx_le(&self, o: &usize) -> bool { *self <= *o } }
/// Itertools::sorted_by_key, given the key of each item
#[verifier::external_body]
pub fn vx_sort_by_keys<T, K: VxOrd>(v: Vec<T>, keys: Vec<K>) -> (r: Vec<T>)
    requires keys@.len() == v@.len() ensures exists|p: Seq<int>| #[trigger] vx_sorted_as(r@, v@, keys@, p)
{ unimplemented!() }

/// the sum of the values of a (finite) map
pub open spec fn vx_msum<K>(m: Map<K, int>) -> int decreases m.len() when m.dom().finite() {
    if m.len() == 0 { 0 } else { let k = m.dom().choose(); m[k] + vx_msum(m.remove(k)) }
}
pub proof fn lemma_msum_remove<K>(m: Map<K, int>, k: K)
    requires m.dom().finite(), m.contains_key(k)
    ensures vx_msum(m) == m[k] + vx_msum(m.remove(k))
    decreases m.len()
{
    let j = m.dom().choose();
    assert(m.dom().contains(j)) by { assert(m.dom().contains(k)); }
    assert(m.len() > 0) by { if m.len() == 0 { assert(m.dom() =~= Set::empty()); } }
    if j != k {
        lemma_msum_remove(m.remove(j), k);
        lemma_msum_remove(m.remove(k), j);
        assert(m.remove(j).remove(k) =~= m.remove(k).remove(j));
    }
}
/// summing along an enumeration gives the sum of the map
pub open spec fn vx_isum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { vx_isum(s.drop_last()) + s.last() } }
pub proof fn lemma_enum_sum<K>(ks: Seq<K>, m: Map<K, int>)
    requires vx_key_enum(ks, m)
    ensures m.dom().finite(), vx_isum(ks.map_values(|k: K| m[k])) == vx_msum(m)
    decreases ks.len()
{
    assert(m.dom() =~= ks.to_set());
    ks.lemma_cardinality_of_set();
    let f = |k: K| m[k];
    if ks.len() == 0 { assert(m.dom() =~= Set::empty()); } else {
        let k = ks.last(); let kp = ks.drop_last(); let mp = m.remove(k);
        assert(ks.contains(k));
        assert forall|j: K| mp.contains_key(j) <==> kp.contains(j) by {
            if mp.contains_key(j) { assert(ks.contains(j)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == j; assert(kp[i] == j); }
            if kp.contains(j) { let i = choose|i: int| 0 <= i < kp.len() && kp[i] == j; assert(ks[i] == j); assert(ks.contains(j)); assert(ks[i] != ks[ks.len() - 1]); }
        }
        lemma_enum_sum(kp, mp);
        lemma_msum_remove(m, k);
        let g = |k: K| mp[k];
        assert(ks.map_values(f).drop_last() =~= kp.map_values(g)) by {
            assert forall|i: int| 0 <= i < kp.len() implies f(kp[i]) == g(kp[i]) by { assert(kp.contains(kp[i])); assert(kp[i] != k) by { assert(ks[i] != ks[ks.len() - 1]); } } }
    }
}

/// Default::default()
pub trait VxDefault { spec fn vx_is_default(&self) -> bool; fn vx_default() -> (r: Self) where Self: Sized ensures r.vx_is_default(); }
impl VxDefault for bool { open spec fn vx_is_default(&self) -> bool { !*self } fn vx_default() -> (r: bool) { false } }
impl VxDefault for u8 { open spec fn vx_is_default(&self) -> bool { *self == 0 } fn vx_default() -> (r: u8) { 0 } }
impl VxDefault for u16 { open spec fn vx_is_default(&self) -> bool { *self == 0 } fn vx_default() -> (r: u16) { 0 } }
impl VxDefault for u32 { open spec fn vx_is_default(&self) -> bool { *self == 0 } fn vx_default() -> (r: u32) { 0 } }
impl VxDefault for u64 { open spec fn vx_is_default(&self) -> bool { *self == 0 } fn vx_default() -> (r: u64) { 0 } }
impl VxDefault for i32 { open spec fn vx_is_default(&self) -> bool { *self == 0 } fn vx_default() -> (r: i32) { 0 } }
impl VxDefault for f32 { open spec fn vx_is_default(&self) -> bool { *self == f32_bits(0) } #[verifier::external_body] fn vx_default() -> (r: f32) { unimplemented!() } }
impl<T> VxDefault for Vec<T> { open spec fn vx_is_default(&self) -> bool { self@ == Seq::<T>::empty() } fn vx_default() -> (r: Vec<T>) { Vec::new() } }
impl VxDefault for String { open spec fn vx_is_default(&self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn vx_default() -> (r: String) { unimplemented!() } }
impl<T> VxDefault for Option<T> { open spec fn vx_is_default(&self) -> bool { self is None } fn vx_default() -> (r: Option<T>) { None } }

/// `contains` on a slice
pub trait VxHas<T> { spec fn vx_h(&self, x: T, r: bool) -> bool; fn vx_has(&self, x: &T) -> (r: bool) ensures self.vx_h(*x, r); }
impl<T: PartialEq> VxHas<T> for [T] { open spec fn vx_h(&self, x: T, r: bool) -> bool { <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> (r <==> exists|i: int| 0 <= i < self@.len() && <T as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(&#[trigger] self@[i], &x)) } #[verifier::external_body] fn vx_has(&self, x: &T) -> (r: bool) { unimplemented!() } }
impl<T: PartialEq> VxHas<T> for Vec<T> { open spec fn vx_h(&self, x: T, r: bool) -> bool { <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> (r <==> exists|i: int| 0 <= i < self@.len() && <T as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(&#[trigger] self@[i], &x)) } #[verifier::external_body] fn vx_has(&self, x: &T) -> (r: bool) { unimplemented!() } }
/// `max` and `min` of two numbers
pub trait VxNum { spec fn vx_less(&self, o: &Self) -> bool; fn vx_maximum(self, o: Self) -> (r: Self) where Self: Sized ensures r == (if self.vx_less(&o) { o } else { self }); fn vx_minimum(self, o: Self) -> (r: Self) where Self: Sized ensures r == (if self.vx_less(&o) { self } else { o }); }
impl VxNum for u8 { open spec fn vx_less(&self, o: &u8) -> bool { *self < *o } fn vx_maximum(self, o: u8) -> (r: u8) { if self < o { o } else { self } } fn vx_minimum(self, o: u8) -> (r: u8) { if self < o { self } else { o } } }
impl VxNum for u16 { open spec fn vx_less(&self, o: &u16) -> bool { *self < *o } fn vx_maximum(self, o: u16) -> (r: u16) { if self < o { o } else { self } } fn vx_minimum(self, o: u16) -> (r: u16) { if self < o { self } else { o } } }
impl VxNum for u32 { open spec fn vx_less(&self, o: &u32) -> bool { *self < *o } fn vx_maximum(self, o: u32) -> (r: u32) { if self < o { o } else { self } } fn vx_minimum(self, o: u32) -> (r: u32) { if self < o { self } else { o } } }
impl VxNum for u64 { open spec fn vx_less(&self, o: &u64) -> bool { *self < *o } fn vx_maximum(self, o: u64) -> (r: u64) { if self < o { o } else { self } } fn vx_minimum(self, o: u64) -> (r: u64) { if self < o { self } else { o } } }
impl VxNum for usize { open spec fn vx_less(&self, o: &usize) -> bool { *self < *o } fn vx_maximum(self, o: usize) -> (r: usize) { if self < o { o } else { self } } fn vx_minimum(self, o: usize) -> (r: usize) { if self < o { self } else { o } } }
impl VxNum for i8 { open spec fn vx_less(&self, o: &i8) -> bool { *self < *o } fn vx_maximum(self, o: i8) -> (r: i8) { if self < o { o } else { self } } fn vx_minimum(self, o: i8) -> (r: i8) { if self < o { self } else { o } } }
impl VxNum for i16 { open spec fn vx_less(&self, o: &i16) -> bool { *self < *o } fn vx_maximum(self, o: i16) -> (r: i16) { if self < o { o } else { self } } fn vx_minimum(self, o: i16) -> (r: i16) { if self < o { self } else { o } } }
impl VxNum for i32 { open spec fn vx_less(&self, o: &i32) -> bool { *self < *o } fn vx_maximum(self, o: i32) -> (r: i32) { if self < o { o } else { self } } fn vx_minimum(self, o: i32) -> (r: i32) { if self < o { self } else { o } } }
impl VxNum for i64 { open spec fn vx_less(&self, o: &i64) -> bool { *self < *o } fn vx_maximum(self, o: i64) -> (r: i64) { if self < o { o } else { self } } fn vx_minimum(self, o: i64) -> (r: i64) { if self < o { self } else { o } } }
impl VxNum for isize { open spec fn vx_less(&self, o: &isize) -> bool { *self < *o } fn vx_maximum(self, o: isize) -> (r: isize) { if self < o { o } else { self } } fn vx_minimum(self, o: isize) -> (r: isize) { if self < o { self } else { o } } }

pub assume_specification<T: Copy> [std::option::Option::<&T>::copied] (o: std::option::Option<&T>) -> (r: std::option::Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });

pub broadcast proof fn vx_push_contains<T>(s: Seq<T>, y: T, x: T) ensures #[trigger] s.push(y).contains(x) <==> s.contains(x) || x == y
{
    if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(s.push(y)[j] == x); }
    if x == y { assert(s.push(y)[s.len() as int] == x); }
    if s.push(y).contains(x) && x != y { let j = choose|j: int| 0 <= j < s.push(y).len() && s.push(y)[j] == x; assert(s[j] == x); }
}
/// the unread rest after two advances
pub broadcast proof fn lemma_skip_skip<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }

/// f32 arithmetic: total, a function of its operands, multiplication commutes; what the function is stays open
pub uninterp spec fn fmul(a: f32, b: f32) -> f32;
pub uninterp spec fn fsub(a: f32, b: f32) -> f32;
pub uninterp spec fn fadd(a: f32, b: f32) -> f32;
pub uninterp spec fn fdiv(a: f32, b: f32) -> f32;
// references are equal when what they refer to is, strings when their characters are
pub broadcast axiom fn ax_ref_obeys<A: ?Sized + PartialEq<B>, B: ?Sized>() ensures #[trigger] <&A as vstd::std_specs::cmp::PartialEqSpec<&B>>::obeys_eq_spec() == <A as vstd::std_specs::cmp::PartialEqSpec<B>>::obeys_eq_spec();
pub broadcast axiom fn ax_ref_eq<A: ?Sized + PartialEq<B>, B: ?Sized>(a: &A, b: &B) ensures #[trigger] <&A as vstd::std_specs::cmp::PartialEqSpec<&B>>::eq_spec(&a, &b) == <A as vstd::std_specs::cmp::PartialEqSpec<B>>::eq_spec(a, b);
pub broadcast axiom fn ax_str_obeys() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_str_eq(a: String, b: String) ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_string_ref_obeys() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_ref_eq(a: String, b: &str) ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_string_str_obeys() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_str_eq(a: String, b: &str) ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast group string_eq { ax_ref_obeys, ax_ref_eq, ax_str_obeys, ax_str_eq, ax_string_ref_obeys, ax_string_ref_eq, ax_string_str_obeys, ax_string_str_eq }
pub broadcast axiom fn ax_fmul(a: f32, b: f32) ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn ax_fsub(a: f32, b: f32) ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn ax_fadd(a: f32, b: f32) ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn ax_fdiv(a: f32, b: f32) ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast axiom fn ax_fmul_is(a: f32, b: f32, o: f32) requires #[trigger] vstd::std_specs::ops::mul_ensures::<f32>(a, b, o) ensures o == fmul(a, b);
pub broadcast axiom fn ax_fsub_is(a: f32, b: f32, o: f32) requires #[trigger] vstd::std_specs::ops::sub_ensures::<f32>(a, b, o) ensures o == fsub(a, b);
pub broadcast axiom fn ax_fadd_is(a: f32, b: f32, o: f32) requires #[trigger] vstd::std_specs::ops::add_ensures::<f32>(a, b, o) ensures o == fadd(a, b);
pub broadcast axiom fn ax_fdiv_is(a: f32, b: f32, o: f32) requires #[trigger] vstd::std_specs::ops::div_ensures::<f32>(a, b, o) ensures o == fdiv(a, b);
pub broadcast axiom fn ax_fcomm(a: f32, b: f32) ensures #[trigger] fmul(a, b) == fmul(b, a);
pub fn vx_f(a: f32) -> (r: f32) ensures r == a { a }
/// integers as f32
pub trait VxF32: Sized { fn vx_f32(self) -> (r: f32) ensures r == as_f32(self); }
pub uninterp spec fn as_f32<T>(x: T) -> f32;
impl VxF32 for i64 { #[verifier::external_body] fn vx_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF32 for u64 { #[verifier::external_body] fn vx_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF32 for i32 { #[verifier::external_body] fn vx_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF32 for u32 { #[verifier::external_body] fn vx_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF32 for u16 { #[verifier::external_body] fn vx_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF32 for u8 { #[verifier::external_body] fn vx_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF32 for usize { #[verifier::external_body] fn vx_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF32 for f32 { #[verifier::external_body] fn vx_f32(self) -> (r: f32) { unimplemented!() } }
pub broadcast group group_ext { ax_fmul, ax_fsub, ax_fadd, ax_fdiv, ax_fmul_is, ax_fsub_is, ax_fadd_is, ax_fdiv_is, ax_fcomm,  vx_le_ref, lemma_least_key, lemma_no_keys, uuid_of_bytes, uuid_nil_bytes, lemma_enum_values, lemma_copied }
// ---- paths and files ----------------------------------------------------------------------------
// std::path, std::ffi, std::fs and sanitise_file_name. What a path means is left open: the functions below are those of the
// platform. The file system is taken not to change during a parse: they are functions of the path.
#[verifier::external_body] pub struct OsStr { x: u8 }
/// std::path::Path and PathBuf
#[verifier::external_body] pub struct Path { x: u8 }
pub type PathBuf = Path;
pub struct IoError;
pub uninterp spec fn str_os(s: Seq<char>) -> OsStr;
pub uninterp spec fn os_str(o: OsStr) -> Option<Seq<char>>;
pub uninterp spec fn os_lossy(o: OsStr) -> Seq<char>;
pub uninterp spec fn os_empty(o: OsStr) -> bool;
pub uninterp spec fn os_path(o: OsStr) -> Path;
pub uninterp spec fn path_os(p: Path) -> OsStr;
pub uninterp spec fn path_parent(p: Path) -> Option<Path>;
pub uninterp spec fn path_name(p: Path) -> Option<OsStr>;
pub uninterp spec fn path_ext(p: Path) -> Option<OsStr>;
pub uninterp spec fn path_absolute(p: Path) -> bool;
pub uninterp spec fn path_join(p: Path, q: Path) -> Path;
pub uninterp spec fn path_starts(p: Path, q: Path) -> bool;
pub uninterp spec fn path_ends(p: Path, q: Path) -> bool;
/// the components of a path: a name, the directory itself (`.`), or something else (`..`, the root, a drive)
pub enum Part { Name(OsStr), Here, Other }
pub uninterp spec fn path_parts(p: Path) -> Seq<Part>;
pub uninterp spec fn path_empty() -> Path;
pub uninterp spec fn fs_exists(p: Path) -> bool;
pub uninterp spec fn fs_is_file(p: Path) -> bool;
/// where a path leads, all symbolic links followed
pub uninterp spec fn fs_canon(p: Path) -> Option<Path>;
/// what is in a directory (`None`: an entry that cannot be read)
pub uninterp spec fn fs_dir(p: Path) -> Option<Seq<Option<Path>>>;
/// what is in a file, when it can be read
pub uninterp spec fn fs_bytes(p: Path) -> Option<Seq<u8>>;
/// the files and directories that may be read
pub uninterp spec fn may_open(p: Path) -> bool;
pub open spec fn str_path(s: Seq<char>) -> Path { os_path(str_os(s)) }
pub open spec fn path_is_empty(p: Path) -> bool { os_empty(path_os(p)) }
/// the directory a file is in
pub open spec fn base_of(p: Path) -> Option<Path> { match path_parent(p) { Some(b) => Some(if path_is_empty(b) { str_path("."@) } else { b }), None => None } }
/// a path that, when it exists, leads to somewhere in a directory
pub open spec fn contained(b: Path, p: Path) -> bool { fs_exists(p) ==> (match (fs_canon(b), fs_canon(p)) { (Some(x), Some(y)) => path_starts(y, x), _ => false }) }
/// what may be read: besides what the caller names, only what a directory that may be read, or the directory of a file that may be read, contains
pub broadcast axiom fn may_open_beside(f: Path, b: Path, p: Path) requires #[trigger] may_open(f), base_of(f) == Some(b), #[trigger] contained(b, p) ensures may_open(p);
pub broadcast axiom fn may_open_below(d: Path, p: Path) requires may_open(d), #[trigger] contained(d, p) ensures may_open(p);
pub broadcast axiom fn ax_path_empty() ensures os_empty(path_os(#[trigger] path_empty()));
pub trait VxAsPath { spec fn vx_path(&self) -> Path; spec fn vx_osv(&self) -> OsStr; }
impl VxAsPath for str { open spec fn vx_path(&self) -> Path { str_path(self@) } open spec fn vx_osv(&self) -> OsStr { str_os(self@) } }
impl VxAsPath for String { open spec fn vx_path(&self) -> Path { str_path(self@) } open spec fn vx_osv(&self) -> OsStr { str_os(self@) } }
impl VxAsPath for OsStr { open spec fn vx_path(&self) -> Path { os_path(*self) } open spec fn vx_osv(&self) -> OsStr { *self } }
impl VxAsPath for Path { open spec fn vx_path(&self) -> Path { *self } open spec fn vx_osv(&self) -> OsStr { path_os(*self) } }
impl<T: VxAsPath + ?Sized> VxAsPath for &T { open spec fn vx_path(&self) -> Path { (**self).vx_path() } open spec fn vx_osv(&self) -> OsStr { (**self).vx_osv() } }
pub struct VxCow { pub s: String }
impl VxCow {
    #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self.s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.s@ { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for OsStr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }
impl PartialEq for OsStr { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl OsStr {
    #[verifier::external_body] pub fn new<S: VxAsPath + ?Sized>(s: &S) -> (r: &OsStr) ensures *r == s.vx_osv() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == os_empty(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures match r { Some(x) => os_str(*self) == Some(x@), None => os_str(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: VxCow) ensures r.s@ == os_lossy(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct PrefixComponent { x: u8 }
pub enum Component<'a> { Prefix(PrefixComponent), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
pub open spec fn part_of(c: Component<'_>) -> Part { match c { Component::Normal(o) => Part::Name(*o), Component::CurDir => Part::Here, _ => Part::Other } }
impl Path {
    #[verifier::external_body] pub fn new<S: VxAsPath + ?Sized>(s: &S) -> (r: &Path) ensures *r == s.vx_path() { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures match r { Some(x) => path_parent(*self) == Some(*x), None => path_parent(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures match r { Some(x) => path_name(*self) == Some(*x), None => path_name(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>) ensures match r { Some(x) => path_ext(*self) == Some(*x), None => path_ext(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn as_os_str(&self) -> (r: &OsStr) ensures *r == path_os(*self) { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: Path) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: VxCow) ensures r.s@ == os_lossy(path_os(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures match r { Some(x) => os_str(path_os(*self)) == Some(x@), None => os_str(path_os(*self)) is None } { unimplemented!() }
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == path_absolute(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is_relative(&self) -> (r: bool) ensures r == !path_absolute(*self) { unimplemented!() }
    #[verifier::external_body] pub fn components(&self) -> (r: Vec<Component<'_>>) ensures path_parts(*self) == r@.map_values(|c: Component<'_>| part_of(c)) { unimplemented!() }
    #[verifier::external_body] pub fn join<P: VxAsPath>(&self, p: P) -> (r: Path) ensures r == path_join(*self, p.vx_path()) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with<P: VxAsPath>(&self, p: P) -> (r: bool) ensures r == path_starts(*self, p.vx_path()) { unimplemented!() }
    #[verifier::external_body] pub fn ends_with<P: VxAsPath>(&self, p: P) -> (r: bool) ensures r == path_ends(*self, p.vx_path()) { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == fs_exists(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == fs_is_file(*self) { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: std::result::Result<Path, IoError>) ensures match r { Ok(x) => fs_canon(*self) == Some(x), Err(_) => fs_canon(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn read_dir(&self) -> (r: std::result::Result<Vec<std::result::Result<DirEntry, IoError>>, IoError>)
        requires may_open(*self) ensures match r { Ok(v) => fs_dir(*self) == Some(v@.map_values(|e: std::result::Result<DirEntry, IoError>| entry_path(e))), Err(_) => fs_dir(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn push<P: VxAsPath>(&mut self, p: P) ensures *final(self) == path_join(*old(self), p.vx_path()) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_path_buf() -> (r: Path) ensures r == path_empty() { unimplemented!() }
pub open spec fn entry_path(e: std::result::Result<DirEntry, IoError>) -> Option<Path> { match e { Ok(x) => Some(x.p), Err(_) => None } }
pub struct DirEntry { pub p: Path }
impl DirEntry { #[verifier::external_body] pub fn path(&self) -> (r: Path) ensures r == self.p { unimplemented!() } }
pub struct File { pub p: Path }
pub struct Metadata { pub n: u64 }
impl Metadata { #[verifier::external_body] pub fn len(&self) -> (r: u64) { unimplemented!() } }
impl File {
    #[verifier::external_body] pub fn open<P: VxAsPath>(p: P) -> (r: std::result::Result<File, IoError>) requires may_open(p.vx_path()) ensures match r { Ok(f) => f.p == p.vx_path(), Err(_) => fs_bytes(p.vx_path()) is None } { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self) -> (r: std::result::Result<Metadata, IoError>) ensures r is Err ==> fs_bytes(self.p) is None { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: std::result::Result<usize, IoError>) ensures match r { Ok(_) => fs_bytes(old(self).p) is Some && final(v)@ == old(v)@ + fs_bytes(old(self).p).unwrap(), Err(_) => fs_bytes(old(self).p) is None } { unimplemented!() }
}
pub struct BufReader { pub f: File }
impl BufReader {
    #[verifier::external_body] pub fn new(f: File) -> (r: BufReader) ensures r.f == f { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: std::result::Result<usize, IoError>) ensures match r { Ok(_) => fs_bytes(old(self).f.p) is Some && final(v)@ == old(v)@ + fs_bytes(old(self).f.p).unwrap(), Err(_) => fs_bytes(old(self).f.p) is None } { unimplemented!() }
}
/// sanitise_file_name::sanitise
pub uninterp spec fn sanitised(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn sanitise(s: &str) -> (r: String) ensures r@ == sanitised(s@) { unimplemented!() }
} // mod ext
} // verus!
