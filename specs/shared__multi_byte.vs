#prelude
broadcast use {crate::ext::lemma_skip_skip}
/// [MS-ISF] multi-byte numbers: 7 bits per byte, least significant group first, the top bit says "more follows".
/// `cont(s, n)`: the first n bytes all have the top bit
pub open spec fn cont(s: Seq<u8>, n: nat) -> bool { n <= s.len() && forall|i: int| 0 <= i < n ==> #[trigger] s[i] & 0x80 == 0x80 }
/// the value of the first n groups
pub open spec fn mbv(s: Seq<u8>, n: nat) -> u64 decreases n {
    if n == 0 { 0 } else { mbv(s, (n - 1) as nat) | (((s[n - 1] as u64) & 0x7F) << ((7 * (n - 1)) as u64)) }
}
/// number of bytes the number at the front of `s` takes, if it is complete, within 10 bytes, and fits 64 bits
pub open spec fn mb_len(s: Seq<u8>) -> Option<nat> { mb_len_from(s, 0) }
pub open spec fn mb_len_from(s: Seq<u8>, k: nat) -> Option<nat> decreases 10 - k {
    if k >= 10 || k >= s.len() { None }
    else if s[k as int] & 0x80 == 0x80 { mb_len_from(s, k + 1) }
    else if k == 9 && s[9] > 1 { None } else { Some(k + 1) }
}
/// `n` numbers starting at `off`
pub open spec fn mb_list(s: Seq<u8>, off: nat, n: nat) -> Option<(Seq<u64>, nat)> decreases n {
    if n == 0 { Some((Seq::empty(), off)) } else {
        match mb_list(s, off, (n - 1) as nat) {
            None => None,
            Some((v, o)) => if o >= s.len() { None } else { match mb_len(s.skip(o as int)) { None => None, Some(w) => Some((v.push(mbv(s.skip(o as int), w)), o + w)) } }
        }
    }
}
/// the first m of them are fine, then the data ends
pub open spec fn mb_short(s: Seq<u8>, off: nat, m: nat) -> bool { match mb_list(s, off, m) { Some((_, o)) => o >= s.len(), None => false } }
pub open spec fn mb_all(s: Seq<u8>) -> Option<Seq<u64>> {
    match mb_len(s) { None => None, Some(w) => match mb_list(s, w, (mbv(s, w) >> 1) as nat) { None => None, Some((v, _)) => Some(v) } }
}
/// the sign is the lowest bit
pub open spec fn mb_sign(v: u64) -> i64 { if v & 1 == 1 { (-((v >> 1) as int)) as i64 } else { (v >> 1) as i64 } }
pub proof fn lemma_mb_list_mono(s: Seq<u8>, off: nat, m: nat, n: nat)
    requires m <= n, mb_list(s, off, n) is Some
    ensures mb_list(s, off, m) is Some
    decreases n
{ if m < n { lemma_mb_list_mono(s, off, m, (n - 1) as nat); } }
pub proof fn lemma_mb_len(s: Seq<u8>, k: nat)
    requires cont(s, k), k <= 10
    ensures mb_len(s) == mb_len_from(s, k)
    decreases k
{ if k > 0 { assert(s[k - 1] & 0x80 == 0x80); assert(cont(s, (k - 1) as nat)); lemma_mb_len(s, (k - 1) as nat); } }

#fn decode_uint
ensures
    match mb_len(data@) { Some(w) => match r { Ok((v, n)) => v == mbv(data@, w) && n == w, Err(_) => false }, None => true },
    data@.len() == 0 ==> r is Err,
    data@.len() > 10 && cont(data@, 10) ==> r is Err,
    match r { Ok((_, n)) => 1 <= n <= data@.len() && n <= 10, Err(_) => true },
#attr
#loop 0
    invariant_except_break cont(data@, __k0 as nat), count == __k0, __k0 <= 10, value == mbv(data@, __k0 as nat)
    invariant __k0 <= __src0.len()
    ensures 0 <= count <= 10, count <= data@.len(),
        data@.len() > 0 ==> count > 0,
        (count == data@.len() && cont(data@, count as nat)) || (1 <= count && cont(data@, (count - 1) as nat) && data@[count - 1] & 0x80 != 0x80),
        value == mbv(data@, count as nat),
#start 0
    proof { lemma_mb_len(data@, __k0 as nat); }
#after 0
    proof {
        if count >= 1 { lemma_mb_len(data@, if cont(data@, count as nat) { count as nat } else { (count - 1) as nat }); }
        if data@.len() > 10 && cont(data@, 10) { assert(data@[count - 1] & 0x80 == 0x80); }
    }

#fn decode
ensures
    mb_all(input@) is Some ==> r is Ok && r->Ok_0@ == mb_all(input@).unwrap(),
    mb_len(input@) is Some ==> (forall|m: nat| m < mbv(input@, mb_len(input@).unwrap()) >> 1 && #[trigger] mb_short(input@, mb_len(input@).unwrap(), m) ==> r is Err),
#loop 0
    invariant index <= input@.len(),
        mb_len(input@) is Some ==> length == mbv(input@, mb_len(input@).unwrap()) >> 1,
        mb_len(input@) is Some && mb_list(input@, mb_len(input@).unwrap(), __k0 as nat) is Some ==> mb_list(input@, mb_len(input@).unwrap(), __k0 as nat) == Some((output@, index as nat)),
        mb_len(input@) is Some ==> (forall|m: nat| m < __k0 ==> !(#[trigger] mb_short(input@, mb_len(input@).unwrap(), m))),
#start 0
    proof { if mb_all(input@) is Some { lemma_mb_list_mono(input@, mb_len(input@).unwrap(), __k0 as nat, length as nat); lemma_mb_list_mono(input@, mb_len(input@).unwrap(), (__k0 + 1) as nat, length as nat); } }

#fn decode_signed
ensures mb_all(input@) is Some ==> r is Ok && r->Ok_0@ == mb_all(input@).unwrap().map_values(|v: u64| mb_sign(v)),
#loop 0
    invariant __out0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __out0@[i] == mb_sign(__src0@[i]),
#start 0
    assert(forall|v: u64| #[trigger] (v >> 1) <= 0x7fff_ffff_ffff_ffffu64) by (bit_vector);
#after 0
    proof { if mb_all(input@) is Some { assert(__out0@ =~= mb_all(input@).unwrap().map_values(|v: u64| mb_sign(v))); } }
