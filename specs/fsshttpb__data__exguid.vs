#prelude
/// the derived order of ExGuid: by GUID, then by number
pub axiom fn vx_le_antisym(a: ExGuid, b: ExGuid) ensures crate::ext::vx_le(a, b) && crate::ext::vx_le(b, a) ==> a == b;
broadcast use {crate::ext::lemma_skip_skip}
pub open spec fn nil_exguid() -> ExGuid { ExGuid { guid: Guid(crate::ext::uuid_lit(0)), value: 0 } }
/// a GUID at `s`, paired with `value`
pub open spec fn sp_with(value: u32, s: Seq<u8>) -> Option<(ExGuid, Seq<u8>)> {
    match crate::shared::guid::sp_guid(s) { Some((guid, rest)) => Some((ExGuid { guid, value }, rest)), None => None }
}
/// [MS-FSSHTTPB] 2.2.1.7
pub closed spec fn sp_exguid(s: Seq<u8>) -> Option<(ExGuid, Seq<u8>)> {
    if s.len() < 1 { None }
    else if s[0] == 0 { Some((nil_exguid(), s.skip(1))) }
    else if s[0] & 0b111 == 4 { sp_with((s[0] >> 3) as u32, s.skip(1)) }
    else if s[0] & 0b111111 == 32 { if s.len() < 2 { None } else { sp_with((((s[1] as u16) << 2) | ((s[0] >> 6) as u16)) as u32, s.skip(2)) } }
    else if s[0] & 0b1111111 == 64 { if s.len() < 3 { None } else { sp_with(((crate::ext::le16(s.skip(1)) as u32) << 1) | ((s[0] >> 7) as u32), s.skip(3)) } }
    else if s[0] == 128 { if s.len() < 5 { None } else { sp_with(crate::ext::le32(s.skip(1)), s.skip(5)) } }
    else { None }
}
/// `n` extended GUIDs one after the other
pub open spec fn sp_exguids(s: Seq<u8>, n: nat) -> Option<(Seq<ExGuid>, Seq<u8>)> decreases n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match sp_exguids(s, (n - 1) as nat) { None => None, Some((v, t)) => match sp_exguid(t) { None => None, Some((x, u)) => Some((v.push(x), u)) } } }
}
/// a count and that many
pub open spec fn sp_exguid_arr(s: Seq<u8>) -> Option<(Seq<ExGuid>, Seq<u8>)> {
    ? (n, t) <- crate::fsshttpb::data::compact_u64::sp_compact(s)
    sp_exguids(t, n as nat)
}
pub broadcast proof fn len_exguid(s: Seq<u8>) ensures match #[trigger] sp_exguid(s) { Some((_, t)) => t.len() < s.len(), None => true } {}
pub broadcast proof fn len_exguids(s: Seq<u8>, n: nat) ensures match #[trigger] sp_exguids(s, n) { Some((v, t)) => t.len() <= s.len() && v.len() == n, None => true } decreases n
{ if n > 0 { len_exguids(s, (n - 1) as nat); match sp_exguids(s, (n - 1) as nat) { Some((v, t)) => len_exguid(t), None => {} } } }
pub proof fn lemma_exguids_mono(s: Seq<u8>, m: nat, n: nat)
    requires m <= n, sp_exguids(s, m) is None
    ensures sp_exguids(s, n) is None
    decreases n
{ if m < n { lemma_exguids_mono(s, m, (n - 1) as nat); } }
#fn ExGuid::is_nil
ensures r == (*self == nil_exguid())
#fn ExGuid::as_option
ensures r == (if *self == nil_exguid() { None } else { Some(*self) })
#fn ExGuid::from_guid
ensures r == (ExGuid { guid, value })
#fn ExGuid::parse
ensures match r { Ok(v) => sp_exguid(old(reader).rem()) == Some((v, final(reader).rem())), Err(_) => sp_exguid(old(reader).rem()) is None }
#fn ExGuid::parse_array
@reads sp_exguid_arr v@
#entry
    let ghost __s0 = reader.rem();
#loop 0
    invariant crate::fsshttpb::data::compact_u64::sp_compact(__s0) is Some, count == crate::fsshttpb::data::compact_u64::sp_compact(__s0).unwrap().0,
        sp_exguids(crate::fsshttpb::data::compact_u64::sp_compact(__s0).unwrap().1, __k0 as nat) == Some((values@, reader.rem())),
#start 0
    proof { if sp_exguid(reader.rem()) is None { lemma_exguids_mono(crate::fsshttpb::data::compact_u64::sp_compact(__s0).unwrap().1, (__k0 + 1) as nat, count as nat); } }
