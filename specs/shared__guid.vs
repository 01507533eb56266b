#prelude
broadcast use {crate::ext::lemma_skip_skip}
/// a GUID on the wire: u32 LE, u16 LE, u16 LE, then 8 bytes as they are ([MS-DTYP] 2.3.4.2)
pub open spec fn guid_bytes(s: Seq<u8>) -> Seq<u8> {
    seq![s[3], s[2], s[1], s[0], s[5], s[4], s[7], s[6], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]]
}
pub open spec fn guid_of(s: Seq<u8>) -> Guid { Guid(crate::ext::uuid_of(guid_bytes(s))) }
pub broadcast proof fn lemma_guid_ext(b: [u8; 16], s: Seq<u8>)
    ensures s.len() >= 16 && b@[0] == s[3] && b@[1] == s[2] && b@[2] == s[1] && b@[3] == s[0] && b@[4] == s[5] && b@[5] == s[4] && b@[6] == s[7] && b@[7] == s[6]
        && b@[8] == s[8] && b@[9] == s[9] && b@[10] == s[10] && b@[11] == s[11] && b@[12] == s[12] && b@[13] == s[13] && b@[14] == s[14] && b@[15] == s[15]
        ==> #[trigger] crate::ext::uuid_of(b@) == crate::ext::uuid_of(#[trigger] guid_bytes(s))
{
    if s.len() >= 16 && b@[0] == s[3] && b@[1] == s[2] && b@[2] == s[1] && b@[3] == s[0] && b@[4] == s[5] && b@[5] == s[4] && b@[6] == s[7] && b@[7] == s[6]
        && b@[8] == s[8] && b@[9] == s[9] && b@[10] == s[10] && b@[11] == s[11] && b@[12] == s[12] && b@[13] == s[13] && b@[14] == s[14] && b@[15] == s[15] {
        assert(b@ =~= guid_bytes(s));
    }
}
pub open spec fn sp_guid(s: Seq<u8>) -> Option<(Guid, Seq<u8>)> { if s.len() < 16 { None } else { Some((guid_of(s), s.skip(16))) } }
pub proof fn lemma_le128(s: Seq<u8>)
    requires s.len() >= 16
    ensures ({ let v = crate::ext::le128(s);
        (v as u8 == s[0]) && ((v >> 8) as u8 == s[1]) && ((v >> 16) as u8 == s[2]) && ((v >> 24) as u8 == s[3])
        && ((v >> 32) as u8 == s[4]) && ((v >> 40) as u8 == s[5]) && ((v >> 48) as u8 == s[6]) && ((v >> 56) as u8 == s[7])
        && ((v >> 64) as u8 == s[8]) && ((v >> 72) as u8 == s[9]) && ((v >> 80) as u8 == s[10]) && ((v >> 88) as u8 == s[11])
        && ((v >> 96) as u8 == s[12]) && ((v >> 104) as u8 == s[13]) && ((v >> 112) as u8 == s[14]) && ((v >> 120) as u8 == s[15]) })
{
    let t = s.skip(8);
    assert(t[0] == s[8] && t[1] == s[9] && t[2] == s[10] && t[3] == s[11] && t[4] == s[12] && t[5] == s[13] && t[6] == s[14] && t[7] == s[15]);
    lemma_bits(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]);
}
pub proof fn lemma_bits(b0: u8, b1: u8, b2: u8, b3: u8, b4: u8, b5: u8, b6: u8, b7: u8, b8: u8, b9: u8, b10: u8, b11: u8, b12: u8, b13: u8, b14: u8, b15: u8)
    ensures ({
        let lo = (b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56);
        let hi = (b8 as u64) | ((b9 as u64) << 8) | ((b10 as u64) << 16) | ((b11 as u64) << 24) | ((b12 as u64) << 32) | ((b13 as u64) << 40) | ((b14 as u64) << 48) | ((b15 as u64) << 56);
        let v = (lo as u128) | ((hi as u128) << 64);
        (v as u8 == b0) && ((v >> 8) as u8 == b1) && ((v >> 16) as u8 == b2) && ((v >> 24) as u8 == b3)
        && ((v >> 32) as u8 == b4) && ((v >> 40) as u8 == b5) && ((v >> 48) as u8 == b6) && ((v >> 56) as u8 == b7)
        && ((v >> 64) as u8 == b8) && ((v >> 72) as u8 == b9) && ((v >> 80) as u8 == b10) && ((v >> 88) as u8 == b11)
        && ((v >> 96) as u8 == b12) && ((v >> 104) as u8 == b13) && ((v >> 112) as u8 == b14) && ((v >> 120) as u8 == b15) })
{
    assert({
        let lo = (b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56);
        let hi = (b8 as u64) | ((b9 as u64) << 8) | ((b10 as u64) << 16) | ((b11 as u64) << 24) | ((b12 as u64) << 32) | ((b13 as u64) << 40) | ((b14 as u64) << 48) | ((b15 as u64) << 56);
        let v = (lo as u128) | ((hi as u128) << 64);
        (v as u8 == b0) && ((v >> 8) as u8 == b1) && ((v >> 16) as u8 == b2) && ((v >> 24) as u8 == b3)
        && ((v >> 32) as u8 == b4) && ((v >> 40) as u8 == b5) && ((v >> 48) as u8 == b6) && ((v >> 56) as u8 == b7)
        && ((v >> 64) as u8 == b8) && ((v >> 72) as u8 == b9) && ((v >> 80) as u8 == b10) && ((v >> 88) as u8 == b11)
        && ((v >> 96) as u8 == b12) && ((v >> 104) as u8 == b13) && ((v >> 112) as u8 == b14) && ((v >> 120) as u8 == b15) }) by (bit_vector);
}
#fn Guid::from_str
ensures match r { Ok(g) => crate::ext::uuid_parse(value@) == Some(g.0), Err(_) => crate::ext::uuid_parse(value@) is None }
#fn Guid::parse
ensures match r { Ok(g) => sp_guid(old(reader).rem()) == Some((g, final(reader).rem())), Err(_) => sp_guid(old(reader).rem()) is None }
#entry
    broadcast use lemma_guid_ext;
    proof { if reader.rem().len() >= 16 { lemma_le128(reader.rem()); } }
#fn Guid::nil
ensures r == Guid(crate::ext::uuid_lit(0))
#fn Guid::is_nil
ensures r == (*self == Guid(crate::ext::uuid_lit(0)))
