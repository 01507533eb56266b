#prelude
broadcast use {crate::ext::lemma_skip_skip}
/// [MS-FSSHTTPB] 2.2.1.1: the lowest set bit (number w-1) of the first byte says how many bytes w the
/// integer takes; its value is those bytes, little-endian, without the w low bits.  A zero byte is
/// the value 0, and 0x80 announces 8 more bytes holding the whole value.
pub closed spec fn sp_compact(s: Seq<u8>) -> Option<(u64, Seq<u8>)> {
    if s.len() < 1 { None }
    else if s[0] == 0 { Some((0, s.skip(1))) }
    else if s[0] & 1 != 0 { Some(((s[0] >> 1) as u64, s.skip(1))) }
    else if s[0] & 2 != 0 { if s.len() < 2 { None } else { Some(((crate::ext::le16(s) >> 2) as u64, s.skip(2))) } }
    else if s[0] & 4 != 0 { if s.len() < 3 { None } else { Some(((crate::ext::le32(seq![s[0], s[1], s[2], 0u8]) >> 3) as u64, s.skip(3))) } }
    else if s[0] & 8 != 0 { if s.len() < 4 { None } else { Some(((crate::ext::le32(s) >> 4) as u64, s.skip(4))) } }
    else if s[0] & 16 != 0 { if s.len() < 5 { None } else { Some((crate::ext::le64(seq![s[0], s[1], s[2], s[3], s[4], 0u8, 0u8, 0u8]) >> 5, s.skip(5))) } }
    else if s[0] & 32 != 0 { if s.len() < 6 { None } else { Some((crate::ext::le64(seq![s[0], s[1], s[2], s[3], s[4], s[5], 0u8, 0u8]) >> 6, s.skip(6))) } }
    else if s[0] & 64 != 0 { if s.len() < 7 { None } else { Some((crate::ext::le64(seq![s[0], s[1], s[2], s[3], s[4], s[5], s[6], 0u8]) >> 7, s.skip(7))) } }
    else { if s.len() < 9 { None } else { Some((crate::ext::le64(s.skip(1)), s.skip(9))) } }
}
pub proof fn lemma_first(b: u8) ensures b == 0 || b & 1 != 0 || b & 2 != 0 || b & 4 != 0 || b & 8 != 0 || b & 16 != 0 || b & 32 != 0 || b & 64 != 0 || b & 128 != 0
{ assert(b == 0 || b & 1 != 0 || b & 2 != 0 || b & 4 != 0 || b & 8 != 0 || b & 16 != 0 || b & 32 != 0 || b & 64 != 0 || b & 128 != 0) by (bit_vector); }
pub broadcast proof fn len_compact(s: Seq<u8>) ensures match #[trigger] sp_compact(s) { Some((_, t)) => t.len() < s.len(), None => true } {}
#fn CompactU64::value
ensures r == self.0
#fn CompactU64::parse
@reads sp_compact v.0
#entry
    proof { if reader.rem().len() >= 1 { lemma_first(reader.rem()[0]); } }
