#prelude
broadcast use {crate::ext::lemma_skip_skip}
use crate::fsshttpb::data::compact_u64::sp_compact;
/// the 16-bit start header ([MS-FSSHTTPB] 2.2.1.5.1): type 0b00, compound bit, 6 bits of object type, 7 of length
pub closed spec fn sp_h16(s: Seq<u8>) -> Option<(ObjectHeader, Seq<u8>)> {
    if s.len() < 2 { None } else {
        let d = crate::ext::le16(s);
        if d & 0b11 != 0 { None } else {
            match ObjectType::vx_of(((d >> 3) & 0x3f) as int) { None => None, Some(object_type) => Some((ObjectHeader { compound: d & 4 == 4, object_type, length: (d >> 9) as u64 }, s.skip(2))) } } }
}
/// the 32-bit start header (2.2.1.5.2): type 0b10, compound bit, 14 bits of type, 15 of length; the length 0x7fff
/// means that a compact integer with the length follows
pub closed spec fn sp_h32(s: Seq<u8>) -> Option<(ObjectHeader, Seq<u8>)> {
    if s.len() < 4 { None } else {
        let d = crate::ext::le32(s);
        if d & 0b11 != 2 { None } else {
            match ObjectType::vx_of(((d >> 3) & 0x3fff) as int) { None => None, Some(object_type) =>
                if d >> 17 == 0x7fff {
                    match sp_compact(s.skip(4)) { None => None, Some((length, t)) => Some((ObjectHeader { compound: d & 4 == 4, object_type, length }, t)) }
                } else { Some((ObjectHeader { compound: d & 4 == 4, object_type, length: (d >> 17) as u64 }, s.skip(4))) } } } }
}
/// either of the two, told apart by the two low bits
pub closed spec fn sp_h(s: Seq<u8>) -> Option<(ObjectHeader, Seq<u8>)> {
    if s.len() < 1 { None } else if s[0] & 0b11 == 0 { sp_h16(s) } else if s[0] & 0b11 == 2 { sp_h32(s) } else { None }
}
pub closed spec fn sp_e8(s: Seq<u8>) -> Option<(ObjectType, Seq<u8>)> {
    if s.len() < 1 || s[0] & 0b11 != 1 { None } else { match ObjectType::vx_of((s[0] >> 2) as int) { None => None, Some(t) => Some((t, s.skip(1))) } }
}
pub closed spec fn sp_e16(s: Seq<u8>) -> Option<(ObjectType, Seq<u8>)> {
    if s.len() < 2 || crate::ext::le16(s) & 0b11 != 3 { None } else { match ObjectType::vx_of((crate::ext::le16(s) >> 2) as int) { None => None, Some(t) => Some((t, s.skip(2))) } }
}
/// does `s` start with the 8-bit end header of `t`?
pub open spec fn at_end8(s: Seq<u8>, t: ObjectType) -> bool { sp_e8(s) is Some && sp_e8(s).unwrap().0 == t }
/// does `s` start with the 16-bit end header of `t`?
pub open spec fn at_end16(s: Seq<u8>, t: ObjectType) -> bool { sp_e16(s) is Some && sp_e16(s).unwrap().0 == t }
pub broadcast proof fn len_h16(s: Seq<u8>) ensures match #[trigger] sp_h16(s) { Some((_, t)) => t.len() < s.len(), None => true } {}
pub broadcast proof fn len_h32(s: Seq<u8>) ensures match #[trigger] sp_h32(s) { Some((_, t)) => t.len() + 4 <= s.len(), None => true } { broadcast use crate::fsshttpb::data::compact_u64::len_compact; }
pub broadcast proof fn len_h(s: Seq<u8>) ensures match #[trigger] sp_h(s) { Some((_, t)) => t.len() < s.len(), None => true } { broadcast use {len_h16, len_h32}; }
pub broadcast proof fn len_e8(s: Seq<u8>) ensures match #[trigger] sp_e8(s) { Some((_, t)) => t.len() < s.len(), None => true } {}
pub broadcast proof fn len_e16(s: Seq<u8>) ensures match #[trigger] sp_e16(s) { Some((_, t)) => t.len() + 2 <= s.len(), None => true } {}
/// the rest of `s` after a start header (as decoded by `p`) of the wanted type
pub open spec fn start_of(p: Option<(ObjectHeader, Seq<u8>)>, t: ObjectType) -> Option<Seq<u8>> {
    match p { Some((h, rest)) => if h.object_type == t { Some(rest) } else { None }, None => None }
}
pub open spec fn end_of(p: Option<(ObjectType, Seq<u8>)>, t: ObjectType) -> Option<Seq<u8>> {
    match p { Some((h, rest)) => if h == t { Some(rest) } else { None }, None => None }
}
/// `r` reports exactly what `want` says
pub open spec fn unit_is(r: Result<()>, want: Option<Seq<u8>>, rest: Seq<u8>) -> bool {
    match r { Ok(_) => want == Some(rest), Err(_) => want is None }
}
#fn ObjectHeader::parse
ensures match r { Ok(v) => sp_h(old(reader).rem()) == Some((v, final(reader).rem())), Err(_) => sp_h(old(reader).rem()) is None }
#fn ObjectHeader::parse_16
ensures match r { Ok(v) => sp_h16(old(reader).rem()) == Some((v, final(reader).rem())), Err(_) => sp_h16(old(reader).rem()) is None }
#fn ObjectHeader::parse_32
ensures match r { Ok(v) => sp_h32(old(reader).rem()) == Some((v, final(reader).rem())), Err(_) => sp_h32(old(reader).rem()) is None }
#fn ObjectHeader::parse_end_16
ensures match r { Ok(v) => sp_e16(old(reader).rem()) == Some((v, final(reader).rem())), Err(_) => sp_e16(old(reader).rem()) is None }
#fn ObjectHeader::parse_end_8
ensures match r { Ok(v) => sp_e8(old(reader).rem()) == Some((v, final(reader).rem())), Err(_) => sp_e8(old(reader).rem()) is None }
#fn ObjectHeader::try_parse
ensures unit_is(r, start_of(sp_h(old(reader).rem()), object_type), final(reader).rem())
#fn ObjectHeader::try_parse_16
ensures unit_is(r, start_of(sp_h16(old(reader).rem()), object_type), final(reader).rem())
#fn ObjectHeader::try_parse_32
ensures unit_is(r, start_of(sp_h32(old(reader).rem()), object_type), final(reader).rem())
#fn ObjectHeader::try_parse_end_16
ensures unit_is(r, end_of(sp_e16(old(reader).rem()), object_type), final(reader).rem())
#fn ObjectHeader::try_parse_end_8
ensures unit_is(r, end_of(sp_e8(old(reader).rem()), object_type), final(reader).rem())
#fn ObjectHeader::has_end_8
ensures match r {
    Ok(v) => final(reader).rem() == old(reader).rem() && old(reader).rem().len() >= 1 && v == at_end8(old(reader).rem(), object_type),
    Err(_) => old(reader).rem().len() == 0 }
#fn ObjectHeader::has_end_16
ensures match r {
    Ok(v) => final(reader).rem() == old(reader).rem() && old(reader).rem().len() >= 2 && v == at_end16(old(reader).rem(), object_type),
    Err(_) => old(reader).rem().len() < 2 }
#fn ObjectHeader::try_parse_start__parse
ensures unit_is(r, start_of(sp_h(old(reader).rem()), object_type), final(reader).rem())
#fn ObjectHeader::try_parse_start__parse_16
ensures unit_is(r, start_of(sp_h16(old(reader).rem()), object_type), final(reader).rem())
#fn ObjectHeader::try_parse_start__parse_32
ensures unit_is(r, start_of(sp_h32(old(reader).rem()), object_type), final(reader).rem())
#fn ObjectHeader::try_parse_end__parse_end_16
ensures unit_is(r, end_of(sp_e16(old(reader).rem()), object_type), final(reader).rem())
#fn ObjectHeader::try_parse_end__parse_end_8
ensures unit_is(r, end_of(sp_e8(old(reader).rem()), object_type), final(reader).rem())
