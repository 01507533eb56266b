#prelude
/// [MS-ONESTORE] 2.6.5: 24 bits count, 6 reserved, extended streams present, OSID stream not present
pub open spec fn sp_osh(s: Seq<u8>) -> Option<(ObjectStreamHeader, Seq<u8>)> {
    if s.len() < 4 { None } else {
        let d = crate::ext::le32(s);
        Some((ObjectStreamHeader { count: d & 0xffffff, extended_streams_present: (d >> 30) & 1 == 1, osid_stream_not_present: (d >> 31) & 1 == 1 }, s.skip(4))) }
}
#fn ObjectStreamHeader::parse
@reads sp_osh
#entry
    assert(forall|d: u32| #[trigger] (d >> 31) & 1 == 1 <==> (d >> 31) != 0) by (bit_vector);
    assert(forall|d: u32| (#[trigger] (d >> 30) & 1 == 1) <==> (d >> 30) & 1 != 0) by (bit_vector);
