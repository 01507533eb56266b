#prelude
broadcast use {crate::ext::lemma_skip_skip}
/// [MS-FSSHTTPB] 2.2.1.9: a zero byte is the null serial number; otherwise a GUID and 8 bytes follow
pub closed spec fn sp_serial(s: Seq<u8>) -> Option<(SerialNumber, Seq<u8>)> {
    if s.len() < 1 { None }
    else if s[0] == 0 { Some((SerialNumber { guid: Guid(crate::ext::uuid_lit(0)), serial: 0 }, s.skip(1))) }
    else if s.len() < 25 { None }
    else { Some((SerialNumber { guid: crate::shared::guid::guid_of(s.skip(1)), serial: crate::ext::le64(s.skip(17)) }, s.skip(25))) }
}
pub broadcast proof fn len_serial(s: Seq<u8>) ensures match #[trigger] sp_serial(s) { Some((_, t)) => t.len() < s.len(), None => true } {}
#fn SerialNumber::parse
ensures match r { Ok(v) => sp_serial(old(reader).rem()) == Some((v, final(reader).rem())), Err(_) => sp_serial(old(reader).rem()) is None }
