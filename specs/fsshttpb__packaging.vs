#lean
#prelude
use crate::fsshttpb::data::compact_u64::*; use crate::fsshttpb::data::exguid::*; use crate::fsshttpb::data::cell_id::*; use crate::fsshttpb::data::serial_number::*; use crate::fsshttpb::data::stream_object::*; use crate::fsshttpb::data::binary_item::*; use crate::shared::guid::*;
broadcast use {crate::fsshttpb::data::compact_u64::len_compact, crate::fsshttpb::data::exguid::len_exguid, crate::fsshttpb::data::exguid::len_exguids, crate::fsshttpb::data::cell_id::len_cell, crate::fsshttpb::data::cell_id::len_cells, crate::fsshttpb::data::serial_number::len_serial, crate::fsshttpb::data::binary_item::len_binary, crate::fsshttpb::data::stream_object::len_h16, crate::fsshttpb::data::stream_object::len_h32, crate::fsshttpb::data::stream_object::len_h, crate::fsshttpb::data::stream_object::len_e8, crate::fsshttpb::data::stream_object::len_e16};
use crate::fsshttpb::data_element::*; use crate::ext::adv;
broadcast use {crate::ext::adv_len}
/// the decoded content of a file's packaging structure
pub struct PackV { pub file_type: Guid, pub file: Guid, pub legacy_file_version: Guid, pub file_format: Guid, pub storage_index: ExGuid, pub cell_schema: Guid, pub package: PkgV }
impl OneStorePackaging {
    pub open spec fn v(&self) -> PackV { PackV { file_type: self.file_type, file: self.file, legacy_file_version: self.legacy_file_version, file_format: self.file_format, storage_index: self.storage_index, cell_schema: self.cell_schema, package: self.data_element_package.v() } }
}
/// [MS-ONESTORE] 2.8.1 after the four GUIDs
pub open spec fn sp_legacy(s: Seq<u8>, file_type: Guid, file: Guid, legacy_file_version: Guid, file_format: Guid) -> Option<(PackV, Seq<u8>)> {
    if s.len() < 4 || crate::ext::le32(s) != 0 { None } else {
    match start_of(sp_h32(s.skip(4)), ObjectType::OneNotePackaging) { None => None, Some(a) =>
    match sp_exguid(a) { None => None, Some((storage_index, b)) =>
    match sp_guid(b) { None => None, Some((cell_schema, c)) =>
    match sp_package(c) { None => None, Some((package, d)) =>
    match end_of(sp_e16(d), ObjectType::OneNotePackaging) { None => None, Some(e) =>
    Some((PackV { file_type, file, legacy_file_version, file_format, storage_index, cell_schema, package }, e)) } } } } } }
}
pub open spec fn fmt_revision_store() -> Guid { Guid(crate::ext::uuid_lit(0x109ADD3F_911B_49F5_A5D0_1791EDC8AED8)) }
pub open spec fn fmt_package_store() -> Guid { Guid(crate::ext::uuid_lit(0x638DE92F_A6D4_4BC1_9A36_B3FC2511A5B7)) }
pub open spec fn version_ok(v: u32) -> bool { v == 0x2A || v == 0x1B }
/// the bytes of the [MS-ONESTORE] 2.3.1 header (what follows its four GUIDs) are read field by field: four writer and reader versions, then fields
/// that are not used, and last, at offset 96, the position and size of the transaction log
pub proof fn lemma_hdr(s: Seq<u8>)
    requires s.len() >= 108
    ensures adv(s, 4) == s.skip(4), adv(adv(s, 4), 4) == s.skip(8), adv(adv(adv(s, 4), 4), 4) == s.skip(12), adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(s, 4), 4), 4), 4), 8), 8), 4), 4), 8), 8), 4), 1), 1), 1), 1).skip(16), 4), 12) == s.skip(96), adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(s, 4), 4), 4), 4), 8), 8), 4), 4), 8), 8), 4), 1), 1), 1), 1).skip(16), 4), 12), 8) == s.skip(104), adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(adv(s, 4), 4), 4), 4), 8), 8), 4), 4), 8), 8), 4), 1), 1), 1), 1).skip(16), 4), 12), 12) == s.skip(108)
{
    broadcast use crate::ext::adv_is_skip;
}
/// where the package begins: the end of the transaction log, counted from the start of the file, which is `start - unread` bytes before the unread part
pub open spec fn sp_embedded(s: Seq<u8>, start: int) -> Option<(PackV, Seq<u8>)> {
    if s.len() < 108 { None }
    else if !version_ok(crate::ext::le32(s)) || !version_ok(crate::ext::le32(s.skip(4))) || !version_ok(crate::ext::le32(s.skip(8))) || !version_ok(crate::ext::le32(s.skip(12))) { None }
    else { sp_at(s.skip(108), crate::ext::le64(s.skip(96)) + crate::ext::le32(s.skip(104)), start) }
}
pub open spec fn sp_at(s: Seq<u8>, end: int, start: int) -> Option<(PackV, Seq<u8>)> {
    if end > u64::MAX || end - (start - s.len()) < 0 || end - (start - s.len()) > s.len() { None } else { sp_headed(adv(s, end - (start - s.len()))) }
}
/// four GUIDs and the legacy packaging
pub open spec fn sp_headed(s: Seq<u8>) -> Option<(PackV, Seq<u8>)> {
    ? (file_type, a) <- sp_guid(s)
    ? (file, b) <- sp_guid(a)
    ? (version, c) <- sp_guid(b)
    ? (format, d) <- sp_guid(c)
    sp_legacy(d, file_type, file, version, format)
}
pub open spec fn sp_packaging(s: Seq<u8>) -> Option<(PackV, Seq<u8>)> {
    ? (file_type, a) <- sp_guid(s)
    ? (file, b) <- sp_guid(a)
    ? (version, c) <- sp_guid(b)
    ? (format, d) <- sp_guid(c)
    if format == fmt_package_store() || (format == fmt_revision_store() && version.0 != crate::ext::uuid_lit(0)) { sp_legacy(d, file_type, file, version, format) }
    else if format != fmt_revision_store() { None } else { sp_embedded(d, s.len() as int) }
}
pub open spec fn own_indexes(p: DataElementPackage) -> bool { forall|id: ExGuid| #[trigger] p.storage_indexes@.contains_key(id) ==> crate::fsshttpb::data_element::storage_index::own_keys(p.storage_indexes@[id].cell_mappings@) }
pub proof fn lemma_own_legacy(s: Seq<u8>, t: Guid, f: Guid, l: Guid, m: Guid, k: OneStorePackaging) requires sp_legacy(s, t, f, l, m) is Some, sp_legacy(s, t, f, l, m).unwrap().0 == k.v() ensures own_indexes(k.data_element_package)
{
    let a = start_of(sp_h32(s.skip(4)), ObjectType::OneNotePackaging).unwrap();
    let (i, b) = sp_exguid(a).unwrap(); let (c, d) = sp_guid(b).unwrap(); let (p, e) = sp_package(d).unwrap();
    lemma_own_real(k.data_element_package, d, e);
}
/// in an accepted file every cell mapping is kept under the cell it names
pub proof fn lemma_own_packaging(s: Seq<u8>, k: OneStorePackaging) requires sp_packaging(s) is Some, sp_packaging(s).unwrap().0 == k.v() ensures own_indexes(k.data_element_package)
{
    let (file_type, a) = sp_guid(s).unwrap(); let (file, b) = sp_guid(a).unwrap(); let (version, c) = sp_guid(b).unwrap(); let (format, d) = sp_guid(c).unwrap();
    if format == fmt_package_store() || (format == fmt_revision_store() && version.0 != crate::ext::uuid_lit(0)) { lemma_own_legacy(d, file_type, file, version, format, k); }
    else {
        let z = d.skip(108); let end = crate::ext::le64(d.skip(96)) + crate::ext::le32(d.skip(104));
        let y = adv(z, end - (s.len() - z.len()));
        let (t, a) = sp_guid(y).unwrap(); let (f, b) = sp_guid(a).unwrap(); let (v, c) = sp_guid(b).unwrap(); let (m, e) = sp_guid(c).unwrap();
        lemma_own_legacy(e, t, f, v, m, k);
    }
}
/// the bytes of a file are those of a package
pub open spec fn packed(k: OneStorePackaging, b: Seq<u8>) -> bool { sp_packaging(b) matches Some((x, _)) && k.v() == x }
pub broadcast proof fn own_packed(k: OneStorePackaging, b: Seq<u8>) requires (#[trigger] sp_packaging(b)) is Some, sp_packaging(b).unwrap().0 == #[trigger] k.v() ensures packed(k, b), own_indexes(k.data_element_package) { lemma_own_packaging(b, k); }
#fn OneStorePackaging::parse
@reads sp_packaging v.v()
#fn OneStorePackaging::parse_packaging
requires start >= old(reader).rem().len()
ensures match r { Ok(v) => sp_embedded(old(reader).rem(), start as int) == Some((v.v(), final(reader).rem())), Err(_) => sp_embedded(old(reader).rem(), start as int) is None }
#entry
    hide(crate::ext::le64); hide(crate::ext::le32); hide(sp_legacy);
    proof { if reader.rem().len() >= 108 { lemma_hdr(reader.rem()); } }
#fn OneStorePackaging::parse_legacy
ensures match r { Ok(v) => sp_legacy(old(reader).rem(), file_type, file, legacy_file_version, file_format) == Some((v.v(), final(reader).rem())), Err(_) => sp_legacy(old(reader).rem(), file_type, file, legacy_file_version, file_format) is None }
#entry
    broadcast use crate::ext::adv_is_skip;
#fn OneStorePackaging::parse_fcr64x32
ensures match r { Ok(v) => old(reader).rem().len() >= 12 && v.stp == crate::ext::le64(old(reader).rem()) && v.cb == crate::ext::le32(adv(old(reader).rem(), 8)) && final(reader).rem() == adv(old(reader).rem(), 12), Err(_) => old(reader).rem().len() < 12 }
#entry
    proof { broadcast use crate::ext::adv_is_skip; }
#fn FileChunkReference64x32::end
ensures match r { Ok(v) => v == self.stp + self.cb, Err(_) => self.stp + self.cb > u64::MAX }
