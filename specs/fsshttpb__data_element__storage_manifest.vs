#prelude
use crate::fsshttpb::data::compact_u64::*; use crate::fsshttpb::data::exguid::*; use crate::fsshttpb::data::cell_id::*; use crate::fsshttpb::data::serial_number::*; use crate::fsshttpb::data::stream_object::*; use crate::fsshttpb::data::binary_item::*; use crate::shared::guid::*;
broadcast use {crate::fsshttpb::data::compact_u64::len_compact, crate::fsshttpb::data::exguid::len_exguid, crate::fsshttpb::data::exguid::len_exguids, crate::fsshttpb::data::cell_id::len_cell, crate::fsshttpb::data::cell_id::len_cells, crate::fsshttpb::data::serial_number::len_serial, crate::fsshttpb::data::binary_item::len_binary, crate::fsshttpb::data::stream_object::len_h16, crate::fsshttpb::data::stream_object::len_h32, crate::fsshttpb::data::stream_object::len_h, crate::fsshttpb::data::stream_object::len_e8, crate::fsshttpb::data::stream_object::len_e16};
pub struct SmV { pub id: Guid, pub roots: Map<ExGuid, CellId> }
impl StorageManifest { pub open spec fn v(&self) -> SmV { SmV { id: self.id, roots: self.roots@ } } }
pub open spec fn sp_sm_roots(s: Seq<u8>, m: SmV) -> Option<(SmV, Seq<u8>)> decreases s.len() {
    if at_end8(s, ObjectType::DataElement) { Some((m, sp_e8(s).unwrap().1)) } else {
        match sp_h16(s) { None => None, Some((h, a)) => if h.object_type != ObjectType::StorageManifestRoot { None } else {
            match sp_exguid(a) { None => None, Some((root, b)) => match sp_cell(b) { None => None, Some((cell, c)) => sp_sm_roots(c, SmV { roots: m.roots.insert(root, cell), ..m }) } } } } }
}
/// [MS-FSSHTTPB] 2.2.1.12.3
pub open spec fn sp_storage_manifest(s: Seq<u8>) -> Option<(SmV, Seq<u8>)> {
    ? a <- start_of(sp_h16(s), ObjectType::StorageManifest)
    ? (id, b) <- sp_guid(a)
    sp_sm_roots(b, SmV { id, roots: Map::empty() })
}
pub proof fn len_sm_roots(s: Seq<u8>, m: SmV) ensures match sp_sm_roots(s, m) { Some((_, t)) => t.len() < s.len(), None => true } decreases s.len()
{
    if at_end8(s, ObjectType::DataElement) {} else if let Some((h, a)) = sp_h16(s) {
        if let Some((root, b)) = sp_exguid(a) { if let Some((cell, c)) = sp_cell(b) { len_sm_roots(c, SmV { roots: m.roots.insert(root, cell), ..m }); } } }
}
pub broadcast proof fn len_storage_manifest(s: Seq<u8>) ensures match #[trigger] sp_storage_manifest(s) { Some((_, t)) => t.len() < s.len(), None => true }
{ if let Some(a) = start_of(sp_h16(s), ObjectType::StorageManifest) { if let Some((id, b)) = sp_guid(a) { len_sm_roots(b, SmV { id, roots: Map::empty() }); } } }
#fn DataElement::parse_storage_manifest
@reads sp_storage_manifest v.v()
#entry
    let ghost __s0 = reader.rem();
#loop 0
    invariant sp_storage_manifest(__s0) == sp_sm_roots(reader.rem(), SmV { id, roots: roots@ }),
    ensures at_end8(reader.rem(), ObjectType::DataElement),
    decreases reader.rem().len(),
