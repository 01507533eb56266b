#prelude
use crate::fsshttpb::data::compact_u64::*; use crate::fsshttpb::data::exguid::*; use crate::fsshttpb::data::cell_id::*; use crate::fsshttpb::data::serial_number::*; use crate::fsshttpb::data::stream_object::*; use crate::fsshttpb::data::binary_item::*; use crate::shared::guid::*;
broadcast use {crate::fsshttpb::data::compact_u64::len_compact, crate::fsshttpb::data::exguid::len_exguid, crate::fsshttpb::data::exguid::len_exguids, crate::fsshttpb::data::cell_id::len_cell, crate::fsshttpb::data::cell_id::len_cells, crate::fsshttpb::data::serial_number::len_serial, crate::fsshttpb::data::binary_item::len_binary, crate::fsshttpb::data::stream_object::len_h16, crate::fsshttpb::data::stream_object::len_h32, crate::fsshttpb::data::stream_object::len_h, crate::fsshttpb::data::stream_object::len_e8, crate::fsshttpb::data::stream_object::len_e16};
/// [MS-FSSHTTPB] 2.2.1.12.4: the id of the cell's current revision
pub open spec fn sp_cell_manifest(s: Seq<u8>) -> Option<(ExGuid, Seq<u8>)> {
    ? a <- start_of(sp_h16(s), ObjectType::CellManifest)
    ? (id, b) <- sp_exguid(a)
    ? c <- end_of(sp_e8(b), ObjectType::DataElement)
    Some((id, c))
}
pub broadcast proof fn len_cell_manifest(s: Seq<u8>) ensures match #[trigger] sp_cell_manifest(s) { Some((_, t)) => t.len() < s.len(), None => true } {}
#fn DataElement::parse_cell_manifest
@reads sp_cell_manifest
