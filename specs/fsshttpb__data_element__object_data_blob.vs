#prelude
use crate::fsshttpb::data::compact_u64::*; use crate::fsshttpb::data::exguid::*; use crate::fsshttpb::data::cell_id::*; use crate::fsshttpb::data::serial_number::*; use crate::fsshttpb::data::stream_object::*; use crate::fsshttpb::data::binary_item::*; use crate::shared::guid::*;
broadcast use {crate::fsshttpb::data::compact_u64::len_compact, crate::fsshttpb::data::exguid::len_exguid, crate::fsshttpb::data::exguid::len_exguids, crate::fsshttpb::data::cell_id::len_cell, crate::fsshttpb::data::cell_id::len_cells, crate::fsshttpb::data::serial_number::len_serial, crate::fsshttpb::data::binary_item::len_binary, crate::fsshttpb::data::stream_object::len_h16, crate::fsshttpb::data::stream_object::len_h32, crate::fsshttpb::data::stream_object::len_h, crate::fsshttpb::data::stream_object::len_e8, crate::fsshttpb::data::stream_object::len_e16};
impl ObjectDataBlob { pub closed spec fn v(&self) -> Seq<u8> { self.0@ } }
/// [MS-FSSHTTPB] 2.2.1.12.8
pub open spec fn sp_object_data_blob(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    ? a <- start_of(sp_h(s), ObjectType::ObjectDataBlob)
    ? (d, b) <- sp_binary(a)
    ? c <- end_of(sp_e8(b), ObjectType::DataElement)
    Some((d, c))
}
pub broadcast proof fn len_object_data_blob(s: Seq<u8>) ensures match #[trigger] sp_object_data_blob(s) { Some((_, t)) => t.len() < s.len(), None => true } {}
#fn ObjectDataBlob::value
ensures r@ == self.v()
#fn DataElement::parse_object_data_blob
@reads sp_object_data_blob v.v()
