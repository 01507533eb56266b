#prelude
use crate::fsshttpb::data::compact_u64::*; use crate::fsshttpb::data::exguid::*; use crate::fsshttpb::data::cell_id::*; use crate::fsshttpb::data::serial_number::*; use crate::fsshttpb::data::stream_object::*; use crate::fsshttpb::data::binary_item::*; use crate::shared::guid::*;
broadcast use {crate::fsshttpb::data::compact_u64::len_compact, crate::fsshttpb::data::exguid::len_exguid, crate::fsshttpb::data::exguid::len_exguids, crate::fsshttpb::data::cell_id::len_cell, crate::fsshttpb::data::cell_id::len_cells, crate::fsshttpb::data::serial_number::len_serial, crate::fsshttpb::data::binary_item::len_binary, crate::fsshttpb::data::stream_object::len_h16, crate::fsshttpb::data::stream_object::len_h32, crate::fsshttpb::data::stream_object::len_h, crate::fsshttpb::data::stream_object::len_e8, crate::fsshttpb::data::stream_object::len_e16};
/// the decoded content of a fragment: its id, declared size, chunk offset, chunk length, and data
pub struct FragV { pub id: ExGuid, pub size: u64, pub offset: u64, pub length: u64, pub data: Seq<u8> }
impl DataElementFragment { pub open spec fn v(&self) -> FragV { FragV { id: self.id, size: self.size, offset: self.chunk_reference.offset, length: self.chunk_reference.length, data: self.data@ } } }
/// [MS-FSSHTTPB] 2.2.1.12.7
pub open spec fn sp_fragment(s: Seq<u8>) -> Option<(FragV, Seq<u8>)> {
    ? a <- start_of(sp_h(s), ObjectType::DataElementFragment)
    ? (id, b) <- sp_exguid(a)
    ? (size, c) <- sp_compact(b)
    ? (offset, d) <- sp_compact(c)
    ? (length, e) <- sp_compact(d)
    if e.len() < size { None } else {
    match end_of(sp_e8(e.skip(size as int)), ObjectType::DataElement) { None => None, Some(f) =>
    Some((FragV { id, size, offset, length, data: e.take(size as int) }, f)) } }
}
pub broadcast proof fn len_fragment(s: Seq<u8>) ensures match #[trigger] sp_fragment(s) { Some((_, t)) => t.len() < s.len(), None => true } {}
#fn DataElement::parse_data_element_fragment
@reads sp_fragment v.v()
