#prelude
impl ObjectGroupDeclaration {
    pub open spec fn part(&self) -> u64 { match *self { ObjectGroupDeclaration::Object { partition_id, .. } => partition_id, ObjectGroupDeclaration::Blob { partition_id, .. } => partition_id } }
    pub open spec fn oid(&self) -> ExGuid { match *self { ObjectGroupDeclaration::Object { object_id, .. } => object_id, ObjectGroupDeclaration::Blob { object_id, .. } => object_id } }
}
use crate::fsshttpb::data::compact_u64::*; use crate::fsshttpb::data::exguid::*; use crate::fsshttpb::data::cell_id::*; use crate::fsshttpb::data::serial_number::*; use crate::fsshttpb::data::stream_object::*; use crate::fsshttpb::data::binary_item::*; use crate::shared::guid::*;
broadcast use {crate::fsshttpb::data::compact_u64::len_compact, crate::fsshttpb::data::exguid::len_exguid, crate::fsshttpb::data::exguid::len_exguids, crate::fsshttpb::data::cell_id::len_cell, crate::fsshttpb::data::cell_id::len_cells, crate::fsshttpb::data::serial_number::len_serial, crate::fsshttpb::data::binary_item::len_binary, crate::fsshttpb::data::stream_object::len_h16, crate::fsshttpb::data::stream_object::len_h32, crate::fsshttpb::data::stream_object::len_h, crate::fsshttpb::data::stream_object::len_e8, crate::fsshttpb::data::stream_object::len_e16};
pub open spec fn sp_decl_object(s: Seq<u8>) -> Option<(ObjectGroupDeclaration, Seq<u8>)> {
    ? (object_id, a) <- sp_exguid(s)
    ? (partition_id, b) <- sp_compact(a)
    ? (data_size, c) <- sp_compact(b)
    ? (object_reference_count, d) <- sp_compact(c)
    ? (cell_reference_count, e) <- sp_compact(d)
    Some((ObjectGroupDeclaration::Object { object_id, partition_id, data_size, object_reference_count, cell_reference_count }, e))
}
pub open spec fn sp_decl_blob(s: Seq<u8>) -> Option<(ObjectGroupDeclaration, Seq<u8>)> {
    ? (object_id, a) <- sp_exguid(s)
    ? (blob_id, b) <- sp_exguid(a)
    ? (partition_id, c) <- sp_compact(b)
    ? (object_reference_count, d) <- sp_compact(c)
    ? (cell_reference_count, e) <- sp_compact(d)
    Some((ObjectGroupDeclaration::Blob { object_id, blob_id, partition_id, object_reference_count, cell_reference_count }, e))
}
pub open spec fn sp_decl(s: Seq<u8>) -> Option<(ObjectGroupDeclaration, Seq<u8>)> {
    ? (h, a) <- sp_h(s)
    if h.object_type == ObjectType::ObjectGroupObject { sp_decl_object(a) } else if h.object_type == ObjectType::ObjectGroupDataBlob { sp_decl_blob(a) } else { None }
}
pub open spec fn sp_decl_items(s: Seq<u8>, v: Seq<ObjectGroupDeclaration>) -> Option<(Seq<ObjectGroupDeclaration>, Seq<u8>)> decreases s.len() {
    if at_end8(s, ObjectType::ObjectGroupDeclaration) { Some((v, sp_e8(s).unwrap().1)) } else { match sp_decl(s) { None => None, Some((d, b)) => sp_decl_items(b, v.push(d)) } }
}
/// [MS-FSSHTTPB] 2.2.1.12.6.1 and .2
pub open spec fn sp_decls(s: Seq<u8>) -> Option<(Seq<ObjectGroupDeclaration>, Seq<u8>)> {
    ? a <- start_of(sp_h(s), ObjectType::ObjectGroupDeclaration)
    sp_decl_items(a, Seq::empty())
}
pub open spec fn sp_freq(v: u64) -> Option<ObjectChangeFrequency> {
    if v == 0 { Some(ObjectChangeFrequency::Unknown) } else if v == 1 { Some(ObjectChangeFrequency::Frequent) } else if v == 2 { Some(ObjectChangeFrequency::Infrequent) }
    else if v == 3 { Some(ObjectChangeFrequency::Independent) } else if v == 4 { Some(ObjectChangeFrequency::Custom) } else { None }
}
pub open spec fn sp_meta(s: Seq<u8>) -> Option<(ObjectGroupMetadata, Seq<u8>)> {
    ? a <- start_of(sp_h32(s), ObjectType::ObjectGroupMetadata)
    ? (n, b) <- sp_compact(a)
    ? change_frequency <- sp_freq(n)
    Some((ObjectGroupMetadata { change_frequency }, b))
}
pub open spec fn sp_metas(s: Seq<u8>, v: Seq<ObjectGroupMetadata>) -> Option<(Seq<ObjectGroupMetadata>, Seq<u8>)> decreases s.len() {
    if at_end16(s, ObjectType::ObjectGroupMetadataBlock) { Some((v, sp_e16(s).unwrap().1)) } else { match sp_meta(s) { None => None, Some((d, b)) => sp_metas(b, v.push(d)) } }
}
/// the decoded content of one item of the object group data
pub enum OgdV { Object { group: Seq<ExGuid>, cells: Seq<CellId>, data: Seq<u8> }, ObjectExcluded { group: Seq<ExGuid>, cells: Seq<CellId>, size: u64 }, BlobReference { objects: Seq<ExGuid>, cells: Seq<CellId>, blob: ExGuid } }
impl ObjectGroupData {
    pub open spec fn v(&self) -> OgdV { match self {
        ObjectGroupData::Object { group, cells, data } => OgdV::Object { group: group@, cells: cells@, data: data@ },
        ObjectGroupData::ObjectExcluded { group, cells, size } => OgdV::ObjectExcluded { group: group@, cells: cells@, size: *size },
        ObjectGroupData::BlobReference { objects, cells, blob } => OgdV::BlobReference { objects: objects@, cells: cells@, blob: *blob } } }
}
pub open spec fn ogd_vs(s: Seq<ObjectGroupData>) -> Seq<OgdV> { Seq::new(s.len(), |i: int| s[i].v()) }
pub broadcast proof fn lemma_ogd_push(s: Seq<ObjectGroupData>, x: ObjectGroupData) ensures #[trigger] ogd_vs(s.push(x)) == ogd_vs(s).push(x.v()) { assert(ogd_vs(s.push(x)) =~= ogd_vs(s).push(x.v())); }
pub open spec fn sp_ogd(s: Seq<u8>) -> Option<(OgdV, Seq<u8>)> {
    ? (h, a) <- sp_h(s)
    ? (group, b) <- (if h.object_type == ObjectType::ObjectGroupDataExcluded || h.object_type == ObjectType::ObjectGroupDataObject || h.object_type == ObjectType::ObjectGroupBlobReference { sp_exguid_arr(a) } else { None })
    ? (cells, c) <- sp_cell_arr(b)
    if h.object_type == ObjectType::ObjectGroupDataExcluded { match sp_compact(c) { None => None, Some((size, d)) => Some((OgdV::ObjectExcluded { group, cells, size }, d)) } }
    else if h.object_type == ObjectType::ObjectGroupDataObject { match sp_binary(c) { None => None, Some((data, d)) => Some((OgdV::Object { group, cells, data }, d)) } }
    else { match sp_exguid(c) { None => None, Some((blob, d)) => Some((OgdV::BlobReference { objects: group, cells, blob }, d)) } }
}
/// [MS-FSSHTTPB] 2.2.1.12.6.4 and .5
pub open spec fn sp_ogds(s: Seq<u8>, v: Seq<OgdV>) -> Option<(Seq<OgdV>, Seq<u8>)> decreases s.len() {
    if at_end8(s, ObjectType::ObjectGroupData) { Some((v, sp_e8(s).unwrap().1)) } else { match sp_ogd(s) { None => None, Some((d, b)) => sp_ogds(b, v.push(d)) } }
}
pub struct OgV { pub declarations: Seq<ObjectGroupDeclaration>, pub metadata: Seq<ObjectGroupMetadata>, pub objects: Seq<OgdV> }
impl ObjectGroup { pub open spec fn v(&self) -> OgV { OgV { declarations: self.declarations@, metadata: self.metadata@, objects: ogd_vs(self.objects@) } } }
pub open spec fn sp_og_data(s: Seq<u8>, declarations: Seq<ObjectGroupDeclaration>, metadata: Seq<ObjectGroupMetadata>) -> Option<(OgV, Seq<u8>)> {
    ? (objects, a) <- sp_ogds(s, Seq::empty())
    ? b <- end_of(sp_e8(a), ObjectType::DataElement)
    Some((OgV { declarations, metadata, objects }, b))
}
/// [MS-FSSHTTPB] 2.2.1.12.6: the declarations, an optional metadata block, the data
pub open spec fn sp_object_group(s: Seq<u8>) -> Option<(OgV, Seq<u8>)> {
    ? (declarations, a) <- sp_decls(s)
    ? (h, b) <- sp_h(a)
    if h.object_type == ObjectType::ObjectGroupData { sp_og_data(b, declarations, Seq::empty()) }
    else if h.object_type == ObjectType::ObjectGroupMetadataBlock {
        match sp_metas(b, Seq::empty()) { None => None, Some((metadata, c)) => match start_of(sp_h(c), ObjectType::ObjectGroupData) { None => None, Some(d) => sp_og_data(d, declarations, metadata) } } }
    else { None }
}
pub broadcast proof fn len_decl_items(s: Seq<u8>, v: Seq<ObjectGroupDeclaration>) ensures match #[trigger] sp_decl_items(s, v) { Some((_, t)) => t.len() < s.len(), None => true } decreases s.len()
{ if !at_end8(s, ObjectType::ObjectGroupDeclaration) { if let Some((d, b)) = sp_decl(s) { len_decl_items(b, v.push(d)); } } }
pub broadcast proof fn len_metas(s: Seq<u8>, v: Seq<ObjectGroupMetadata>) ensures match #[trigger] sp_metas(s, v) { Some((_, t)) => t.len() < s.len(), None => true } decreases s.len()
{ if !at_end16(s, ObjectType::ObjectGroupMetadataBlock) { if let Some((d, b)) = sp_meta(s) { len_metas(b, v.push(d)); } } }
pub broadcast proof fn len_ogds(s: Seq<u8>, v: Seq<OgdV>) ensures match #[trigger] sp_ogds(s, v) { Some((_, t)) => t.len() < s.len(), None => true } decreases s.len()
{ if !at_end8(s, ObjectType::ObjectGroupData) { if let Some((d, b)) = sp_ogd(s) { len_ogds(b, v.push(d)); } } }
pub broadcast proof fn len_object_group(s: Seq<u8>) ensures match #[trigger] sp_object_group(s) { Some((_, t)) => t.len() < s.len(), None => true } { broadcast use {len_decl_items, len_metas, len_ogds}; }
/// the codes the formats define
pub proof fn pin_ObjectChangeFrequency() ensures
    ObjectChangeFrequency::Unknown.vx_disc() == 0,
    ObjectChangeFrequency::Frequent.vx_disc() == 1,
    ObjectChangeFrequency::Infrequent.vx_disc() == 2,
    ObjectChangeFrequency::Independent.vx_disc() == 3,
    ObjectChangeFrequency::Custom.vx_disc() == 4,
{}
#fn ObjectGroupDeclaration::partition_id
ensures r == self.part()
#fn ObjectGroupDeclaration::object_id
ensures r == self.oid()
#fn ObjectChangeFrequency::parse
ensures match r { Ok(v) => sp_freq(value) == Some(v), Err(_) => sp_freq(value) is None }
#fn DataElement::parse_object_group
@reads sp_object_group v.v()
#fn DataElement::parse_object_group_declarations
@reads sp_decls v@
#entry
    let ghost __s0 = reader.rem();
#loop 0
    invariant sp_decls(__s0) == sp_decl_items(reader.rem(), declarations@),
    ensures at_end8(reader.rem(), ObjectType::ObjectGroupDeclaration),
    decreases reader.rem().len(),
#fn DataElement::parse_object_group_metadata
ensures match r { Ok(v) => sp_metas(old(reader).rem(), Seq::empty()) == Some((v@, final(reader).rem())), Err(_) => sp_metas(old(reader).rem(), Seq::empty()) is None }
#entry
    let ghost __s0 = reader.rem();
#loop 0
    invariant sp_metas(__s0, Seq::empty()) == sp_metas(reader.rem(), declarations@),
    ensures at_end16(reader.rem(), ObjectType::ObjectGroupMetadataBlock),
    decreases reader.rem().len(),
#fn DataElement::parse_object_group_data
ensures match r { Ok(v) => sp_ogds(old(reader).rem(), Seq::empty()) == Some((ogd_vs(v@), final(reader).rem())), Err(_) => sp_ogds(old(reader).rem(), Seq::empty()) is None }
#entry
    let ghost __s0 = reader.rem();
    broadcast use lemma_ogd_push;
    assert(ogd_vs(Seq::<ObjectGroupData>::empty()) =~= Seq::<OgdV>::empty());
#loop 0
    invariant sp_ogds(__s0, Seq::empty()) == sp_ogds(reader.rem(), ogd_vs(objects@)),
    ensures at_end8(reader.rem(), ObjectType::ObjectGroupData),
    decreases reader.rem().len(),
