#prelude
use crate::fsshttpb::data::compact_u64::*; use crate::fsshttpb::data::exguid::*; use crate::fsshttpb::data::cell_id::*; use crate::fsshttpb::data::serial_number::*; use crate::fsshttpb::data::stream_object::*; use crate::fsshttpb::data::binary_item::*; use crate::shared::guid::*;
broadcast use {crate::fsshttpb::data::compact_u64::len_compact, crate::fsshttpb::data::exguid::len_exguid, crate::fsshttpb::data::exguid::len_exguids, crate::fsshttpb::data::cell_id::len_cell, crate::fsshttpb::data::cell_id::len_cells, crate::fsshttpb::data::serial_number::len_serial, crate::fsshttpb::data::binary_item::len_binary, crate::fsshttpb::data::stream_object::len_h16, crate::fsshttpb::data::stream_object::len_h32, crate::fsshttpb::data::stream_object::len_h, crate::fsshttpb::data::stream_object::len_e8, crate::fsshttpb::data::stream_object::len_e16};
pub struct RevManV { pub rev_id: ExGuid, pub base_rev_id: ExGuid, pub root_declare: Seq<RevisionManifestRootDeclare>, pub group_references: Seq<ExGuid> }
impl RevisionManifest { pub open spec fn v(&self) -> RevManV { RevManV { rev_id: self.rev_id, base_rev_id: self.base_rev_id, root_declare: self.root_declare@, group_references: self.group_references@ } } }
pub open spec fn sp_root_declare(s: Seq<u8>) -> Option<(RevisionManifestRootDeclare, Seq<u8>)> {
    ? (root_id, a) <- sp_exguid(s)
    ? (object_id, b) <- sp_exguid(a)
    Some((RevisionManifestRootDeclare { root_id, object_id }, b))
}
/// the items up to the end of the data element, added to `v`
pub open spec fn sp_rev_items(s: Seq<u8>, v: RevManV) -> Option<(RevManV, Seq<u8>)> decreases s.len() {
    if at_end8(s, ObjectType::DataElement) { Some((v, sp_e8(s).unwrap().1)) } else {
        match sp_h16(s) { None => None, Some((h, a)) =>
            if h.object_type == ObjectType::RevisionManifestRoot { match sp_root_declare(a) { None => None, Some((d, b)) => sp_rev_items(b, RevManV { root_declare: v.root_declare.push(d), ..v }) } }
            else if h.object_type == ObjectType::RevisionManifestGroupReference { match sp_exguid(a) { None => None, Some((d, b)) => sp_rev_items(b, RevManV { group_references: v.group_references.push(d), ..v }) } }
            else { None } } }
}
/// [MS-FSSHTTPB] 2.2.1.12.5
pub open spec fn sp_revision_manifest(s: Seq<u8>) -> Option<(RevManV, Seq<u8>)> {
    ? a <- start_of(sp_h16(s), ObjectType::RevisionManifest)
    ? (rev_id, b) <- sp_exguid(a)
    ? (base_rev_id, c) <- sp_exguid(b)
    sp_rev_items(c, RevManV { rev_id, base_rev_id, root_declare: Seq::empty(), group_references: Seq::empty() })
}
pub proof fn len_rev_items(s: Seq<u8>, v: RevManV) ensures match sp_rev_items(s, v) { Some((_, t)) => t.len() < s.len(), None => true } decreases s.len()
{
    if at_end8(s, ObjectType::DataElement) {} else if let Some((h, a)) = sp_h16(s) {
        if h.object_type == ObjectType::RevisionManifestRoot { if let Some((d, b)) = sp_root_declare(a) { len_rev_items(b, RevManV { root_declare: v.root_declare.push(d), ..v }); } }
        else if h.object_type == ObjectType::RevisionManifestGroupReference { if let Some((d, b)) = sp_exguid(a) { len_rev_items(b, RevManV { group_references: v.group_references.push(d), ..v }); } }
    }
}
pub broadcast proof fn len_revision_manifest(s: Seq<u8>) ensures match #[trigger] sp_revision_manifest(s) { Some((_, t)) => t.len() < s.len(), None => true }
{ if let Some(a) = start_of(sp_h16(s), ObjectType::RevisionManifest) { if let Some((rev_id, b)) = sp_exguid(a) { if let Some((base_rev_id, c)) = sp_exguid(b) {
    len_rev_items(c, RevManV { rev_id, base_rev_id, root_declare: Seq::empty(), group_references: Seq::empty() }); } } } }
#fn RevisionManifestRootDeclare::parse
@reads sp_root_declare
#fn DataElement::parse_revision_manifest
@reads sp_revision_manifest v.v()
#entry
    let ghost __s0 = reader.rem();
#loop 0
    invariant sp_revision_manifest(__s0) == sp_rev_items(reader.rem(), RevManV { rev_id, base_rev_id, root_declare: root_declare@, group_references: group_references@ }),
    ensures at_end8(reader.rem(), ObjectType::DataElement),
    decreases reader.rem().len(),
