#prelude
use crate::ext::{vx_le, vx_enum_values};
use crate::fsshttpb::data::compact_u64::*; use crate::fsshttpb::data::exguid::*; use crate::fsshttpb::data::cell_id::*; use crate::fsshttpb::data::serial_number::*; use crate::fsshttpb::data::stream_object::*; use crate::fsshttpb::data::binary_item::*; use crate::shared::guid::*;
broadcast use {crate::fsshttpb::data::compact_u64::len_compact, crate::fsshttpb::data::exguid::len_exguid, crate::fsshttpb::data::exguid::len_exguids, crate::fsshttpb::data::cell_id::len_cell, crate::fsshttpb::data::cell_id::len_cells, crate::fsshttpb::data::serial_number::len_serial, crate::fsshttpb::data::binary_item::len_binary, crate::fsshttpb::data::stream_object::len_h16, crate::fsshttpb::data::stream_object::len_h32, crate::fsshttpb::data::stream_object::len_h, crate::fsshttpb::data::stream_object::len_e8, crate::fsshttpb::data::stream_object::len_e16};
pub struct SiV { pub manifests: Seq<StorageIndexManifestMapping>, pub cells: Map<CellId, StorageIndexCellMapping>, pub revisions: Map<ExGuid, StorageIndexRevisionMapping> }
impl StorageIndex { pub open spec fn v(&self) -> SiV { SiV { manifests: self.manifest_mappings@, cells: self.cell_mappings@, revisions: self.revision_mappings@ } } }
pub open spec fn sp_si_manifest(s: Seq<u8>) -> Option<(StorageIndexManifestMapping, Seq<u8>)> {
    ? (mapping_id, a) <- sp_exguid(s)
    ? (serial, b) <- sp_serial(a)
    Some((StorageIndexManifestMapping { mapping_id, serial }, b))
}
pub open spec fn sp_si_cell(s: Seq<u8>) -> Option<((CellId, StorageIndexCellMapping), Seq<u8>)> {
    ? (cell_id, a) <- sp_cell(s)
    ? (id, b) <- sp_exguid(a)
    ? (serial, c) <- sp_serial(b)
    Some(((cell_id, StorageIndexCellMapping { cell_id, id, serial }), c))
}
pub open spec fn sp_si_revision(s: Seq<u8>) -> Option<((ExGuid, StorageIndexRevisionMapping), Seq<u8>)> {
    ? (id, a) <- sp_exguid(s)
    ? (revision_mapping, b) <- sp_exguid(a)
    ? (serial, c) <- sp_serial(b)
    Some(((id, StorageIndexRevisionMapping { revision_mapping, serial }), c))
}
pub open spec fn sp_si_items(s: Seq<u8>, v: SiV) -> Option<(SiV, Seq<u8>)> decreases s.len() {
    if at_end8(s, ObjectType::DataElement) { Some((v, sp_e8(s).unwrap().1)) } else {
        match sp_h16(s) { None => None, Some((h, a)) =>
            if h.object_type == ObjectType::StorageIndexManifestMapping { match sp_si_manifest(a) { None => None, Some((m, b)) => sp_si_items(b, SiV { manifests: v.manifests.push(m), ..v }) } }
            else if h.object_type == ObjectType::StorageIndexCellMapping { match sp_si_cell(a) { None => None, Some((m, b)) => sp_si_items(b, SiV { cells: v.cells.insert(m.0, m.1), ..v }) } }
            else if h.object_type == ObjectType::StorageIndexRevisionMapping { match sp_si_revision(a) { None => None, Some((m, b)) => sp_si_items(b, SiV { revisions: v.revisions.insert(m.0, m.1), ..v }) } }
            else { None } } }
}
/// [MS-FSSHTTPB] 2.2.1.12.2
pub open spec fn sp_storage_index(s: Seq<u8>) -> Option<(SiV, Seq<u8>)> { sp_si_items(s, SiV { manifests: Seq::empty(), cells: Map::empty(), revisions: Map::empty() }) }
pub proof fn len_si_items(s: Seq<u8>, v: SiV) ensures match sp_si_items(s, v) { Some((_, t)) => t.len() < s.len(), None => true } decreases s.len()
{
    if at_end8(s, ObjectType::DataElement) {} else if let Some((h, a)) = sp_h16(s) {
        if h.object_type == ObjectType::StorageIndexManifestMapping { if let Some((m, b)) = sp_si_manifest(a) { len_si_items(b, SiV { manifests: v.manifests.push(m), ..v }); } }
        else if h.object_type == ObjectType::StorageIndexCellMapping { if let Some((m, b)) = sp_si_cell(a) { len_si_items(b, SiV { cells: v.cells.insert(m.0, m.1), ..v }); } }
        else if h.object_type == ObjectType::StorageIndexRevisionMapping { if let Some((m, b)) = sp_si_revision(a) { len_si_items(b, SiV { revisions: v.revisions.insert(m.0, m.1), ..v }); } }
    }
}
pub broadcast proof fn len_storage_index(s: Seq<u8>) ensures match #[trigger] sp_storage_index(s) { Some((_, t)) => t.len() < s.len(), None => true }
{ len_si_items(s, SiV { manifests: Seq::empty(), cells: Map::empty(), revisions: Map::empty() }); }
/// every cell mapping is kept under the cell it names
pub open spec fn own_keys(m: Map<CellId, StorageIndexCellMapping>) -> bool { forall|c: CellId| #[trigger] m.contains_key(c) ==> m[c].cell_id == c }
pub proof fn lemma_si_own(s: Seq<u8>, v: SiV) requires own_keys(v.cells) ensures match sp_si_items(s, v) { Some((w, _)) => own_keys(w.cells), None => true } decreases s.len()
{
    if at_end8(s, ObjectType::DataElement) {} else if let Some((h, a)) = sp_h16(s) {
        if h.object_type == ObjectType::StorageIndexManifestMapping { if let Some((m, b)) = sp_si_manifest(a) { lemma_si_own(b, SiV { manifests: v.manifests.push(m), ..v }); } }
        else if h.object_type == ObjectType::StorageIndexCellMapping { if let Some((m, b)) = sp_si_cell(a) { lemma_si_own(b, SiV { cells: v.cells.insert(m.0, m.1), ..v }); } }
        else if h.object_type == ObjectType::StorageIndexRevisionMapping { if let Some((m, b)) = sp_si_revision(a) { lemma_si_own(b, SiV { revisions: v.revisions.insert(m.0, m.1), ..v }); } }
    }
}
/// the manifest a cell id is mapped to
pub open spec fn si_cell(i: StorageIndex, id: CellId) -> Option<ExGuid> { if i.cell_mappings@.contains_key(id) { Some(i.cell_mappings@[id].id) } else { None } }
/// the manifest a revision id is mapped to
pub open spec fn si_rev(i: StorageIndex, id: ExGuid) -> Option<ExGuid> { if i.revision_mappings@.contains_key(id) { Some(i.revision_mappings@[id].revision_mapping) } else { None } }
/// the revision manifest with a serial number: the least one, where several mappings have it
pub open spec fn serial_is(i: StorageIndex, serial: SerialNumber, r: Option<ExGuid>) -> bool {
    match r {
        Some(m) => (exists|k: ExGuid| #[trigger] i.revision_mappings@.contains_key(k) && i.revision_mappings@[k].serial == serial && m == i.revision_mappings@[k].revision_mapping)
            && (forall|k: ExGuid| #[trigger] i.revision_mappings@.contains_key(k) && i.revision_mappings@[k].serial == serial ==> vx_le(m, i.revision_mappings@[k].revision_mapping)),
        None => forall|k: ExGuid| #[trigger] i.revision_mappings@.contains_key(k) ==> i.revision_mappings@[k].serial != serial,
    }
}
/// the result does not depend on the order in which a map happens to hold its entries
pub proof fn thm_serial_unique(i: StorageIndex, serial: SerialNumber, a: Option<ExGuid>, b: Option<ExGuid>) requires serial_is(i, serial, a), serial_is(i, serial, b) ensures a == b
{ if a is Some && b is Some { vx_le_antisym(a.unwrap(), b.unwrap()); } }
#fn StorageIndex::find_cell_mapping_id
ensures r == si_cell(*self, cell_id)
#fn StorageIndex::find_revision_mapping_id
ensures r == si_rev(*self, id)
#fn StorageIndex::find_revision_mapping_by_serial
ensures serial_is(*self, *serial, r)
#loop 0
    invariant vx_enum_values(__src0@, self.revision_mappings@),
        forall|x: ExGuid| #[trigger] __out0@.contains(x) <==> exists|i: int| 0 <= i < __k0 && (#[trigger] __src0@[i]).serial == *serial && __src0@[i].revision_mapping == x,
#start 0
    let ghost __o = __out0@;
    broadcast use crate::ext::vx_push_contains;
#end 0
    proof { 
        assert forall|x: ExGuid| #[trigger] __out0@.contains(x) <==> exists|i: int| 0 <= i < __k0 && (#[trigger] __src0@[i]).serial == *serial && __src0@[i].revision_mapping == x by {
            if __out0@.contains(x) && !__o.contains(x) { assert(__src0@[__k0 - 1].serial == *serial); }
            if __o.contains(x) { let i = choose|i: int| 0 <= i < __k0 - 1 && (#[trigger] __src0@[i]).serial == *serial && __src0@[i].revision_mapping == x; assert(0 <= i < __k0 && __src0@[i].serial == *serial); }
        } }
#after 0
    proof { let ks = crate::ext::vx_ks(__src0@, self.revision_mappings@);
        assert forall|k: ExGuid| #[trigger] self.revision_mappings@.contains_key(k) && self.revision_mappings@[k].serial == *serial implies __out0@.contains(self.revision_mappings@[k].revision_mapping) by {
            let i = crate::ext::vx_ix(__src0@, self.revision_mappings@, k); assert(__src0@[i].serial == *serial); }
        assert forall|x: ExGuid| #[trigger] __out0@.contains(x) implies exists|k: ExGuid| #[trigger] self.revision_mappings@.contains_key(k) && self.revision_mappings@[k].serial == *serial && self.revision_mappings@[k].revision_mapping == x by {
            let i = choose|i: int| 0 <= i < __src0@.len() && (#[trigger] __src0@[i]).serial == *serial && __src0@[i].revision_mapping == x; assert(self.revision_mappings@.contains_key(ks[i])); }
        assert(__out0@.len() > 0 ==> __out0@.contains(__out0@[0]));
    }
#fn DataElement::parse_storage_index_manifest_mapping
@reads sp_si_manifest
#fn DataElement::parse_storage_index_cell_mapping
@reads sp_si_cell
#fn DataElement::parse_storage_index_revision_mapping
@reads sp_si_revision
#fn DataElement::parse_storage_index
@reads sp_storage_index v.v()
#entry
    let ghost __s0 = reader.rem();
#loop 0
    invariant sp_storage_index(__s0) == sp_si_items(reader.rem(), SiV { manifests: manifest_mappings@, cells: cell_mappings@, revisions: revision_mappings@ }),
    ensures at_end8(reader.rem(), ObjectType::DataElement),
    decreases reader.rem().len(),
