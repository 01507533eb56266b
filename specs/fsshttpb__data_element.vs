#prelude
use crate::fsshttpb::data::compact_u64::*; use crate::fsshttpb::data::exguid::*; use crate::fsshttpb::data::cell_id::*; use crate::fsshttpb::data::serial_number::*; use crate::fsshttpb::data::stream_object::*; use crate::fsshttpb::data::binary_item::*; use crate::shared::guid::*;
broadcast use {crate::fsshttpb::data::compact_u64::len_compact, crate::fsshttpb::data::exguid::len_exguid, crate::fsshttpb::data::exguid::len_exguids, crate::fsshttpb::data::cell_id::len_cell, crate::fsshttpb::data::cell_id::len_cells, crate::fsshttpb::data::serial_number::len_serial, crate::fsshttpb::data::binary_item::len_binary, crate::fsshttpb::data::stream_object::len_h16, crate::fsshttpb::data::stream_object::len_h32, crate::fsshttpb::data::stream_object::len_h, crate::fsshttpb::data::stream_object::len_e8, crate::fsshttpb::data::stream_object::len_e16};
use crate::fsshttpb::data_element::storage_index::*; use crate::fsshttpb::data_element::storage_manifest::*; use crate::fsshttpb::data_element::cell_manifest::*; use crate::fsshttpb::data_element::revision_manifest::*; use crate::fsshttpb::data_element::object_group::*; use crate::fsshttpb::data_element::data_element_fragment::*; use crate::fsshttpb::data_element::object_data_blob::*;
broadcast use {len_storage_index, len_storage_manifest, len_cell_manifest, len_revision_manifest, len_object_group, len_fragment, len_object_data_blob}
/// the decoded content of a package: per kind of element, the elements by id
pub struct PkgV { pub si: Map<ExGuid, SiV>, pub sm: Map<ExGuid, SmV>, pub cm: Map<ExGuid, ExGuid>, pub rm: Map<ExGuid, RevManV>, pub og: Map<ExGuid, OgV>, pub fr: Map<ExGuid, FragV>, pub bl: Map<ExGuid, Seq<u8>> }
pub open spec fn m_si(m: Map<ExGuid, StorageIndex>) -> Map<ExGuid, SiV> { m.map_values(|x: StorageIndex| x.v()) }
pub open spec fn m_sm(m: Map<ExGuid, StorageManifest>) -> Map<ExGuid, SmV> { m.map_values(|x: StorageManifest| x.v()) }
pub open spec fn m_rm(m: Map<ExGuid, RevisionManifest>) -> Map<ExGuid, RevManV> { m.map_values(|x: RevisionManifest| x.v()) }
pub open spec fn m_og(m: Map<ExGuid, ObjectGroup>) -> Map<ExGuid, OgV> { m.map_values(|x: ObjectGroup| x.v()) }
pub open spec fn m_fr(m: Map<ExGuid, DataElementFragment>) -> Map<ExGuid, FragV> { m.map_values(|x: DataElementFragment| x.v()) }
pub open spec fn m_bl(m: Map<ExGuid, ObjectDataBlob>) -> Map<ExGuid, Seq<u8>> { m.map_values(|x: ObjectDataBlob| x.v()) }
pub broadcast proof fn lemma_ins_si(m: Map<ExGuid, StorageIndex>, k: ExGuid, x: StorageIndex) ensures #[trigger] m_si(m.insert(k, x)) == m_si(m).insert(k, x.v()) { assert(m_si(m.insert(k, x)) =~= m_si(m).insert(k, x.v())); }
pub broadcast proof fn lemma_ins_sm(m: Map<ExGuid, StorageManifest>, k: ExGuid, x: StorageManifest) ensures #[trigger] m_sm(m.insert(k, x)) == m_sm(m).insert(k, x.v()) { assert(m_sm(m.insert(k, x)) =~= m_sm(m).insert(k, x.v())); }
pub broadcast proof fn lemma_ins_rm(m: Map<ExGuid, RevisionManifest>, k: ExGuid, x: RevisionManifest) ensures #[trigger] m_rm(m.insert(k, x)) == m_rm(m).insert(k, x.v()) { assert(m_rm(m.insert(k, x)) =~= m_rm(m).insert(k, x.v())); }
pub broadcast proof fn lemma_ins_og(m: Map<ExGuid, ObjectGroup>, k: ExGuid, x: ObjectGroup) ensures #[trigger] m_og(m.insert(k, x)) == m_og(m).insert(k, x.v()) { assert(m_og(m.insert(k, x)) =~= m_og(m).insert(k, x.v())); }
pub broadcast proof fn lemma_ins_fr(m: Map<ExGuid, DataElementFragment>, k: ExGuid, x: DataElementFragment) ensures #[trigger] m_fr(m.insert(k, x)) == m_fr(m).insert(k, x.v()) { assert(m_fr(m.insert(k, x)) =~= m_fr(m).insert(k, x.v())); }
pub broadcast proof fn lemma_ins_bl(m: Map<ExGuid, ObjectDataBlob>, k: ExGuid, x: ObjectDataBlob) ensures #[trigger] m_bl(m.insert(k, x)) == m_bl(m).insert(k, x.v()) { assert(m_bl(m.insert(k, x)) =~= m_bl(m).insert(k, x.v())); }
impl DataElementPackage {
    pub closed spec fn v(&self) -> PkgV { PkgV { si: m_si(self.storage_indexes@), sm: m_sm(self.storage_manifests@), cm: self.cell_manifests@, rm: m_rm(self.revision_manifests@), og: m_og(self.object_groups@), fr: m_fr(self.data_element_fragments@), bl: m_bl(self.object_data_blobs@) } }
}
pub open spec fn pkg_empty() -> PkgV { PkgV { si: Map::empty(), sm: Map::empty(), cm: Map::empty(), rm: Map::empty(), og: Map::empty(), fr: Map::empty(), bl: Map::empty() } }
/// the body of a data element of kind `ty`, entered into `p` under `id`
pub open spec fn sp_body(s: Seq<u8>, ty: u64, id: ExGuid, p: PkgV) -> Option<(PkgV, Seq<u8>)> {
    if ty == 1 { match sp_storage_index(s) { Some((x, t)) => Some((PkgV { si: p.si.insert(id, x), ..p }, t)), None => None } }
    else if ty == 2 { match sp_storage_manifest(s) { Some((x, t)) => Some((PkgV { sm: p.sm.insert(id, x), ..p }, t)), None => None } }
    else if ty == 3 { match sp_cell_manifest(s) { Some((x, t)) => Some((PkgV { cm: p.cm.insert(id, x), ..p }, t)), None => None } }
    else if ty == 4 { match sp_revision_manifest(s) { Some((x, t)) => Some((PkgV { rm: p.rm.insert(id, x), ..p }, t)), None => None } }
    else if ty == 5 { match sp_object_group(s) { Some((x, t)) => Some((PkgV { og: p.og.insert(id, x), ..p }, t)), None => None } }
    else if ty == 6 { match sp_fragment(s) { Some((x, t)) => Some((PkgV { fr: p.fr.insert(id, x), ..p }, t)), None => None } }
    else if ty == 10 { match sp_object_data_blob(s) { Some((x, t)) => Some((PkgV { bl: p.bl.insert(id, x), ..p }, t)), None => None } }
    else { None }
}
/// [MS-FSSHTTPB] 2.2.1.12.1
pub open spec fn sp_element(s: Seq<u8>, p: PkgV) -> Option<(PkgV, Seq<u8>)> {
    ? a <- start_of(sp_h16(s), ObjectType::DataElement)
    ? (id, b) <- sp_exguid(a)
    ? (_, c) <- sp_serial(b)
    ? (ty, d) <- sp_compact(c)
    sp_body(d, ty, id, p)
}
pub open spec fn sp_elements(s: Seq<u8>, p: PkgV) -> Option<(PkgV, Seq<u8>)> decreases s.len() {
    if at_end8(s, ObjectType::DataElementPackage) { Some((p, sp_e8(s).unwrap().1)) } else { match sp_element(s, p) { None => None, Some((q, b)) => sp_elements(b, q) } }
}
/// [MS-FSSHTTPB] 2.2.1.12
pub open spec fn sp_package(s: Seq<u8>) -> Option<(PkgV, Seq<u8>)> {
    ? a <- start_of(sp_h16(s), ObjectType::DataElementPackage)
    if a.len() < 1 || a[0] != 0 { None } else { sp_elements(a.skip(1), pkg_empty()) }
}
pub open spec fn own_pkg(p: PkgV) -> bool { forall|id: ExGuid| #[trigger] p.si.contains_key(id) ==> own_keys(p.si[id].cells) }
pub proof fn lemma_own_elements(s: Seq<u8>, p: PkgV) requires own_pkg(p) ensures match sp_elements(s, p) { Some((q, _)) => own_pkg(q), None => true } decreases s.len()
{
    if at_end8(s, ObjectType::DataElementPackage) {} else if let Some((q, b)) = sp_element(s, p) {
        let a = start_of(sp_h16(s), ObjectType::DataElement).unwrap();
        let (id, a2) = sp_exguid(a).unwrap(); let (_, c) = sp_serial(a2).unwrap(); let (ty, d) = sp_compact(c).unwrap();
        if ty == 1 { lemma_si_own(d, SiV { manifests: Seq::empty(), cells: Map::empty(), revisions: Map::empty() }); }
        assert(own_pkg(q));
        lemma_own_elements(b, q);
    }
}
pub proof fn lemma_own_package(s: Seq<u8>) ensures match sp_package(s) { Some((q, _)) => own_pkg(q), None => true }
{
    if let Some(a) = start_of(sp_h16(s), ObjectType::DataElementPackage) { if a.len() > 0 { lemma_own_elements(a.skip(1), pkg_empty()); } }
}
/// in a parsed package every cell mapping is kept under the cell it names
pub proof fn lemma_own_real(p: DataElementPackage, s: Seq<u8>, t: Seq<u8>) requires sp_package(s) == Some((p.v(), t)) ensures forall|id: ExGuid| #[trigger] p.storage_indexes@.contains_key(id) ==> own_keys(p.storage_indexes@[id].cell_mappings@)
{
    lemma_own_package(s);
    assert forall|id: ExGuid| #[trigger] p.storage_indexes@.contains_key(id) implies own_keys(p.storage_indexes@[id].cell_mappings@) by { assert(p.v().si.contains_key(id)); assert(p.v().si[id] == p.storage_indexes@[id].v()); }
}
/// the least of the keys: the choice that does not depend on the order in which a map happens to hold its entries
pub open spec fn least_key<V>(m: Map<ExGuid, V>, k: ExGuid) -> bool { m.contains_key(k) && forall|j: ExGuid| #[trigger] m.contains_key(j) ==> crate::ext::vx_le(k, j) }
pub proof fn thm_least_unique<V>(m: Map<ExGuid, V>, a: ExGuid, b: ExGuid) requires least_key(m, a), least_key(m, b) ensures a == b { vx_le_antisym(a, b); }
/// the revision manifest a revision id stands for: the mapped one, or itself when it is one
pub open spec fn rev_manifest_id(p: DataElementPackage, i: StorageIndex, id: ExGuid) -> Option<ExGuid> {
    match si_rev(i, id) { Some(m) => Some(m), None => if p.revision_manifests@.contains_key(id) { Some(id) } else { None } }
}
/// the revision manifest of a cell manifest (or, failing that, of the id taken as a revision id)
pub open spec fn cell_rev_manifest_id(p: DataElementPackage, i: StorageIndex, id: ExGuid) -> Option<ExGuid> {
    if p.cell_manifests@.contains_key(id) && rev_manifest_id(p, i, p.cell_manifests@[id]) is Some { rev_manifest_id(p, i, p.cell_manifests@[id]) } else { rev_manifest_id(p, i, id) }
}
/// the groups a revision manifest refers to, in order
pub open spec fn groups_are(p: DataElementPackage, m: RevisionManifest, r: Seq<&ObjectGroup>) -> bool {
    r.len() == m.group_references@.len() && groups_some(p, m, r)
}
pub open spec fn groups_some(p: DataElementPackage, m: RevisionManifest, r: Seq<&ObjectGroup>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> p.object_groups@.contains_key(#[trigger] m.group_references@[i]) && *r[i] == p.object_groups@[m.group_references@[i]]
}
/// the groups of the current revision of a cell
pub open spec fn cell_groups(p: DataElementPackage, i: StorageIndex, cell: ExGuid, v: Seq<&ObjectGroup>) -> bool {
    exists|id: ExGuid| cell_start(p, i, cell, Some(id)) && #[trigger] p.revision_manifests@.contains_key(id) && groups_are(p, p.revision_manifests@[id], v)
}
/// the current revision of the cell whose manifest is `cell`: the one the manifest leads to or, failing that, the least one the serial numbers of its mappings lead to
pub open spec fn cell_start(p: DataElementPackage, i: StorageIndex, cell: ExGuid, r: Option<ExGuid>) -> bool {
    match cell_rev_manifest_id(p, i, cell) { Some(m) => r == Some(m), None => cell_serial_is(i, cell, r) }
}
pub open spec fn for_cell(i: StorageIndex, cell: ExGuid, c: CellId) -> bool { i.cell_mappings@.contains_key(c) && i.cell_mappings@[c].id == cell }
pub open spec fn cell_serial_is(i: StorageIndex, cell: ExGuid, r: Option<ExGuid>) -> bool {
    match r {
        Some(m) => (exists|c: CellId| #[trigger] for_cell(i, cell, c) && serial_is(i, i.cell_mappings@[c].serial, Some(m)))
            && (forall|c: CellId, x: ExGuid| #[trigger] for_cell(i, cell, c) && #[trigger] serial_is(i, i.cell_mappings@[c].serial, Some(x)) ==> crate::ext::vx_le(m, x)),
        None => forall|c: CellId| #[trigger] for_cell(i, cell, c) ==> serial_is(i, i.cell_mappings@[c].serial, None),
    }
}
/// the result does not depend on the order in which the maps happen to hold their entries
pub proof fn thm_cell_start_unique(p: DataElementPackage, i: StorageIndex, cell: ExGuid, a: Option<ExGuid>, b: Option<ExGuid>) requires cell_start(p, i, cell, a), cell_start(p, i, cell, b) ensures a == b
{
    if cell_rev_manifest_id(p, i, cell) is None {
        if a is Some && b is Some { vx_le_antisym(a.unwrap(), b.unwrap()); }
        if a is Some && b is None { let c = choose|c: CellId| #[trigger] for_cell(i, cell, c) && serial_is(i, i.cell_mappings@[c].serial, a); thm_serial_unique(i, i.cell_mappings@[c].serial, a, b); }
        if a is None && b is Some { let c = choose|c: CellId| #[trigger] for_cell(i, cell, c) && serial_is(i, i.cell_mappings@[c].serial, b); thm_serial_unique(i, i.cell_mappings@[c].serial, a, b); }
    }
}
/// the groups of a cell cannot be found
pub open spec fn groups_bad(p: DataElementPackage, i: StorageIndex, cell: ExGuid) -> bool {
    exists|r: Option<ExGuid>| #[trigger] cell_start(p, i, cell, r) && (match r { None => true,
        Some(id) => !p.revision_manifests@.contains_key(id) || exists|j: int| 0 <= j < p.revision_manifests@[id].group_references@.len() && !p.object_groups@.contains_key(#[trigger] p.revision_manifests@[id].group_references@[j]) })
}
#fn DataElementPackage::parse
@reads sp_package v.v()
#entry
    let ghost __s0 = reader.rem();
#loop 0
    invariant sp_package(__s0) == sp_elements(reader.rem(), package.v()),
    ensures at_end8(reader.rem(), ObjectType::DataElementPackage),
    decreases reader.rem().len(),
#pre 0
    assert(m_si(Map::empty()) =~= Map::empty()); assert(m_sm(Map::empty()) =~= Map::empty()); assert(m_rm(Map::empty()) =~= Map::empty()); assert(m_og(Map::empty()) =~= Map::empty()); assert(m_fr(Map::empty()) =~= Map::empty()); assert(m_bl(Map::empty()) =~= Map::empty());
    assert(package.v() == pkg_empty());
#fn DataElementPackage::find_objects
#attr
    #[verifier::spinoff_prover]
#spec
ensures match r { Ok(v) => cell_groups(*self, *storage_index, cell, v@), Err(_) => groups_bad(*self, *storage_index, cell) }
#loop 0
    invariant crate::ext::vx_enum_values(__src0@, storage_index.cell_mappings@),
        forall|x: ExGuid| #[trigger] __out0@.contains(x) ==> exists|i: int| 0 <= i < __k0 && (#[trigger] __src0@[i]).id == cell && serial_is(*storage_index, __src0@[i].serial, Some(x)),
        forall|i: int| 0 <= i < __k0 && (#[trigger] __src0@[i]).id == cell ==> serial_is(*storage_index, __src0@[i].serial, None) || exists|x: ExGuid| #[trigger] __out0@.contains(x) && serial_is(*storage_index, __src0@[i].serial, Some(x)),
#start 0
    let ghost __o = __out0@;
    broadcast use crate::ext::vx_push_contains;
#end 0
    proof {
        assert forall|x: ExGuid| #[trigger] __out0@.contains(x) implies exists|i: int| 0 <= i < __k0 && (#[trigger] __src0@[i]).id == cell && serial_is(*storage_index, __src0@[i].serial, Some(x)) by {
            if !__o.contains(x) { assert(__src0@[__k0 - 1].id == cell); }
            else { let i = choose|i: int| 0 <= i < __k0 - 1 && (#[trigger] __src0@[i]).id == cell && serial_is(*storage_index, __src0@[i].serial, Some(x)); assert(0 <= i < __k0 && __src0@[i].id == cell); } }
        assert forall|i: int| 0 <= i < __k0 && (#[trigger] __src0@[i]).id == cell implies serial_is(*storage_index, __src0@[i].serial, None) || exists|x: ExGuid| #[trigger] __out0@.contains(x) && serial_is(*storage_index, __src0@[i].serial, Some(x)) by {
            if i < __k0 - 1 { if !serial_is(*storage_index, __src0@[i].serial, None) { let x = choose|x: ExGuid| #[trigger] __o.contains(x) && serial_is(*storage_index, __src0@[i].serial, Some(x)); assert(__out0@.contains(x)); } }
            else if !serial_is(*storage_index, __src0@[i].serial, None) { assert(__out0@.contains(__out0@.last())); } }
    }
#after 0
    proof { let ks = crate::ext::vx_ks(__src0@, storage_index.cell_mappings@);
        assert forall|c: CellId, x: ExGuid| #[trigger] for_cell(*storage_index, cell, c) && #[trigger] serial_is(*storage_index, storage_index.cell_mappings@[c].serial, Some(x)) implies __out0@.contains(x) by {
            let i = crate::ext::vx_ix(__src0@, storage_index.cell_mappings@, c); assert(__src0@[i].id == cell); let s = __src0@[i].serial;
            if serial_is(*storage_index, s, None) { thm_serial_unique(*storage_index, s, None, Some(x)); }
            let y = choose|y: ExGuid| #[trigger] __out0@.contains(y) && serial_is(*storage_index, s, Some(y)); thm_serial_unique(*storage_index, s, Some(y), Some(x)); }
        assert forall|x: ExGuid| #[trigger] __out0@.contains(x) implies exists|c: CellId| #[trigger] for_cell(*storage_index, cell, c) && serial_is(*storage_index, storage_index.cell_mappings@[c].serial, Some(x)) by {
            let i = choose|i: int| 0 <= i < __src0@.len() && (#[trigger] __src0@[i]).id == cell && serial_is(*storage_index, __src0@[i].serial, Some(x)); assert(for_cell(*storage_index, cell, ks[i])); }
        if __out0@.len() == 0 { assert forall|c: CellId| #[trigger] for_cell(*storage_index, cell, c) implies serial_is(*storage_index, storage_index.cell_mappings@[c].serial, None) by {
            let i = crate::ext::vx_ix(__src0@, storage_index.cell_mappings@, c); assert(__src0@[i].id == cell); } }
        assert(__out0@.len() > 0 ==> __out0@.contains(__out0@[0]));
        assert(__out0@.len() == 0 ==> cell_serial_is(*storage_index, cell, None));
        assert(__out0@.len() == 0 ==> cell_start(*self, *storage_index, cell, None));
        assert forall|m: ExGuid| #[trigger] crate::ext::vx_least(__out0@, m) implies cell_serial_is(*storage_index, cell, Some(m)) by { }
    }
#loop 1
    invariant __out1@.len() == __k1, groups_some(*self, *revision_manifest, __out1@),
#start 1
    assert(*__src1@[__k1 as int] == revision_manifest.group_references@[__k1 as int]);
#before let revision_manifest
assert(cell_start(*self, *storage_index, cell, Some(revision_mapping_id)));
#fn DataElementPackage::find_blob
ensures match r { Some(b) => self.object_data_blobs@.contains_key(id) && b@ == self.object_data_blobs@[id].v(), None => !self.object_data_blobs@.contains_key(id) }
#fn DataElementPackage::find_storage_index
ensures match r { Some(b) => exists|k: ExGuid| #[trigger] self.storage_indexes@.contains_key(k) && least_key(self.storage_indexes@, k) && *b == self.storage_indexes@[k], None => self.storage_indexes@ =~= Map::empty() }
#fn DataElementPackage::find_storage_index_by_id
ensures match r { Some(b) => self.storage_indexes@.contains_key(id) && *b == self.storage_indexes@[id], None => !self.storage_indexes@.contains_key(id) }
#fn DataElementPackage::find_storage_manifest
ensures match r { Some(b) => exists|k: ExGuid| #[trigger] self.storage_manifests@.contains_key(k) && least_key(self.storage_manifests@, k) && *b == self.storage_manifests@[k], None => self.storage_manifests@ =~= Map::empty() }
#fn DataElementPackage::resolve_revision_manifest_id
ensures r == rev_manifest_id(*self, *storage_index, id)
#fn DataElementPackage::find_cell_revision_id
ensures r == (if self.cell_manifests@.contains_key(id) { Some(self.cell_manifests@[id]) } else { None })
#fn DataElementPackage::resolve_cell_revision_manifest_id
ensures r == cell_rev_manifest_id(*self, *storage_index, cell_manifest_id)
#fn DataElementPackage::find_revision_manifest
ensures match r { Some(b) => self.revision_manifests@.contains_key(id) && *b == self.revision_manifests@[id], None => !self.revision_manifests@.contains_key(id) }
#fn DataElementPackage::find_object_group
ensures match r { Some(b) => self.object_groups@.contains_key(id) && *b == self.object_groups@[id], None => !self.object_groups@.contains_key(id) }
#fn DataElement::parse
ensures match r { Ok(_) => sp_element(old(reader).rem(), old(package).v()) == Some((final(package).v(), final(reader).rem())), Err(_) => sp_element(old(reader).rem(), old(package).v()) is None }
#entry
    broadcast use {lemma_ins_si, lemma_ins_sm, lemma_ins_rm, lemma_ins_og, lemma_ins_fr, lemma_ins_bl};
