#prelude
use crate::fsshttpb::data::exguid::ExGuid;
use crate::onestore::object_space::{space_is, space_bad};
use crate::onestore::header::{header_read, header_bad};
use crate::fsshttpb::data_element::{DataElementPackage, groups_are, cell_groups, groups_bad, least_key};
use crate::fsshttpb::data_element::object_group::ObjectGroup;
use crate::onestore::revision::at;
pub open spec fn header_root_id() -> ExGuid { ExGuid { guid: crate::shared::guid::Guid(crate::ext::uuid_lit(0x1A5A319C_C26B_41AA_B9C5_9BD8C44E07D4)), value: 1 } }
pub open spec fn data_root_id() -> ExGuid { ExGuid { guid: crate::shared::guid::Guid(crate::ext::uuid_lit(0x84DEFAB9_AAA3_4A0D_A3A8_520C77AC7073)), value: 2 } }
/// the storage index of a package: the one the package names or, failing that, the least
pub open spec fn index_is(k: OneStorePackaging, i: StorageIndex) -> bool {
    let m = k.data_element_package.storage_indexes@;
    match at(m, k.storage_index) { Some(x) => i == x, None => exists|id: ExGuid| #[trigger] m.contains_key(id) && least_key(m, id) && i == m[id] }
}
pub open spec fn manifest_is(k: OneStorePackaging, s: StorageManifest) -> bool { exists|id: ExGuid| #[trigger] k.data_element_package.storage_manifests@.contains_key(id) && least_key(k.data_element_package.storage_manifests@, id) && s == k.data_element_package.storage_manifests@[id] }
/// the header of a store
pub open spec fn header_is(h: StoreHeader, p: DataElementPackage, i: StorageIndex, s: StorageManifest) -> bool {
    s.roots@.contains_key(header_root_id()) && i.cell_mappings@.contains_key(s.roots@[header_root_id()])
    && exists|v: Seq<&ObjectGroup>| #[trigger] cell_groups(p, i, i.cell_mappings@[s.roots@[header_root_id()]].id, v) && v.len() > 0 && header_read(*v[0], h)
}
/// the cells that become object spaces of their own
pub open spec fn own_space(i: StorageIndex, s: StorageManifest, c: CellId) -> bool {
    i.cell_mappings@.contains_key(c) && i.cell_mappings@[c].id != crate::fsshttpb::data::exguid::nil_exguid() && c != s.roots@[header_root_id()] && c != s.roots@[data_root_id()]
}
/// a parsed store is what its package stores
pub open spec fn store_is(r: OneStore, k: OneStorePackaging, i: StorageIndex, s: StorageManifest) -> bool {
    &&& index_is(k, i) && manifest_is(k, s)
    &&& r.schema == s.id
    &&& header_is(r.header, k.data_element_package, i, s)
    &&& s.roots@.contains_key(data_root_id()) && i.cell_mappings@.contains_key(s.roots@[data_root_id()]) && space_is(r.data_root, i.cell_mappings@[s.roots@[data_root_id()]], i, k)
    &&& forall|c: CellId| #[trigger] r.object_spaces@.contains_key(c) <==> own_space(i, s, c)
    &&& forall|c: CellId| #[trigger] r.object_spaces@.contains_key(c) ==> space_is(r.object_spaces@[c], i.cell_mappings@[c], i, k)
}
pub open spec fn head_bad(p: DataElementPackage, i: StorageIndex, s: StorageManifest) -> bool {
    ||| !s.roots@.contains_key(header_root_id()) || !i.cell_mappings@.contains_key(s.roots@[header_root_id()])
    ||| groups_bad(p, i, i.cell_mappings@[s.roots@[header_root_id()]].id)
    ||| exists|v: Seq<&ObjectGroup>| #[trigger] cell_groups(p, i, i.cell_mappings@[s.roots@[header_root_id()]].id, v) && (v.len() == 0 || header_bad(*v[0]))
}
pub open spec fn bad_cell(k: OneStorePackaging, i: StorageIndex, s: StorageManifest, c: CellId) -> bool { own_space(i, s, c) && space_bad(i.cell_mappings@[c], i, k) }
/// what makes a package's content unusable
pub open spec fn content_bad(k: OneStorePackaging, i: StorageIndex, s: StorageManifest) -> bool {
    ||| head_bad(k.data_element_package, i, s)
    ||| !s.roots@.contains_key(data_root_id()) || !i.cell_mappings@.contains_key(s.roots@[data_root_id()]) || space_bad(i.cell_mappings@[s.roots@[data_root_id()]], i, k)
    ||| exists|c: CellId| #[trigger] bad_cell(k, i, s, c)
}
pub open spec fn store_bad(k: OneStorePackaging) -> bool {
    ||| k.data_element_package.storage_indexes@ =~= Map::empty() || k.data_element_package.storage_manifests@ =~= Map::empty()
    ||| exists|i: StorageIndex, s: StorageManifest| index_is(k, i) && manifest_is(k, s) && #[trigger] content_bad(k, i, s)
}
/// the store in the bytes of a file
pub open spec fn store_of(s: OneStore, b: Seq<u8>) -> bool { exists|k: OneStorePackaging, i: StorageIndex, m: StorageManifest| #[trigger] crate::fsshttpb::packaging::packed(k, b) && #[trigger] store_is(s, k, i, m) }
pub broadcast proof fn store_found(s: OneStore, b: Seq<u8>, k: OneStorePackaging, i: StorageIndex, m: StorageManifest) requires #[trigger] crate::fsshttpb::packaging::packed(k, b), #[trigger] store_is(s, k, i, m) ensures store_of(s, b) {}
pub proof fn thm_index_unique(k: OneStorePackaging, a: StorageIndex, b: StorageIndex) requires index_is(k, a), index_is(k, b) ensures a == b
{
    let m = k.data_element_package.storage_indexes@;
    if at(m, k.storage_index) is None {
        let x = choose|id: ExGuid| #[trigger] m.contains_key(id) && least_key(m, id) && a == m[id]; let y = choose|id: ExGuid| #[trigger] m.contains_key(id) && least_key(m, id) && b == m[id];
        crate::fsshttpb::data_element::thm_least_unique(m, x, y);
    }
}
pub proof fn thm_manifest_unique(k: OneStorePackaging, a: StorageManifest, b: StorageManifest) requires manifest_is(k, a), manifest_is(k, b) ensures a == b
{
    let m = k.data_element_package.storage_manifests@;
    let x = choose|id: ExGuid| #[trigger] m.contains_key(id) && least_key(m, id) && a == m[id]; let y = choose|id: ExGuid| #[trigger] m.contains_key(id) && least_key(m, id) && b == m[id];
    crate::fsshttpb::data_element::thm_least_unique(m, x, y);
}
/// two stores that no reader can tell apart
pub open spec fn same_store(a: OneStore, b: OneStore) -> bool {
    &&& a.schema == b.schema && crate::onestore::object_space::same_space(a.data_root, b.data_root)
    &&& forall|c: CellId| #[trigger] a.object_spaces@.contains_key(c) <==> b.object_spaces@.contains_key(c)
    &&& forall|c: CellId| #[trigger] a.object_spaces@.contains_key(c) ==> crate::onestore::object_space::same_space(a.object_spaces@[c], b.object_spaces@[c])
}
/// a store is determined by the package it was parsed from, whatever the order in which maps hold their entries
pub proof fn thm_store_unique(a: OneStore, b: OneStore, k: OneStorePackaging, ia: StorageIndex, ib: StorageIndex, sa: StorageManifest, sb: StorageManifest) requires store_is(a, k, ia, sa), store_is(b, k, ib, sb) ensures same_store(a, b)
{
    thm_index_unique(k, ia, ib); thm_manifest_unique(k, sa, sb);
    crate::onestore::object_space::thm_space_unique(a.data_root, b.data_root, ia.cell_mappings@[sa.roots@[data_root_id()]], ia, k);
    assert forall|c: CellId| #[trigger] a.object_spaces@.contains_key(c) <==> b.object_spaces@.contains_key(c) by { assert(b.object_spaces@.contains_key(c) <==> own_space(ib, sb, c)); }
    assert forall|c: CellId| #[trigger] a.object_spaces@.contains_key(c) implies crate::onestore::object_space::same_space(a.object_spaces@[c], b.object_spaces@[c]) by { assert(b.object_spaces@.contains_key(c)); crate::onestore::object_space::thm_space_unique(a.object_spaces@[c], b.object_spaces@[c], ia.cell_mappings@[c], ia, k); }
}
#fn OneStore::schema_guid
ensures r == self.schema
#fn OneStore::data_root
ensures *r == self.data_root
#fn OneStore::object_space
ensures match r { Some(s) => self.object_spaces@.contains_key(space_id) && *s == self.object_spaces@[space_id], None => !self.object_spaces@.contains_key(space_id) }
#fn parse_object_space
requires old(revision_cache)@ == Map::<CellId, Revision<'a>>::empty()
ensures final(revision_cache)@ == old(revision_cache)@, match r { Ok((c, s)) => storage_index.cell_mappings@.contains_key(cell_id) && c == storage_index.cell_mappings@[cell_id].cell_id && space_is(s, storage_index.cell_mappings@[cell_id], *storage_index, *package),
    Err(_) => !storage_index.cell_mappings@.contains_key(cell_id) || space_bad(storage_index.cell_mappings@[cell_id], *storage_index, *package) }
#fn find_header_cell_id
ensures match r { Ok(c) => at(manifest.roots@, header_root_id()) == Some(c), Err(_) => !manifest.roots@.contains_key(header_root_id()) }
#fn find_data_root_cell_id
ensures match r { Ok(c) => at(manifest.roots@, data_root_id()) == Some(c), Err(_) => !manifest.roots@.contains_key(data_root_id()) }
#fn parse_store
requires crate::fsshttpb::packaging::own_indexes(package.data_element_package)
ensures match r { Ok(s) => exists|i: StorageIndex, m: StorageManifest| #[trigger] store_is(s, *package, i, m), Err(_) => store_bad(*package) }
#loop 0
    invariant crate::ext::vx_enum_values(__src0@, storage_index.cell_mappings@), revision_cache@ == Map::<CellId, Revision<'_>>::empty(),
        forall|c: CellId| #[trigger] object_spaces@.contains_key(c) ==> own_space(*storage_index, *storage_manifest, c) && space_is(object_spaces@[c], storage_index.cell_mappings@[c], *storage_index, *package),
        forall|j: int| 0 <= j < __k0 ==> own_space(*storage_index, *storage_manifest, (#[trigger] __src0@[j]).cell_id) ==> object_spaces@.contains_key(__src0@[j].cell_id),
#before let header_cell_id
assert(index_is(*package, *storage_index) && manifest_is(*package, *storage_manifest));
assert(content_bad(*package, *storage_index, *storage_manifest) ==> store_bad(*package));
assert(head_bad(package.data_element_package, *storage_index, *storage_manifest) ==> content_bad(*package, *storage_index, *storage_manifest));
#before let (id, group)
assert(storage_index.cell_mappings@.contains_key(mapping.cell_id) ==> storage_index.cell_mappings@[mapping.cell_id] == *mapping ==> bad_cell(*package, *storage_index, *storage_manifest, mapping.cell_id) == space_bad(*mapping, *storage_index, *package));
#after 0
assert forall|c: CellId| own_space(*storage_index, *storage_manifest, c) implies object_spaces@.contains_key(c) by { }
assert(header_is(header, package.data_element_package, *storage_index, *storage_manifest));
assert(space_is(data_root, storage_index.cell_mappings@[storage_manifest.roots@[data_root_id()]], *storage_index, *package));
let ghost sp = OneStore { schema: storage_manifest.id, header, data_root, object_spaces };
assert(store_is(sp, *package, *storage_index, *storage_manifest));
