#prelude
/// the object of a space under an id
pub open spec fn has_o(s: ObjectSpace, id: ExGuid) -> bool { s.objects@.contains_key(id) }
pub open spec fn ob(s: ObjectSpace, id: ExGuid) -> Object { s.objects@[id] }
/// the object that is a space's root of a kind
pub open spec fn root_ob(s: ObjectSpace, r: RevisionRole) -> Option<Object> { match at(s.roots@, r) { Some(id) => if has_o(s, id) { Some(ob(s, id)) } else { None }, None => None } }
use crate::fsshttpb::data_element::storage_index::{serial_is, thm_serial_unique};
use crate::onestore::revision::{Ctx, base_of, filled, fill_bad, first_grp, roots_ok, root_of, grps_there, at, rooted, rev_bad, lemma_first_more, og_declares, obj_of, obj_not};
use crate::fsshttpb::data_element::{DataElementPackage, cell_rev_manifest_id};
use crate::fsshttpb::data::exguid::nil_exguid;
pub open spec fn rm(p: DataElementPackage, id: ExGuid) -> crate::fsshttpb::data_element::revision_manifest::RevisionManifest { p.revision_manifests@[id] }
/// the revision manifests of an object space, newest first
pub open spec fn rev_at(p: DataElementPackage, i: StorageIndex, start: ExGuid, n: int) -> Option<ExGuid> decreases n {
    if n <= 0 { Some(start) } else { match rev_at(p, i, start, n - 1) { None => None, Some(id) => if !p.revision_manifests@.contains_key(id) { None } else { match base_of(p, i, rm(p, id)) { Some(Some(b)) => Some(b), _ => None } } } }
}
/// the groups of the newest `n` revisions, newest first
pub open spec fn chain_refs(p: DataElementPackage, i: StorageIndex, start: ExGuid, n: int) -> Seq<ExGuid> decreases n {
    if n <= 0 { Seq::empty() } else { chain_refs(p, i, start, n - 1) + rm(p, rev_at(p, i, start, n - 1).unwrap()).group_references@ }
}
/// the newest declaration of a root
pub open spec fn chain_root(p: DataElementPackage, i: StorageIndex, start: ExGuid, role: RevisionRole, n: int) -> Option<ExGuid> decreases n {
    if n <= 0 { None } else { match chain_root(p, i, start, role, n - 1) { Some(x) => Some(x), None => { let m = rm(p, rev_at(p, i, start, n - 1).unwrap()); root_of(m, role, m.root_declare@.len() as int) } } }
}
pub open spec fn rev_ok(p: DataElementPackage, i: StorageIndex, r: Option<ExGuid>) -> bool {
    r matches Some(id) && p.revision_manifests@.contains_key(id) && base_of(p, i, rm(p, id)) is Some && roots_ok(rm(p, id)) && grps_there(p, rm(p, id).group_references@, rm(p, id).group_references@.len() as int)
}
pub open spec fn chain_ok(p: DataElementPackage, i: StorageIndex, start: ExGuid, n: int) -> bool { forall|k: int| 0 <= k < n ==> rev_ok(p, i, #[trigger] rev_at(p, i, start, k)) }
/// the content of an object space whose newest revision is `start` and which has `n` revisions
pub open spec fn content_is(m: Map<ExGuid, Object>, roots: Map<RevisionRole, ExGuid>, c: Ctx, i: StorageIndex, start: ExGuid, n: int) -> bool {
    &&& n > 0 && chain_ok(c.p(), i, start, n) && rev_at(c.p(), i, start, n) is None
    &&& filled(Map::empty(), m, c, chain_refs(c.p(), i, start, n), chain_refs(c.p(), i, start, n).len() as int)
    &&& forall|r: RevisionRole| #[trigger] at(roots, r) == chain_root(c.p(), i, start, r, n)
}
/// the chain of revisions is broken at its `n`th one
pub open spec fn chain_bad(c: Ctx, i: StorageIndex, start: ExGuid, n: int) -> bool {
    n >= 0 && rev_at(c.p(), i, start, n) is Some && (!rev_ok(c.p(), i, rev_at(c.p(), i, start, n)) || (exists|k: int| 0 <= k < n && #[trigger] rev_at(c.p(), i, start, k) == rev_at(c.p(), i, start, n))
        || fill_bad(Map::empty(), c, chain_refs(c.p(), i, start, n + 1), chain_refs(c.p(), i, start, n + 1).len() as int))
}
/// the newest revision of a cell: what its manifest maps to or, failing that, what has its serial number
pub open spec fn start_is(p: DataElementPackage, i: StorageIndex, m: StorageIndexCellMapping, id: ExGuid) -> bool {
    match cell_rev_manifest_id(p, i, m.id) { Some(x) => id == x, None => serial_is(i, m.serial, Some(id)) }
}
pub open spec fn no_start(p: DataElementPackage, i: StorageIndex, m: StorageIndexCellMapping) -> bool {
    cell_rev_manifest_id(p, i, m.id) is None && serial_is(i, m.serial, None)
}
pub open spec fn cell_nil(p: DataElementPackage, m: StorageIndexCellMapping) -> bool { p.cell_manifests@.contains_key(m.id) && p.cell_manifests@[m.id] == nil_exguid() }
/// `s` is the object space of a cell
pub open spec fn space_is(s: ObjectSpace, m: StorageIndexCellMapping, i: StorageIndex, k: OneStorePackaging) -> bool {
    let p = k.data_element_package;
    &&& s.context == m.cell_id.0 && s.id == m.cell_id.1
    &&& if no_start(p, i, m) { cell_nil(p, m) && s.objects@ == Map::<ExGuid, Object>::empty() && s.roots@ == Map::<RevisionRole, ExGuid>::empty() }
        else { exists|start: ExGuid, n: int| start_is(p, i, m, start) && #[trigger] content_is(s.objects@, s.roots@, Ctx { ctx: m.cell_id.0, space: m.cell_id.1, k: k }, i, start, n) }
}
pub open spec fn space_bad(m: StorageIndexCellMapping, i: StorageIndex, k: OneStorePackaging) -> bool {
    let p = k.data_element_package;
    if no_start(p, i, m) { !cell_nil(p, m) } else { exists|start: ExGuid, n: int| start_is(p, i, m, start) && #[trigger] chain_bad(Ctx { ctx: m.cell_id.0, space: m.cell_id.1, k: k }, i, start, n) }
}
pub proof fn lemma_front(p: DataElementPackage, a: Seq<ExGuid>, b: Seq<ExGuid>, id: ExGuid, n: int) requires 0 <= n <= a.len() ensures first_grp(p, a + b, id, n) == first_grp(p, a, id, n) decreases n
{ if n > 0 { lemma_front(p, a, b, id, n - 1); assert((a + b)[n - 1] == a[n - 1]); } }
pub proof fn lemma_concat(p: DataElementPackage, a: Seq<ExGuid>, b: Seq<ExGuid>, id: ExGuid, n: int) requires 0 <= n <= b.len()
    ensures first_grp(p, a + b, id, a.len() + n) == (match first_grp(p, a, id, a.len() as int) { Some(j) => Some(j), None => match first_grp(p, b, id, n) { Some(j) => Some(j + a.len()), None => None } }) decreases n
{ if n > 0 { lemma_concat(p, a, b, id, n - 1); assert((a + b)[a.len() + n - 1] == b[n - 1]); } else { lemma_front(p, a, b, id, a.len() as int); } }
pub proof fn lemma_first_in(p: DataElementPackage, a: Seq<ExGuid>, id: ExGuid, n: int) ensures match first_grp(p, a, id, n) { Some(j) => 0 <= j < n, None => true } decreases n { if n > 0 { lemma_first_in(p, a, id, n - 1); } }
pub proof fn lemma_fill_more(o: Map<ExGuid, Object>, m: Map<ExGuid, Object>, f: Map<ExGuid, Object>, c: Ctx, a: Seq<ExGuid>, b: Seq<ExGuid>)
    requires filled(o, m, c, a, a.len() as int), filled(m, f, c, b, b.len() as int) ensures filled(o, f, c, a + b, (a + b).len() as int)
{
    assert forall|id: ExGuid| (#[trigger] f.contains_key(id) <==> o.contains_key(id) || first_grp(c.p(), a + b, id, (a + b).len() as int) is Some)
        && (f.contains_key(id) ==> (if o.contains_key(id) { f[id] == o[id] } else { obj_of(f[id], id, c, (a + b)[first_grp(c.p(), a + b, id, (a + b).len() as int).unwrap()]) })) by {
        lemma_concat(c.p(), a, b, id, b.len() as int); lemma_first_in(c.p(), a, id, a.len() as int); lemma_first_in(c.p(), b, id, b.len() as int);
        assert(m.contains_key(id) <==> o.contains_key(id) || first_grp(c.p(), a, id, a.len() as int) is Some);
    }
}
pub proof fn lemma_fill_bad(o: Map<ExGuid, Object>, m: Map<ExGuid, Object>, c: Ctx, a: Seq<ExGuid>, b: Seq<ExGuid>)
    requires filled(o, m, c, a, a.len() as int), fill_bad(m, c, b, b.len() as int) ensures fill_bad(o, c, a + b, (a + b).len() as int)
{
    let id = choose|id: ExGuid| !m.contains_key(id) && #[trigger] first_grp(c.p(), b, id, b.len() as int) is Some && obj_not(id, c, b[first_grp(c.p(), b, id, b.len() as int).unwrap()]);
    lemma_concat(c.p(), a, b, id, b.len() as int); lemma_first_in(c.p(), b, id, b.len() as int);
    assert(!o.contains_key(id) && first_grp(c.p(), a, id, a.len() as int) is None);
    assert(first_grp(c.p(), a + b, id, (a + b).len() as int) is Some);
}
/// two object spaces that no reader can tell apart
pub open spec fn same_space(a: ObjectSpace, b: ObjectSpace) -> bool {
    &&& a.id == b.id && a.context == b.context
    &&& forall|r: RevisionRole| #[trigger] at(a.roots@, r) == at(b.roots@, r)
    &&& forall|id: ExGuid| #[trigger] a.objects@.contains_key(id) <==> b.objects@.contains_key(id)
    &&& forall|id: ExGuid| #[trigger] a.objects@.contains_key(id) ==> crate::onestore::object::same_object(a.objects@[id], b.objects@[id])
}
pub proof fn thm_start_unique(p: DataElementPackage, i: StorageIndex, m: StorageIndexCellMapping, x: ExGuid, y: ExGuid) requires start_is(p, i, m, x), start_is(p, i, m, y) ensures x == y
{ if cell_rev_manifest_id(p, i, m.id) is None { thm_serial_unique(i, m.serial, Some(x), Some(y)); } }
/// an object space is determined by what the package stores, whatever the order in which maps hold their entries
pub proof fn thm_space_unique(a: ObjectSpace, b: ObjectSpace, m: StorageIndexCellMapping, i: StorageIndex, k: OneStorePackaging) requires space_is(a, m, i, k), space_is(b, m, i, k) ensures same_space(a, b)
{
    let p = k.data_element_package;
    if !no_start(p, i, m) {
        let c = Ctx { ctx: m.cell_id.0, space: m.cell_id.1, k: k };
        let (sa, na) = choose|start: ExGuid, n: int| start_is(p, i, m, start) && #[trigger] content_is(a.objects@, a.roots@, c, i, start, n);
        let (sb, nb) = choose|start: ExGuid, n: int| start_is(p, i, m, start) && #[trigger] content_is(b.objects@, b.roots@, c, i, start, n);
        thm_start_unique(p, i, m, sa, sb);
        if na < nb { assert(rev_ok(p, i, rev_at(p, i, sa, na))); } if nb < na { assert(rev_ok(p, i, rev_at(p, i, sa, nb))); }
        let refs = chain_refs(p, i, sa, na); let l = refs.len() as int;
        assert forall|r: RevisionRole| #[trigger] at(a.roots@, r) == at(b.roots@, r) by { assert(at(b.roots@, r) == chain_root(p, i, sa, r, na)); }
        assert forall|id: ExGuid| #[trigger] a.objects@.contains_key(id) <==> b.objects@.contains_key(id) by { assert(b.objects@.contains_key(id) <==> first_grp(p, refs, id, l) is Some); }
        assert forall|id: ExGuid| #[trigger] a.objects@.contains_key(id) implies crate::onestore::object::same_object(a.objects@[id], b.objects@[id]) by {
            assert(b.objects@.contains_key(id));
            let g = p.object_groups@[refs[first_grp(p, refs, id, l).unwrap()]];
            crate::onestore::object::thm_object_unique(a.objects@[id], b.objects@[id], id, c.ctx, c.space, crate::onestore::revision::og_map(g, crate::onestore::revision::og_both(g)), k);
        }
    }
}
#fn ObjectSpace::get_object
ensures match r { Some(o) => self.objects@.contains_key(id) && *o == self.objects@[id], None => !self.objects@.contains_key(id) }
#fn ObjectSpace::content_root
ensures r == at(self.roots@, RevisionRole::DefaultContent)
#fn ObjectSpace::metadata_root
ensures r == at(self.roots@, RevisionRole::Metadata)
#fn ObjectSpace::parse
requires old(revision_cache)@ == Map::<CellId, Revision<'a>>::empty()
ensures final(revision_cache)@ == old(revision_cache)@, match r { Ok((c, s)) => c == mapping.cell_id && space_is(s, *mapping, *storage_index, *packaging), Err(_) => space_bad(*mapping, *storage_index, *packaging) }
#entry
    let ghost __p = packaging.data_element_package; let ghost __c = Ctx { ctx: mapping.cell_id.0, space: mapping.cell_id.1, k: *packaging }; let ghost mut __n = 0int; let ghost mut __start = nil_exguid();
#pre 0
    proof { __start = rev_id.unwrap(); assert(start_is(__p, *storage_index, *mapping, __start)); assert(filled(Map::empty(), objects@, __c, chain_refs(__p, *storage_index, __start, 0), 0)); }
#loop 0
    invariant __n >= 0, revision_cache@ == Map::<CellId, Revision<'a>>::empty(), start_is(__p, *storage_index, *mapping, __start),
        rev_id == rev_at(__p, *storage_index, __start, __n), chain_ok(__p, *storage_index, __start, __n), rev_id is None ==> __n > 0,
        filled(Map::empty(), objects@, __c, chain_refs(__p, *storage_index, __start, __n), chain_refs(__p, *storage_index, __start, __n).len() as int),
        forall|r: RevisionRole| #[trigger] at(roots@, r) == chain_root(__p, *storage_index, __start, r, __n),
        forall|id: ExGuid| #[trigger] visited@.contains(id) <==> exists|k: int| 0 <= k < __n && #[trigger] rev_at(__p, *storage_index, __start, k) == Some(id),
        visited@.subset_of(__p.revision_manifests@.dom()),
    decreases __p.revision_manifests@.dom().len() - visited@.len(),
#start 0
    let ghost __v = visited@; let ghost __o = objects@; let ghost __refs = chain_refs(__p, *storage_index, __start, __n); let ghost __id = rev_id.unwrap();
    proof { vstd::set_lib::lemma_len_subset(__v, __p.revision_manifests@.dom());
        assert(chain_refs(__p, *storage_index, __start, __n + 1) == __refs + rm(__p, __id).group_references@);
        assert(fill_bad(__o, __c, rm(__p, __id).group_references@, rm(__p, __id).group_references@.len() as int) ==> chain_bad(__c, *storage_index, __start, __n)) by {
            if fill_bad(__o, __c, rm(__p, __id).group_references@, rm(__p, __id).group_references@.len() as int) { lemma_fill_bad(Map::empty(), __o, __c, __refs, rm(__p, __id).group_references@); } }
        if visited@.contains(__id) { assert(chain_bad(__c, *storage_index, __start, __n)); }
        if !rev_ok(__p, *storage_index, Some(__id)) { assert(chain_bad(__c, *storage_index, __start, __n)); } }
#end 0
    proof { lemma_fill_more(Map::empty(), __o, objects@, __c, __refs, rm(__p, __id).group_references@); 
        vstd::set_lib::lemma_len_subset(visited@, __p.revision_manifests@.dom()); __n = __n + 1; }
#after 0
    proof { assert(!no_start(__p, *storage_index, *mapping)); let sp = ObjectSpace { id: mapping.cell_id.1, context: mapping.cell_id.0, roots: roots, objects: objects }; assert(content_is(sp.objects@, sp.roots@, __c, *storage_index, __start, __n)); }
