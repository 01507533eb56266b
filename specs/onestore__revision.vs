#prelude
use crate::onestore::revision_role::role_of;
use crate::onestore::object::{obj_is, obj_bad};
use crate::fsshttpb::data_element::{rev_manifest_id, DataElementPackage};
use crate::fsshttpb::data_element::object_group::{ObjectGroup, ObjectGroupData};
use crate::fsshttpb::data_element::revision_manifest::RevisionManifest;
/// the data of a group by object id and partition: each declaration goes with the data at its place; the last one of a kind counts
pub open spec fn og_map<'a>(g: ObjectGroup, n: int) -> Map<(ExGuid, u64), &'a ObjectGroupData> decreases n {
    if n <= 0 { Map::empty() } else { og_map(g, n - 1).insert((g.declarations@[n - 1].oid(), g.declarations@[n - 1].part()), &g.objects@[n - 1]) }
}
pub open spec fn og_both(g: ObjectGroup) -> int { crate::ext::vx_min(g.declarations@.len() as int, g.objects@.len() as int) }
pub open spec fn declares(g: ObjectGroup, id: ExGuid, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] g.declarations@[i]).oid() == id }
pub open spec fn og_declares(p: DataElementPackage, gid: ExGuid, id: ExGuid) -> bool { declares(p.object_groups@[gid], id, p.object_groups@[gid].declarations@.len() as int) }
/// the first of the groups that declares an object
pub open spec fn first_grp(p: DataElementPackage, refs: Seq<ExGuid>, id: ExGuid, n: int) -> Option<int> decreases n {
    if n <= 0 { None } else { match first_grp(p, refs, id, n - 1) { Some(j) => Some(j), None => if og_declares(p, refs[n - 1], id) { Some(n - 1) } else { None } } }
}
pub struct Ctx { pub ctx: ExGuid, pub space: ExGuid, pub k: OneStorePackaging }
impl Ctx { pub open spec fn p(self) -> DataElementPackage { self.k.data_element_package } }
/// `o` is the object `id` as it is stored in a group
pub open spec fn obj_of(o: Object, id: ExGuid, c: Ctx, gid: ExGuid) -> bool {
    obj_is(o, id, c.ctx, c.space, og_map(c.p().object_groups@[gid], og_both(c.p().object_groups@[gid])), c.k) && c.p().object_groups@[gid].declarations@.len() == c.p().object_groups@[gid].objects@.len()
}
pub open spec fn obj_not(id: ExGuid, c: Ctx, gid: ExGuid) -> bool {
    obj_bad(id, og_map(c.p().object_groups@[gid], og_both(c.p().object_groups@[gid])), c.k) || c.p().object_groups@[gid].declarations@.len() != c.p().object_groups@[gid].objects@.len()
}
/// `n` is `o` with the objects of the first `n` groups filled in: what is there stays, a new object comes from the first group that declares it
pub open spec fn filled(o: Map<ExGuid, Object>, m: Map<ExGuid, Object>, c: Ctx, refs: Seq<ExGuid>, n: int) -> bool {
    (forall|id: ExGuid| #[trigger] m.contains_key(id) <==> o.contains_key(id) || first_grp(c.p(), refs, id, n) is Some)
    && (forall|id: ExGuid| #[trigger] m.contains_key(id) ==> (if o.contains_key(id) { m[id] == o[id] } else { obj_of(m[id], id, c, refs[first_grp(c.p(), refs, id, n).unwrap()]) }))
}
/// one of the objects to be filled in is malformed
pub open spec fn fill_bad(o: Map<ExGuid, Object>, c: Ctx, refs: Seq<ExGuid>, n: int) -> bool {
    exists|id: ExGuid| !o.contains_key(id) && #[trigger] first_grp(c.p(), refs, id, n) is Some && obj_not(id, c, refs[first_grp(c.p(), refs, id, n).unwrap()])
}
pub open spec fn grps_there(p: DataElementPackage, refs: Seq<ExGuid>, n: int) -> bool { forall|i: int| 0 <= i < n ==> p.object_groups@.contains_key(#[trigger] refs[i]) }
/// the object a revision declares as root: the last declaration of the role counts
pub open spec fn root_of(m: RevisionManifest, role: RevisionRole, n: int) -> Option<ExGuid> decreases n {
    if n <= 0 { None } else if role_of(m.root_declare@[n - 1].root_id) == Some(role) { Some(m.root_declare@[n - 1].object_id) } else { root_of(m, role, n - 1) }
}
pub open spec fn roots_ok(m: RevisionManifest) -> bool { forall|i: int| 0 <= i < m.root_declare@.len() ==> role_of((#[trigger] m.root_declare@[i]).root_id) is Some }
pub open spec fn at<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// `n` is `o` with the roots of a revision filled in
pub open spec fn rooted(o: Map<RevisionRole, ExGuid>, n: Map<RevisionRole, ExGuid>, m: RevisionManifest) -> bool {
    forall|r: RevisionRole| #[trigger] at(n, r) == (match at(o, r) { Some(x) => Some(x), None => root_of(m, r, m.root_declare@.len() as int) })
}
/// the base revision: none, or a revision that is there
pub open spec fn base_of(p: DataElementPackage, i: StorageIndex, m: RevisionManifest) -> Option<Option<ExGuid>> {
    if m.base_rev_id == crate::fsshttpb::data::exguid::nil_exguid() { Some(None) } else { match rev_manifest_id(p, i, m.base_rev_id) { Some(x) => Some(Some(x)), None => None } }
}
/// what a revision cannot be completed for
pub open spec fn rev_bad(o: Map<ExGuid, Object>, c: Ctx, i: StorageIndex, id: ExGuid) -> bool {
    !c.p().revision_manifests@.contains_key(id) || ({ let m = c.p().revision_manifests@[id];
        base_of(c.p(), i, m) is None || !roots_ok(m) || !grps_there(c.p(), m.group_references@, m.group_references@.len() as int) || fill_bad(o, c, m.group_references@, m.group_references@.len() as int) })
}
pub proof fn lemma_first(p: DataElementPackage, refs: Seq<ExGuid>, id: ExGuid, n: int)
    ensures match first_grp(p, refs, id, n) { Some(j) => 0 <= j < n && og_declares(p, refs[j], id) && (forall|i: int| 0 <= i < j ==> !og_declares(p, #[trigger] refs[i], id)), None => forall|i: int| 0 <= i < n ==> !og_declares(p, #[trigger] refs[i], id) }
    decreases n
{ if n > 0 { lemma_first(p, refs, id, n - 1); } }
/// the first group stays the first one when more groups follow
pub proof fn lemma_first_more(p: DataElementPackage, refs: Seq<ExGuid>, id: ExGuid, n: int, k: int)
    requires first_grp(p, refs, id, n) is Some, n <= k ensures first_grp(p, refs, id, k) == first_grp(p, refs, id, n) decreases k
{ if k > n { lemma_first_more(p, refs, id, n, k - 1); } }
pub proof fn lemma_bad_more(o: Map<ExGuid, Object>, c: Ctx, refs: Seq<ExGuid>, n: int, k: int)
    requires fill_bad(o, c, refs, n), n <= k ensures fill_bad(o, c, refs, k)
{ let id = choose|id: ExGuid| !o.contains_key(id) && #[trigger] first_grp(c.p(), refs, id, n) is Some && obj_not(id, c, refs[first_grp(c.p(), refs, id, n).unwrap()]); lemma_first_more(c.p(), refs, id, n, k); assert(!o.contains_key(id)); }
/// one more group
pub proof fn lemma_filled_step(o: Map<ExGuid, Object>, m: Map<ExGuid, Object>, f: Map<ExGuid, Object>, c: Ctx, refs: Seq<ExGuid>, n: int)
    requires filled(o, m, c, refs, n), filled(m, f, c, seq![refs[n]], 1), 0 <= n ensures filled(o, f, c, refs, n + 1)
{
    assert forall|id: ExGuid| (#[trigger] f.contains_key(id) <==> o.contains_key(id) || first_grp(c.p(), refs, id, n + 1) is Some)
        && (f.contains_key(id) ==> (if o.contains_key(id) { f[id] == o[id] } else { obj_of(f[id], id, c, refs[first_grp(c.p(), refs, id, n + 1).unwrap()]) })) by {
        assert(m.contains_key(id) <==> o.contains_key(id) || first_grp(c.p(), refs, id, n) is Some);
        assert(first_grp(c.p(), seq![refs[n]], id, 0) is None); assert(first_grp(c.p(), seq![refs[n]], id, 1) == (if og_declares(c.p(), refs[n], id) { Some(0int) } else { None }));
    }
}
pub proof fn lemma_bad_step(o: Map<ExGuid, Object>, m: Map<ExGuid, Object>, c: Ctx, refs: Seq<ExGuid>, n: int)
    requires filled(o, m, c, refs, n), fill_bad(m, c, seq![refs[n]], 1), 0 <= n ensures fill_bad(o, c, refs, n + 1)
{
    let s = seq![refs[n]];
    let id = choose|id: ExGuid| !m.contains_key(id) && #[trigger] first_grp(c.p(), s, id, 1) is Some && obj_not(id, c, s[first_grp(c.p(), s, id, 1).unwrap()]);
    assert(first_grp(c.p(), s, id, 0) is None); assert(first_grp(c.p(), refs, id, n) is None); assert(first_grp(c.p(), refs, id, n + 1) == Some(n)); assert(!o.contains_key(id));
}
pub open spec fn keyin<K, V>(s: Seq<(K, V)>, k: K, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k }
pub proof fn lemma_entry<K, V>(s: Seq<(K, V)>, m: Map<K, V>, i: int) requires crate::ext::vx_enum_entries(s, m), 0 <= i < s.len()
    ensures m.contains_key(s[i].0), m[s[i].0] == s[i].1, forall|k: K| #[trigger] keyin(s, k, i + 1) <==> keyin(s, k, i) || k == s[i].0, !keyin(s, s[i].0, i)
{ let ks = choose|ks: Seq<K>| #[trigger] crate::ext::vx_key_enum(ks, m) && ks.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == ks[i] && s[i].1 == m[ks[i]]); assert(ks[i] == s[i].0); assert(ks.contains(ks[i]));
  assert forall|k: K| #[trigger] keyin(s, k, i + 1) <==> keyin(s, k, i) || k == s[i].0 by { if keyin(s, k, i) { let j = choose|j: int| 0 <= j < i && (#[trigger] s[j]).0 == k; assert(s[j].0 == k); } } 
  if keyin(s, s[i].0, i) { let j = choose|j: int| 0 <= j < i && (#[trigger] s[j]).0 == s[i].0; assert(ks[j] == ks[i]); } }
pub proof fn lemma_has<K, V>(s: Seq<(K, V)>, m: Map<K, V>, k: K) requires crate::ext::vx_enum_entries(s, m) ensures keyin(s, k, s.len() as int) == m.contains_key(k)
{ let ks = choose|ks: Seq<K>| #[trigger] crate::ext::vx_key_enum(ks, m) && ks.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == ks[i] && s[i].1 == m[ks[i]]);
  if m.contains_key(k) { assert(ks.contains(k)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; assert(s[j].0 == k); } else if keyin(s, k, s.len() as int) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k; assert(ks[j] == k); assert(ks.contains(ks[j])); } }
pub proof fn lemma_one(p: DataElementPackage, gid: ExGuid, id: ExGuid) ensures first_grp(p, seq![gid], id, 1) == (if og_declares(p, gid, id) { Some(0int) } else { None }) { assert(first_grp(p, seq![gid], id, 0) is None); }
pub proof fn lemma_declares(g: ObjectGroup, id: ExGuid, n: int) requires 0 <= n ensures declares(g, id, n + 1) == (declares(g, id, n) || g.declarations@[n].oid() == id) { if declares(g, id, n) { let i = choose|i: int| 0 <= i < n && (#[trigger] g.declarations@[i]).oid() == id; assert(g.declarations@[i].oid() == id); } }
#fn Revision::parse
requires old(revision_cache)@ == Map::<CellId, Revision<'a>>::empty()
ensures final(revision_cache)@ == old(revision_cache)@, ({ let c = Ctx { ctx: context_id, space: object_space_id, k: *packaging }; let p = packaging.data_element_package; match r {
    Ok(base) => p.revision_manifests@.contains_key(revision_manifest_id) && ({ let m = p.revision_manifests@[revision_manifest_id];
        base_of(p, *storage_index, m) == Some(base) && roots_ok(m) && rooted(old(roots)@, final(roots)@, m) && grps_there(p, m.group_references@, m.group_references@.len() as int)
        && filled(old(objects)@, final(objects)@, c, m.group_references@, m.group_references@.len() as int) }),
    Err(_) => rev_bad(old(objects)@, c, *storage_index, revision_manifest_id) } })
#entry
    let ghost __c = Ctx { ctx: context_id, space: object_space_id, k: *packaging }; let ghost __o = objects@; let ghost __r = roots@;
#loop 0
    invariant crate::ext::vx_refs(__src0@, revision_manifest.root_declare@),
        forall|i: int| 0 <= i < __k0 ==> role_of((#[trigger] revision_manifest.root_declare@[i]).root_id) is Some,
        forall|x: RevisionRole| #[trigger] at(__out0@, x) == root_of(*revision_manifest, x, __k0 as int),
#start 0
    let ghost __b = __out0@; assert(*__src0@[__k0 as int] == revision_manifest.root_declare@[__k0 as int]);
#end 0
    proof { assert forall|x: RevisionRole| #[trigger] at(__out0@, x) == root_of(*revision_manifest, x, __k0 as int) by { assert(at(__b, x) == root_of(*revision_manifest, x, __k0 - 1)); } }
#loop 1
    invariant crate::ext::vx_enum_entries(__src1@, declared@), objects@ == __o,
        forall|x: RevisionRole| #[trigger] at(roots@, x) == (match at(__r, x) { Some(v) => Some(v), None => if keyin(__src1@, x, __k1 as int) { at(declared@, x) } else { None } }),
#start 1
    let ghost __b = roots@; let ghost __j = __k1 as int; proof { lemma_entry(__src1@, declared@, __j); }
#end 1
    proof { assert forall|x: RevisionRole| #[trigger] at(roots@, x) == (match at(__r, x) { Some(v) => Some(v), None => if keyin(__src1@, x, __k1 as int) { at(declared@, x) } else { None } }) by {
        assert(at(__b, x) == (match at(__r, x) { Some(v) => Some(v), None => if keyin(__src1@, x, __j) { at(declared@, x) } else { None } })); } }
#after 1
    proof { assert forall|x: RevisionRole| #[trigger] at(roots@, x) == (match at(__r, x) { Some(v) => Some(v), None => at(declared@, x) }) by { lemma_has(__src1@, declared@, x); } }
#loop 2
    invariant crate::ext::vx_refs(__src2@, revision_manifest.group_references@), filled(__o, objects@, __c, revision_manifest.group_references@, __k2 as int), grps_there(packaging.data_element_package, revision_manifest.group_references@, __k2 as int),
#start 2
    let ghost __b = objects@; assert(*__src2@[__k2 as int] == revision_manifest.group_references@[__k2 as int]);
    proof { assert(fill_bad(__b, __c, seq![revision_manifest.group_references@[__k2 as int]], 1) ==> fill_bad(__o, __c, revision_manifest.group_references@, revision_manifest.group_references@.len() as int)) by { if fill_bad(__b, __c, seq![revision_manifest.group_references@[__k2 as int]], 1) {
        lemma_bad_step(__o, __b, __c, revision_manifest.group_references@, __k2 as int); lemma_bad_more(__o, __c, revision_manifest.group_references@, __k2 + 1, revision_manifest.group_references@.len() as int); } } }
#end 2
    proof { lemma_filled_step(__o, __b, objects@, __c, revision_manifest.group_references@, __k2 - 1); }
#fn Revision::parse_group
ensures ({ let c = Ctx { ctx: context_id, space: object_space_id, k: *packaging }; let p = packaging.data_element_package; match r {
    Ok(_) => p.object_groups@.contains_key(group_id) && filled(old(objects)@, final(objects)@, c, seq![group_id], 1),
    Err(_) => !p.object_groups@.contains_key(group_id) || fill_bad(old(objects)@, c, seq![group_id], 1) } })
#entry
    let ghost __c = Ctx { ctx: context_id, space: object_space_id, k: *packaging }; let ghost __o = objects@;
#loop 0
    invariant crate::ext::vx_refs(__src0@, group.declarations@), __out0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __out0@[i] == group.declarations@[i].oid(),
#start 0
    assert(*__src0@[__k0 as int] == group.declarations@[__k0 as int]);
#loop 1
    invariant __src1@.len() == og_both(*group), __out1@ == og_map(*group, __k1 as int),
#end 1
    proof { assert(__out1@ =~= og_map(*group, __k1 as int)); }
#loop 2
    invariant group_objects@ == og_map(*group, og_both(*group)), __src2@.len() == group.declarations@.len(), forall|i: int| 0 <= i < __src2@.len() ==> #[trigger] __src2@[i] == group.declarations@[i].oid(),
        forall|id: ExGuid| #[trigger] objects@.contains_key(id) <==> __o.contains_key(id) || declares(*group, id, __k2 as int),
        forall|id: ExGuid| #[trigger] objects@.contains_key(id) ==> (if __o.contains_key(id) { objects@[id] == __o[id] } else { obj_of(objects@[id], id, __c, group_id) }),
#start 2
    let ghost __b = objects@; let ghost __j = __k2 as int;
    proof { lemma_one(packaging.data_element_package, group_id, __src2@[__j]); assert(group.declarations@[__j].oid() == __src2@[__j]); assert(og_declares(packaging.data_element_package, group_id, __src2@[__j]));
        assert forall|id: ExGuid| declares(*group, id, __j + 1) == (declares(*group, id, __j) || id == __src2@[__j]) by { lemma_declares(*group, id, __j); } }
#after 2
    proof { assert forall|id: ExGuid| #[trigger] first_grp(__c.p(), seq![group_id], id, 1) == (if og_declares(__c.p(), group_id, id) { Some(0int) } else { None }) by { lemma_one(__c.p(), group_id, id); } }
