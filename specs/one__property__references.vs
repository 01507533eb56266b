#prelude
use crate::onestore::types::prop_set::{PropertySet, pvals};
use crate::onestore::types::property::sid_of;
use crate::ext::{vx_msum, vx_isum, vx_key_enum, vx_enum_values, vx_ks};
/// how many object ids (`o`) or object space ids a value takes from the object's id streams: what is nested in it included
pub open spec fn val_refs(v: PropertyValue, o: bool) -> int {
    match v {
        PropertyValue::ObjectId => if o { 1 } else { 0 }, PropertyValue::ObjectIds(c) => if o { c as int } else { 0 },
        PropertyValue::ObjectSpaceId => if o { 0 } else { 1 }, PropertyValue::ObjectSpaceIds(c) => if o { 0 } else { c as int },
        PropertyValue::PropertySet(p) => set_refs(p, o), PropertyValue::PropertyValues(_, sets) => sets_refs(sets@, sets@.len() as int, o),
        _ => 0 }
}
pub open spec fn sets_refs(s: Seq<PropertySet>, n: int, o: bool) -> int decreases n { if n <= 0 { 0 } else { sets_refs(s, n - 1, o) + set_refs(s[n - 1], o) } }
/// the total over a set's values.  Its defining equation is stated as an axiom, since the verifier cannot follow the recursion through a HashMap (values are finite trees)
pub uninterp spec fn set_refs(p: PropertySet, o: bool) -> int;
pub axiom fn set_refs_def(p: PropertySet, o: bool) ensures set_refs(p, o) == map_refs(pvals(p.m()), o);
pub open spec fn map_refs(m: Map<u32, PropertyValue>, o: bool) -> int { vx_msum(m.map_values(|v: PropertyValue| val_refs(v, o))) }
/// the properties that stand before place `n`
pub open spec fn preds(m: Map<u32, (usize, PropertyValue)>, n: usize) -> Map<u32, PropertyValue> { pvals(m.restrict(m.dom().filter(|k: u32| m[k].0 < n))) }
pub open spec fn obj_m(o: Object) -> Map<u32, (usize, PropertyValue)> { o.props.properties.m() }
/// how many ids of the stream belong to the properties before `t`
pub open spec fn off(o: Object, t: PropertyType, objects: bool) -> int { map_refs(preds(obj_m(o), obj_m(o)[sid_of(t)].0), objects) }
/// the total along a listing
pub open spec fn list_refs(s: Seq<&PropertyValue>, n: int, o: bool) -> int decreases n { if n <= 0 { 0 } else { list_refs(s, n - 1, o) + val_refs(*s[n - 1], o) } }
pub proof fn lemma_list_refs(s: Seq<&PropertyValue>, n: int, ks: Seq<u32>, m: Map<u32, PropertyValue>, o: bool)
    requires 0 <= n <= s.len(), ks.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == m[ks[i]], forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i])
    ensures list_refs(s, n, o) == vx_isum(ks.take(n).map_values(|k: u32| m.map_values(|v: PropertyValue| val_refs(v, o))[k]))
    decreases n
{
    let f = |k: u32| m.map_values(|v: PropertyValue| val_refs(v, o))[k];
    if n > 0 { lemma_list_refs(s, n - 1, ks, m, o); assert(ks.take(n).map_values(f).drop_last() =~= ks.take(n - 1).map_values(f)); assert(*s[n - 1] == m[ks[n - 1]]); }
}
pub proof fn lemma_map_refs(s: Seq<&PropertyValue>, m: Map<u32, PropertyValue>, o: bool)
    requires vx_enum_values(s, m)
    ensures list_refs(s, s.len() as int, o) == map_refs(m, o)
{
    let ks = vx_ks(s, m); crate::ext::lemma_ks_enum(s, m);
    let mm = m.map_values(|v: PropertyValue| val_refs(v, o));
    assert forall|i: int| 0 <= i < ks.len() implies m.contains_key(#[trigger] ks[i]) by { assert(ks.contains(ks[i])); }
    lemma_list_refs(s, s.len() as int, ks, m, o);
    assert(ks.take(s.len() as int) =~= ks);
    assert(vx_key_enum(ks, mm)) by { assert forall|k: u32| mm.contains_key(k) <==> ks.contains(k) by { assert(m.contains_key(k) <==> ks.contains(k)); } }
    crate::ext::lemma_enum_sum(ks, mm);
}
pub broadcast proof fn lemma_set_refs(s: Seq<&PropertyValue>, n: int, p: PropertySet, o: bool)
    requires n == s.len(), #[trigger] vx_enum_values(s, pvals(p.m()))
    ensures #[trigger] list_refs(s, n, o) == set_refs(p, o)
{ lemma_map_refs(s, pvals(p.m()), o); set_refs_def(p, o); }
/// the first `n` keys that pass the test
pub open spec fn kept(ks: Seq<u32>, m: Map<u32, (usize, PropertyValue)>, idx: usize, n: int) -> Seq<u32> decreases n { if n <= 0 { Seq::empty() } else if m[ks[n - 1]].0 < idx { kept(ks, m, idx, n - 1).push(ks[n - 1]) } else { kept(ks, m, idx, n - 1) } }
pub open spec fn kept_vals(r: Seq<&PropertyValue>, ks: Seq<u32>, m: Map<u32, (usize, PropertyValue)>) -> bool { r.len() == ks.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == m[ks[i]].1 }
pub proof fn lemma_kept(ks: Seq<u32>, m: Map<u32, (usize, PropertyValue)>, idx: usize, n: int)
    requires 0 <= n <= ks.len(), ks.no_duplicates(), forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i])
    ensures kept(ks, m, idx, n).no_duplicates(), forall|k: u32| #[trigger] kept(ks, m, idx, n).contains(k) <==> m[k].0 < idx && ks.take(n).contains(k)
    decreases n
{
    broadcast use crate::ext::vx_push_contains;
    if n > 0 { lemma_kept(ks, m, idx, n - 1); assert(ks.take(n) =~= ks.take(n - 1).push(ks[n - 1]));
        if ks.take(n - 1).contains(ks[n - 1]) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ks.take(n - 1)[i] == ks[n - 1]; assert(ks[i] == ks[n - 1]); assert(false); }
        let a = kept(ks, m, idx, n - 1); let b = kept(ks, m, idx, n);
        if m[ks[n - 1]].0 < idx { assert(!a.contains(ks[n - 1])); assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies #[trigger] b[i] != #[trigger] b[j] by { if i == a.len() { assert(a.contains(a[j])); } else if j == a.len() { assert(a.contains(a[i])); } } }
    } else { assert(ks.take(0) =~= Seq::<u32>::empty()); }
}
pub proof fn lemma_preds(s: Seq<&(usize, PropertyValue)>, r: Seq<&PropertyValue>, m: Map<u32, (usize, PropertyValue)>, idx: usize)
    requires vx_enum_values(s, m), kept_vals(r, kept(vx_ks(s, m), m, idx, s.len() as int), m)
    ensures vx_enum_values(r, preds(m, idx))
{
    let ks = vx_ks(s, m); crate::ext::lemma_ks_enum(s, m);
    assert forall|i: int| 0 <= i < ks.len() implies m.contains_key(#[trigger] ks[i]) by { assert(ks.contains(ks[i])); }
    lemma_kept(ks, m, idx, s.len() as int);
    let q = kept(ks, m, idx, s.len() as int); let p = preds(m, idx);
    assert(ks.take(s.len() as int) =~= ks);
    assert forall|k: u32| p.contains_key(k) <==> q.contains(k) by { assert(m.contains_key(k) <==> ks.contains(k)); }
    assert(vx_key_enum(q, p));
    assert forall|i: int| 0 <= i < r.len() implies *(#[trigger] r[i]) == p[q[i]] by { assert(q.contains(q[i])); assert(p.contains_key(q[i])); }
}
#fn References::get_predecessors
ensures match r { Ok(v) => obj_m(*object).contains_key(sid_of(prop_type)) && vx_enum_values(v@, preds(obj_m(*object), obj_m(*object)[sid_of(prop_type)].0)), Err(_) => !obj_m(*object).contains_key(sid_of(prop_type)) }
#loop 0
    invariant vx_enum_values(__src0@, obj_m(*object)), prop_index == obj_m(*object)[sid_of(prop_type)].0, kept_vals(__out0@, kept(vx_ks(__src0@, obj_m(*object)), obj_m(*object), prop_index, __k0 as int), obj_m(*object)),
#after 0
    proof { lemma_preds(__src0@, __out0@, obj_m(*object), prop_index); }
