#prelude
use crate::one::property::references::*;
use crate::onestore::types::property::sid_of;
use crate::onestore::types::prop_set::{pvals, PropertySet};
use crate::onestore::types::property::PropertyId;
/// what the `i`th id of the object's stream stands for
pub open spec fn at(o: Object, i: int) -> Option<ExGuid> { crate::onestore::mapping_table::pick(o.mapping.obj(o.props.object_ids@[i]), crate::onestore::mapping_table::sat(i as usize, o.mapping.obj_off())) }
/// those of `n` ids from `a` on that are known, in order
pub open spec fn known(o: Object, a: int, n: int) -> Seq<ExGuid> decreases n { if n <= 0 { Seq::empty() } else { match at(o, a + n - 1) { Some(x) => known(o, a, n - 1).push(x), None => known(o, a, n - 1) } } }
/// a reference: None = no id is left for it
pub open spec fn p_ref(o: Object, t: PropertyType) -> Option<Option<ExGuid>> {
    match o.props.pv(t) { None => Some(None), Some(PropertyValue::ObjectId) => if off(o, t, true) < o.props.object_ids@.len() { Some(at(o, off(o, t, true))) } else { None }, _ => None }
}
/// an array of references
pub open spec fn p_refs(o: Object, t: PropertyType) -> Option<Option<Seq<ExGuid>>> {
    match o.props.pv(t) { None => Some(None), Some(PropertyValue::ObjectIds(c)) => Some(Some(known(o, off(o, t, true), crate::ext::vx_min(c as int, o.props.object_ids@.len() - off(o, t, true))))), _ => None }
}
/// `n` elements from `a` on, or as many as there are
pub open spec fn window<T>(s: Seq<T>, a: int, n: int) -> Seq<T> { let t = s.skip(crate::ext::vx_min(a, s.len() as int)); t.take(crate::ext::vx_min(n, t.len() as int)) }
/// where the references of the set that follows `pre` in property `t` of `o` begin
pub open spec fn start(o: Object, t: PropertyType, pre: Seq<PropertySet>, objects: bool) -> int { off(o, t, objects) + sets_refs(pre, pre.len() as int, objects) }
/// `n` is the set `p`, which follows `pre` in property `t` of `o`, as an object of its own: with its own references, and these resolved as in `o`
pub open spec fn sub_is(n: Object, o: Object, t: PropertyType, id: PropertyId, p: PropertySet, pre: Seq<PropertySet>) -> bool {
    n.context_id == o.context_id && n.jc_id == crate::onestore::types::jcid::JcId(id.raw()) && n.file_data is None && n.props.properties == p
    && n.props.object_ids@ == window(o.props.object_ids@, start(o, t, pre, true), set_refs(p, true))
    && n.props.object_space_ids@ == window(o.props.object_space_ids@, start(o, t, pre, false), set_refs(p, false))
    && n.props.context_ids@.len() == 0
    && crate::onestore::mapping_table::nested_is(n.mapping, o.mapping, start(o, t, pre, true) as usize, start(o, t, pre, false) as usize)
}
/// a set's own references resolve to what stands at their place in the whole object
pub proof fn thm_sub_at(n: Object, o: Object, t: PropertyType, id: PropertyId, p: PropertySet, pre: Seq<PropertySet>, i: int)
    requires sub_is(n, o, t, id, p, pre), 0 <= i < n.props.object_ids@.len(), 0 <= start(o, t, pre, true), 0 <= set_refs(p, true), start(o, t, pre, true) + i <= usize::MAX, o.props.object_ids@.len() <= usize::MAX
    ensures at(n, i) == at(o, start(o, t, pre, true) + i)
{ assert(o.props.object_ids@.len() > start(o, t, pre, true) + i); }
pub open spec fn same(a: Object, b: Object) -> bool {
    a.props.properties == b.props.properties && a.props.object_ids@ == b.props.object_ids@ && a.jc_id == b.jc_id
    && a.mapping.obj_off() == b.mapping.obj_off() && forall|c: CompactId| #[trigger] a.mapping.obj(c) == b.mapping.obj(c)
}
pub proof fn lemma_same(a: Object, b: Object, t: PropertyType)
    requires same(a, b)
    ensures p_ref(a, t) == p_ref(b, t), a.props.pv(t) == b.props.pv(t)
{ if a.props.pv(t) is Some && a.props.pv(t).unwrap() is ObjectId && off(a, t, true) < a.props.object_ids@.len() { let c = a.props.object_ids@[off(a, t, true)]; assert(a.mapping.obj(c) == b.mapping.obj(c)); } }
#fn ObjectReference::parse
ensures match r { Ok(v) => p_ref(*object, prop_type) == Some(v), Err(_) => p_ref(*object, prop_type) is None }
#fn ObjectReference::parse_vec
ensures match r { Ok(v) => p_refs(*object, prop_type) == Some(crate::ext::ov(v)), Err(_) => p_refs(*object, prop_type) is None }
#loop 0
    invariant offset == off(*object, prop_type, true), forall|i: int| 0 <= i < __src0@.len() ==> (#[trigger] __src0@[i]).0 == i && *__src0@[i].1 == object.props.object_ids@[offset + i],
        __src0@.len() == crate::ext::vx_min(count as int, crate::ext::vx_max(0, object.props.object_ids@.len() - offset)), __out0@ == known(*object, offset as int, __k0 as int),
#start 0
    assert(__src0@[__k0 as int].0 == __k0 && *__src0@[__k0 as int].1 == object.props.object_ids@[offset + __k0] && references@.len() == references.len());
#fn ObjectReference::get_offset
ensures match r { Ok(v) => obj_m(*object).contains_key(sid_of(prop_type)) && v == off(*object, prop_type, true) && v <= 0x3fff_ffff_ffff_ffff, Err(_) => !obj_m(*object).contains_key(sid_of(prop_type)) }
#before let offset =
    proof { lemma_map_refs(predecessors@, preds(obj_m(*object), obj_m(*object)[sid_of(prop_type)].0), true); }
#fn ObjectReference::count_references
ensures r == list_refs(props@, props@.len() as int, true), r <= 0x3fff_ffff_ffff_ffff
#attr
#[verifier::exec_allows_no_decreases_clause]
#entry
    broadcast use {crate::ext::vx_total_push, lemma_set_refs};
#loop 0
    invariant __src0@ == props@, crate::ext::vx_total(__out0@) == list_refs(props@, __k0 as int, true),
#loop 1
    invariant crate::ext::vx_refs(__src1@, sets@), crate::ext::vx_total(__out1@) == sets_refs(sets@, __k1 as int, true),
#start 1
    assert(*__src1@[__k1 as int] == sets@[__k1 as int]);
#fn ObjectReference::resolve_id
ensures r == crate::onestore::mapping_table::pick(object.mapping.obj(*id), crate::onestore::mapping_table::sat(index, object.mapping.obj_off()))
