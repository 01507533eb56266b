#prelude
use crate::one::property::simple::*;
use crate::one::property::references::*;
use crate::one::property::object_reference::*;
use crate::onestore::types::property::{sid_of, PropertyValue};
use crate::ext::is_req;
use crate::one::property::note_tag::p_status;
use crate::one::property::time::p_time;
/// a note tag on its own
pub open spec fn tag_good(n: Object) -> bool { p_ref(n, PropertyType::NoteTagDefinitionOid) is Some && is_req(p_time(n, PropertyType::NoteTagCreated)) && p_time(n, PropertyType::NoteTagCompleted) is Some && is_req(p_status(n, PropertyType::ActionItemStatus)) }
pub open spec fn tag_is(d: Data, n: Object) -> bool {
    d.definition == p_ref(n, PropertyType::NoteTagDefinitionOid).unwrap() && d.created_at == p_time(n, PropertyType::NoteTagCreated).unwrap().unwrap()
    && d.completed_at == p_time(n, PropertyType::NoteTagCompleted).unwrap() && d.item_status == p_status(n, PropertyType::ActionItemStatus).unwrap().unwrap()
}
/// the sets the tags of an object are stored in; None: not stored as sets
pub open spec fn tag_sets(o: Object) -> Option<(PropertyId, Seq<PropertySet>)> { match o.props.pv(PropertyType::NoteTags) { Some(PropertyValue::PropertyValues(id, v)) => Some((id, v@)), _ => None } }
pub open spec fn nth_sub(n: Object, o: Object, i: int) -> bool { let (id, s) = tag_sets(o).unwrap(); sub_is(n, o, PropertyType::NoteTags, id, s[i], s.take(i)) }
pub open spec fn tags_good(o: Object) -> bool { o.props.pv(PropertyType::NoteTags) is None || tag_sets(o) is Some && forall|i: int, n: Object| 0 <= i < tag_sets(o).unwrap().1.len() && #[trigger] nth_sub(n, o, i) ==> tag_good(n) }
pub open spec fn one_is(d: Data, o: Object, i: int) -> bool { exists|n: Object| #[trigger] nth_sub(n, o, i) && tag_is(d, n) }
pub open spec fn tags_upto(v: Seq<Data>, o: Object, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> one_is(#[trigger] v[i], o, i) }
/// the tags of an object: none when none are stored, else those stored, in order
pub open spec fn tags_is(v: Seq<Data>, o: Object) -> bool { if o.props.pv(PropertyType::NoteTags) is None { v.len() == 0 } else { tag_sets(o) is Some && tags_upto(v, o, tag_sets(o).unwrap().1.len() as int) } }
pub proof fn lemma_good(a: Object, b: Object, o: Object, i: int)
    requires nth_sub(a, o, i), nth_sub(b, o, i)
    ensures tag_good(a) == tag_good(b), forall|d: Data| tag_is(d, a) == tag_is(d, b)
{
    assert forall|c: CompactId| #[trigger] a.mapping.obj(c) == b.mapping.obj(c) by { assert(a.mapping.obj(c) == o.mapping.obj(c)); assert(b.mapping.obj(c) == o.mapping.obj(c)); }
    assert(same(a, b));
    lemma_same(a, b, PropertyType::NoteTagDefinitionOid); lemma_same(a, b, PropertyType::NoteTagCreated); lemma_same(a, b, PropertyType::NoteTagCompleted); lemma_same(a, b, PropertyType::ActionItemStatus);
}
#fn Data::parse
ensures match r { Ok(v) => tags_good(*object) && (v is None <==> object.props.pv(PropertyType::NoteTags) is None) && (match v { Some(x) => tags_is(x@, *object), None => true }), Err(_) => !tags_good(*object) }
#loop 0
    invariant tag_sets(*object) == Some((prop_id, prop_sets@)), __src0@.len() == prop_sets@.len(), forall|i: int| 0 <= i < __src0@.len() ==> (#[trigger] __src0@[i]).0 == i && *__src0@[i].1 == prop_sets@[i],
        tags_upto(__out0@, *object, __k0 as int), forall|i: int, n: Object| 0 <= i < __k0 && #[trigger] nth_sub(n, *object, i) ==> tag_good(n),
#start 0
    let ghost __kk = __k0 as int; assert(__src0@[__kk].0 == __kk && *__src0@[__kk].1 == prop_sets@[__kk]);
    assert(prop_sets@.take(__kk) =~= prop_sets@.subrange(0, __kk));
#entry
    let ghost __o = *object;
#before let data = @1
    proof { assert(nth_sub(object, __o, __kk)); assert forall|n: Object| #[trigger] nth_sub(n, __o, __kk) implies tag_good(n) == tag_good(object) by { lemma_good(object, n, __o, __kk); } }
#fn Data::parse_data
ensures match r { Ok(d) => tag_good(object) && tag_is(d, object), Err(_) => !tag_good(object) }
#fn Data::parse_object
requires obj_m(*object).contains_key(sid_of(PropertyType::NoteTags))
ensures match r { Ok(n) => sub_is(n, *object, PropertyType::NoteTags, id, *props, preceding@), Err(_) => false }
#entry
    broadcast use crate::ext::vx_total_push;
#loop 0
    invariant crate::ext::vx_refs(__src0@, preceding@), crate::ext::vx_total(__out0@) == sets_refs(preceding@, __k0 as int, true),
#start 0
    assert(*__src0@[__k0 as int] == preceding@[__k0 as int]);
    broadcast use lemma_set_refs;
#loop 1
    invariant crate::ext::vx_refs(__src1@, preceding@), crate::ext::vx_total(__out1@) == sets_refs(preceding@, __k1 as int, false),
#start 1
    assert(*__src1@[__k1 as int] == preceding@[__k1 as int]);
    broadcast use lemma_set_refs;
#fn Data::get_object_ids
ensures r@ == window(object.props.object_ids@, offset as int, set_refs(*props, true))
#entry
    broadcast use lemma_set_refs;
#fn Data::get_object_space_ids
ensures r@ == window(object.props.object_space_ids@, offset as int, set_refs(*props, false))
#entry
    broadcast use lemma_set_refs;
