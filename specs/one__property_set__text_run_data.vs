#prelude
use crate::one::property::simple::*;
use crate::one::property::references::*;
use crate::one::property::object_reference::*;
use crate::onestore::types::property::{sid_of, PropertyValue};
use crate::ext::is_req;
/// the sets the data of the text runs of an object is stored in
pub open spec fn run_sets(o: Object) -> Option<(PropertyId, Seq<PropertySet>)> { match o.props.pv(PropertyType::TextRunData) { Some(PropertyValue::PropertyValues(id, v)) => Some((id, v@)), _ => None } }
pub open spec fn run_is(n: Object, o: Object, i: int) -> bool { let (id, s) = run_sets(o).unwrap(); sub_is(n, o, PropertyType::TextRunData, id, s[i], s.take(i)) }
pub open spec fn runs_upto(v: Seq<Object>, o: Object, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> run_is(#[trigger] v[i], o, i) }
pub open spec fn runs_is(v: Seq<Object>, o: Object) -> bool { run_sets(o) is Some && runs_upto(v, o, run_sets(o).unwrap().1.len() as int) }
#fn parse
ensures match r { Ok(Some(v)) => runs_is(v@, *object), Ok(None) => object.props.pv(PropertyType::TextRunData) is None, Err(_) => object.props.pv(PropertyType::TextRunData) is Some && run_sets(*object) is None }
#loop 0
    invariant run_sets(*object) == Some((prop_id, prop_sets@)), __src0@.len() == prop_sets@.len(), forall|i: int| 0 <= i < __src0@.len() ==> (#[trigger] __src0@[i]).0 == i && *__src0@[i].1 == prop_sets@[i],
        runs_upto(__out0@, *object, __k0 as int),
#start 0
    let ghost __kk = __k0 as int; assert(__src0@[__kk].0 == __kk && *__src0@[__kk].1 == prop_sets@[__kk]);
    assert(prop_sets@.take(__kk) =~= prop_sets@.subrange(0, __kk));
#fn parse_object
requires obj_m(*object).contains_key(sid_of(PropertyType::TextRunData))
ensures match r { Ok(n) => sub_is(n, *object, PropertyType::TextRunData, prop_id, *props, preceding@), Err(_) => false }
#entry
    broadcast use crate::ext::vx_total_push;
#loop 0
    invariant crate::ext::vx_refs(__src0@, preceding@), crate::ext::vx_total(__out0@) == sets_refs(preceding@, __k0 as int, true),
#start 0
    assert(*__src0@[__k0 as int] == preceding@[__k0 as int]);
    broadcast use lemma_set_refs;
#loop 1
    invariant crate::ext::vx_refs(__src1@, preceding@), crate::ext::vx_total(__out1@) == sets_refs(preceding@, __k1 as int, false),
#start 1
    assert(*__src1@[__k1 as int] == preceding@[__k1 as int]);
    broadcast use lemma_set_refs;
#fn get_object_ids
ensures r@ == window(object.props.object_ids@, offset as int, set_refs(*props, true))
#entry
    broadcast use lemma_set_refs;
#fn get_object_space_ids
ensures r@ == window(object.props.object_space_ids@, offset as int, set_refs(*props, false))
#entry
    broadcast use lemma_set_refs;
