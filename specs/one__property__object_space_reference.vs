#prelude
use crate::one::property::references::*;
use crate::onestore::types::property::sid_of;
use crate::onestore::types::prop_set::pvals;
/// what the `i`th id of the object's stream stands for
pub open spec fn at(o: Object, i: int) -> Option<CellId> { crate::onestore::mapping_table::pick(o.mapping.spc(o.props.object_space_ids@[i]), crate::onestore::mapping_table::sat(i as usize, o.mapping.spc_off())) }
/// those of `n` ids from `a` on that are known, in order
pub open spec fn known(o: Object, a: int, n: int) -> Seq<CellId> decreases n { if n <= 0 { Seq::empty() } else { match at(o, a + n - 1) { Some(x) => known(o, a, n - 1).push(x), None => known(o, a, n - 1) } } }
/// an array of references
pub open spec fn p_refs(o: Object, t: PropertyType) -> Option<Option<Seq<CellId>>> {
    match o.props.pv(t) { None => Some(None), Some(PropertyValue::ObjectSpaceIds(c)) => Some(Some(known(o, off(o, t, false), crate::ext::vx_min(c as int, o.props.object_space_ids@.len() - off(o, t, false))))), _ => None }
}
#fn ObjectSpaceReference::parse_vec
ensures match r { Ok(v) => p_refs(*object, prop_type) == Some(crate::ext::ov(v)), Err(_) => p_refs(*object, prop_type) is None }
#loop 0
    invariant offset == off(*object, prop_type, false), forall|i: int| 0 <= i < __src0@.len() ==> (#[trigger] __src0@[i]).0 == i && *__src0@[i].1 == object.props.object_space_ids@[offset + i],
        __src0@.len() == crate::ext::vx_min(count as int, crate::ext::vx_max(0, object.props.object_space_ids@.len() - offset)), __out0@ == known(*object, offset as int, __k0 as int),
#start 0
    assert(__src0@[__k0 as int].0 == __k0 && *__src0@[__k0 as int].1 == object.props.object_space_ids@[offset + __k0] && references@.len() == references.len());
#fn ObjectSpaceReference::get_offset
ensures match r { Ok(v) => obj_m(*object).contains_key(sid_of(prop_type)) && v == off(*object, prop_type, false) && v <= 0x3fff_ffff_ffff_ffff, Err(_) => !obj_m(*object).contains_key(sid_of(prop_type)) }
#before let offset =
    proof { lemma_map_refs(predecessors@, preds(obj_m(*object), obj_m(*object)[sid_of(prop_type)].0), false); }
#fn ObjectSpaceReference::count_references
ensures r == list_refs(props@, props@.len() as int, false), r <= 0x3fff_ffff_ffff_ffff
#attr
#[verifier::exec_allows_no_decreases_clause]
#entry
    broadcast use {crate::ext::vx_total_push, lemma_set_refs};
#loop 0
    invariant __src0@ == props@, crate::ext::vx_total(__out0@) == list_refs(props@, __k0 as int, false),
#loop 1
    invariant crate::ext::vx_refs(__src1@, sets@), crate::ext::vx_total(__out1@) == sets_refs(sets@, __k1 as int, false),
#start 1
    assert(*__src1@[__k1 as int] == sets@[__k1 as int]);
#fn ObjectSpaceReference::resolve_id
ensures match r { Ok(x) => crate::onestore::mapping_table::pick(object.mapping.spc(*id), crate::onestore::mapping_table::sat(index, object.mapping.spc_off())) == Some(x), Err(_) => crate::onestore::mapping_table::pick(object.mapping.spc(*id), crate::onestore::mapping_table::sat(index, object.mapping.spc_off())) is None }
