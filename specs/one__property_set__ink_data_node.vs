#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::object_reference::{p_refs};
use crate::onestore::types::jcid::JcId;
/// four numbers, in order
pub open spec fn box_is(b: Option<[u32; 4]>, v: Option<Seq<u32>>) -> bool { match (b, v) { (Some(x), Some(y)) => y.len() == 4 && x@ =~= y, (None, Some(y)) => y.len() != 4, (None, None) => true, _ => false } }
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::InkDataNode.vx_disc() as u32)
    && is_req(p_refs(o, PropertyType::InkStrokes))
    && p_u32s(o, PropertyType::InkBoundingBox) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.strokes@ == p_refs(o, PropertyType::InkStrokes).unwrap().unwrap()
    && box_is(d.bounding_box, p_u32s(o, PropertyType::InkBoundingBox).unwrap())
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
