#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::object_reference::{p_refs};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::OutlineGroup.vx_disc() as u32)
    && is_req(p_time(o, PropertyType::LastModifiedTime))
    && p_refs(o, PropertyType::ElementChildNodes) is Some
    && is_req(p_u8(o, PropertyType::OutlineElementChildLevel))
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.last_modified == p_time(o, PropertyType::LastModifiedTime).unwrap().unwrap()
    && d.children@ == opt_or(p_refs(o, PropertyType::ElementChildNodes).unwrap(), Seq::<ExGuid>::empty())
    && d.child_level == p_u8(o, PropertyType::OutlineElementChildLevel).unwrap().unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
