#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::object_reference::{p_ref};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::InkContainer.vx_disc() as u32)
    && p_f32(o, PropertyType::OffsetFromParentHoriz) is Some
    && p_f32(o, PropertyType::OffsetFromParentVert) is Some
    && p_time(o, PropertyType::LastModifiedTime) is Some
    && p_ref(o, PropertyType::InkData) is Some
    && p_f32(o, PropertyType::InkScalingX) is Some
    && p_f32(o, PropertyType::InkScalingY) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.offset_from_parent_horiz == p_f32(o, PropertyType::OffsetFromParentHoriz).unwrap()
    && d.offset_from_parent_vert == p_f32(o, PropertyType::OffsetFromParentVert).unwrap()
    && d.last_modified == p_time(o, PropertyType::LastModifiedTime).unwrap()
    && d.ink_data == p_ref(o, PropertyType::InkData).unwrap()
    && d.ink_scaling_x == p_f32(o, PropertyType::InkScalingX).unwrap()
    && d.ink_scaling_y == p_f32(o, PropertyType::InkScalingY).unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
