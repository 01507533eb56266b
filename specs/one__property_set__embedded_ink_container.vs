#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    p_f32(o, PropertyType::EmbeddedInkSpaceWidth) is Some
    && p_f32(o, PropertyType::EmbeddedInkSpaceHeight) is Some
    && p_f32(o, PropertyType::EmbeddedInkStartX) is Some
    && p_f32(o, PropertyType::EmbeddedInkStartY) is Some
    && p_f32(o, PropertyType::EmbeddedInkHeight) is Some
    && p_f32(o, PropertyType::EmbeddedInkWidth) is Some
    && p_f32(o, PropertyType::EmbeddedInkOffsetHoriz) is Some
    && p_f32(o, PropertyType::EmbeddedInkOffsetVert) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.space_width == p_f32(o, PropertyType::EmbeddedInkSpaceWidth).unwrap()
    && d.space_height == p_f32(o, PropertyType::EmbeddedInkSpaceHeight).unwrap()
    && d.start_x == p_f32(o, PropertyType::EmbeddedInkStartX).unwrap()
    && d.start_y == p_f32(o, PropertyType::EmbeddedInkStartY).unwrap()
    && d.height == p_f32(o, PropertyType::EmbeddedInkHeight).unwrap()
    && d.width == p_f32(o, PropertyType::EmbeddedInkWidth).unwrap()
    && d.offset_horiz == p_f32(o, PropertyType::EmbeddedInkOffsetHoriz).unwrap()
    && d.offset_vert == p_f32(o, PropertyType::EmbeddedInkOffsetVert).unwrap()
}
#fn Data::parse
ensures match r { Ok(d) => good(object) && data_is(d, object), Err(_) => !good(object) }
