#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::ink_dimensions::{p_dims};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::StrokePropertiesNode.vx_disc() as u32)
    && p_bool(o, PropertyType::InkAntialised) is Some
    && p_bool(o, PropertyType::InkFitToCurve) is Some
    && p_bool(o, PropertyType::InkIgnorePressure) is Some
    && p_u8(o, PropertyType::InkPenTip) is Some
    && p_u8(o, PropertyType::InkRasterOperation) is Some
    && p_u8(o, PropertyType::InkTransparency) is Some
    && is_req(p_f32(o, PropertyType::InkHeight))
    && is_req(p_f32(o, PropertyType::InkWidth))
    && p_u32(o, PropertyType::InkColor) is Some
    && p_dims(o, PropertyType::InkDimensions) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.aliased == opt_or(p_bool(o, PropertyType::InkAntialised).unwrap(), false)
    && d.fit_to_curve == opt_or(p_bool(o, PropertyType::InkFitToCurve).unwrap(), false)
    && d.ignore_pressure == opt_or(p_bool(o, PropertyType::InkIgnorePressure).unwrap(), false)
    && d.pen_tip == p_u8(o, PropertyType::InkPenTip).unwrap()
    && d.raster_operation == p_u8(o, PropertyType::InkRasterOperation).unwrap()
    && d.transparency == p_u8(o, PropertyType::InkTransparency).unwrap()
    && d.ink_height == p_f32(o, PropertyType::InkHeight).unwrap().unwrap()
    && d.ink_width == p_f32(o, PropertyType::InkWidth).unwrap().unwrap()
    && d.color == p_u32(o, PropertyType::InkColor).unwrap()
    && d.dimensions@ == p_dims(o, PropertyType::InkDimensions).unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
