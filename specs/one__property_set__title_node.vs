#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::layout_alignment::{p_layout};
use crate::one::property::object_reference::{p_refs};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::TitleNode.vx_disc() as u32)
    && is_req(p_time(o, PropertyType::LastModifiedTime))
    && is_req(p_refs(o, PropertyType::ElementChildNodes))
    && is_req(p_f32(o, PropertyType::OffsetFromParentHoriz))
    && is_req(p_f32(o, PropertyType::OffsetFromParentVert))
    && p_layout(o, PropertyType::LayoutAlignmentInParent) is Some
    && p_layout(o, PropertyType::LayoutAlignmentSelf) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.last_modified_time == p_time(o, PropertyType::LastModifiedTime).unwrap().unwrap()
    && d.children@ == p_refs(o, PropertyType::ElementChildNodes).unwrap().unwrap()
    && d.offset_horizontal == p_f32(o, PropertyType::OffsetFromParentHoriz).unwrap().unwrap()
    && d.offset_vertical == p_f32(o, PropertyType::OffsetFromParentVert).unwrap().unwrap()
    && d.layout_alignment_in_parent == p_layout(o, PropertyType::LayoutAlignmentInParent).unwrap()
    && d.layout_alignment_self == p_layout(o, PropertyType::LayoutAlignmentSelf).unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
