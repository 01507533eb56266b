#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::outline_indent_distance::{p_indents};
use crate::one::property::layout_alignment::{p_layout};
use crate::one::property::object_reference::{p_refs};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::OutlineNode.vx_disc() as u32)
    && is_req(p_time(o, PropertyType::LastModifiedTime))
    && p_refs(o, PropertyType::ElementChildNodes) is Some
    && is_req(p_u8(o, PropertyType::OutlineElementChildLevel))
    && p_f32(o, PropertyType::LayoutMaxHeight) is Some
    && p_f32(o, PropertyType::LayoutMaxWidth) is Some
    && p_f32(o, PropertyType::LayoutOutlineReservedWidth) is Some
    && p_f32(o, PropertyType::LayoutMinimumOutlineWidth) is Some
    && p_bool(o, PropertyType::LayoutTightAlignment) is Some
    && p_bool(o, PropertyType::IsLayoutSizeSetByUser) is Some
    && p_f32(o, PropertyType::OffsetFromParentHoriz) is Some
    && p_f32(o, PropertyType::OffsetFromParentVert) is Some
    && p_f32(o, PropertyType::ListSpacingMu) is Some
    && is_req(p_indents(o))
    && p_layout(o, PropertyType::LayoutAlignmentInParent) is Some
    && p_layout(o, PropertyType::LayoutAlignmentSelf) is Some
    && p_bool(o, PropertyType::Deletable) is Some
    && p_bool(o, PropertyType::IsTitleDate) is Some
    && p_bool(o, PropertyType::CannotBeSelected) is Some
    && p_bool(o, PropertyType::IsTitleText) is Some
    && p_bool(o, PropertyType::IsReadOnly) is Some
    && p_bool(o, PropertyType::DescendantsCannotBeMoved) is Some
    && p_bool(o, PropertyType::LayoutTightLayout) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.last_modified == p_time(o, PropertyType::LastModifiedTime).unwrap().unwrap()
    && d.children@ == opt_or(p_refs(o, PropertyType::ElementChildNodes).unwrap(), Seq::<ExGuid>::empty())
    && d.child_level == p_u8(o, PropertyType::OutlineElementChildLevel).unwrap().unwrap()
    && d.layout_max_height == p_f32(o, PropertyType::LayoutMaxHeight).unwrap()
    && d.layout_max_width == p_f32(o, PropertyType::LayoutMaxWidth).unwrap()
    && d.layout_reserved_width == p_f32(o, PropertyType::LayoutOutlineReservedWidth).unwrap()
    && d.layout_minimum_outline_width == p_f32(o, PropertyType::LayoutMinimumOutlineWidth).unwrap()
    && d.layout_tight_alignment == opt_or(p_bool(o, PropertyType::LayoutTightAlignment).unwrap(), false)
    && d.is_layout_size_set_by_user == opt_or(p_bool(o, PropertyType::IsLayoutSizeSetByUser).unwrap(), false)
    && d.offset_from_parent_horiz == p_f32(o, PropertyType::OffsetFromParentHoriz).unwrap()
    && d.offset_from_parent_vert == p_f32(o, PropertyType::OffsetFromParentVert).unwrap()
    && d.list_spacing == p_f32(o, PropertyType::ListSpacingMu).unwrap()
    && d.outline_indent_distance.0@ == p_indents(o).unwrap().unwrap()
    && d.layout_alignment_in_parent == p_layout(o, PropertyType::LayoutAlignmentInParent).unwrap()
    && d.layout_alignment_self == p_layout(o, PropertyType::LayoutAlignmentSelf).unwrap()
    && d.is_deletable == opt_or(p_bool(o, PropertyType::Deletable).unwrap(), false)
    && d.is_title_date == opt_or(p_bool(o, PropertyType::IsTitleDate).unwrap(), false)
    && d.is_selectable == (match p_bool(o, PropertyType::CannotBeSelected).unwrap() { Some(v) => !v, None => true })
    && d.is_title_text == opt_or(p_bool(o, PropertyType::IsTitleText).unwrap(), false)
    && d.is_read_only == opt_or(p_bool(o, PropertyType::IsReadOnly).unwrap(), false)
    && d.descendants_cannot_be_moved == opt_or(p_bool(o, PropertyType::DescendantsCannotBeMoved).unwrap(), false)
    && d.tight_layout == opt_or(p_bool(o, PropertyType::LayoutTightLayout).unwrap(), false)
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
