#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::layout_alignment::{p_layout};
use crate::one::property::object_reference::{p_ref};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
use crate::one::property_set::note_tag_container::{tags_good, tags_is};
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::EmbeddedFileNode.vx_disc() as u32)
    && is_req(p_time(o, PropertyType::LastModifiedTime))
    && p_ref(o, PropertyType::PictureContainer) is Some
    && p_f32(o, PropertyType::LayoutMaxWidth) is Some
    && p_f32(o, PropertyType::LayoutMaxHeight) is Some
    && p_bool(o, PropertyType::IsLayoutSizeSetByUser) is Some
    && p_string(o, PropertyType::RichEditTextUnicode) is Some
    && p_u16(o, PropertyType::RichEditTextLangId) is Some
    && p_layout(o, PropertyType::LayoutAlignmentInParent) is Some
    && p_layout(o, PropertyType::LayoutAlignmentSelf) is Some
    && is_req(p_ref(o, PropertyType::EmbeddedFileContainer))
    && is_req(p_string(o, PropertyType::EmbeddedFileName))
    && p_string(o, PropertyType::SourceFilepath) is Some
    && crate::one::property::file_type::p_file_type(o) is Some
    && p_f32(o, PropertyType::PictureWidth) is Some
    && p_f32(o, PropertyType::PictureHeight) is Some
    && tags_good(o)
    && p_f32(o, PropertyType::OffsetFromParentHoriz) is Some
    && p_f32(o, PropertyType::OffsetFromParentVert) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.last_modified == p_time(o, PropertyType::LastModifiedTime).unwrap().unwrap()
    && d.picture_container == p_ref(o, PropertyType::PictureContainer).unwrap()
    && d.layout_max_width == p_f32(o, PropertyType::LayoutMaxWidth).unwrap()
    && d.layout_max_height == p_f32(o, PropertyType::LayoutMaxHeight).unwrap()
    && d.is_layout_size_set_by_user == opt_or(p_bool(o, PropertyType::IsLayoutSizeSetByUser).unwrap(), false)
    && os(d.text) == p_string(o, PropertyType::RichEditTextUnicode).unwrap()
    && d.text_language_code == (match p_u16(o, PropertyType::RichEditTextLangId).unwrap() { Some(v) => Some(v as u32), None => None })
    && d.layout_alignment_in_parent == p_layout(o, PropertyType::LayoutAlignmentInParent).unwrap()
    && d.layout_alignment_self == p_layout(o, PropertyType::LayoutAlignmentSelf).unwrap()
    && d.embedded_file_container == p_ref(o, PropertyType::EmbeddedFileContainer).unwrap().unwrap()
    && d.embedded_file_name@ == p_string(o, PropertyType::EmbeddedFileName).unwrap().unwrap()
    && os(d.source_path) == p_string(o, PropertyType::SourceFilepath).unwrap()
    && d.file_type == crate::one::property::file_type::p_file_type(o).unwrap()
    && d.picture_width == p_f32(o, PropertyType::PictureWidth).unwrap()
    && d.picture_height == p_f32(o, PropertyType::PictureHeight).unwrap()
    && tags_is(d.note_tags@, o)
    && d.offset_from_parent_horiz == p_f32(o, PropertyType::OffsetFromParentHoriz).unwrap()
    && d.offset_from_parent_vert == p_f32(o, PropertyType::OffsetFromParentVert).unwrap()
    && d.recording_duration is None
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
