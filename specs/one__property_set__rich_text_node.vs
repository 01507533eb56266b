#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::paragraph_alignment::{p_alignment};
use crate::one::property::layout_alignment::{p_layout};
use crate::one::property::object_reference::{p_ref, p_refs};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
use crate::one::property_set::note_tag_container::{tags_good, tags_is};
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::RichTextNode.vx_disc() as u32)
    && is_req(p_time(o, PropertyType::LastModifiedTime))
    && p_bool(o, PropertyType::LayoutTightLayout) is Some
    && p_refs(o, PropertyType::TextRunFormatting) is Some
    && p_u32s(o, PropertyType::TextRunIndex) is Some
    && p_refs(o, PropertyType::TextRunDataObject) is Some
    && is_req(p_ref(o, PropertyType::ParagraphStyle))
    && p_f32(o, PropertyType::ParagraphSpaceBefore) is Some
    && p_f32(o, PropertyType::ParagraphSpaceAfter) is Some
    && p_f32(o, PropertyType::ParagraphLineSpacingExact) is Some
    && p_alignment(o, PropertyType::ParagraphAlignment) is Some
    && p_string(o, PropertyType::RichEditTextUnicode) is Some
    && (p_string(o, PropertyType::RichEditTextUnicode).unwrap() is None ==> p_ascii(o, PropertyType::TextExtendedAscii) is Some)
    && p_bool(o, PropertyType::IsTitleTime) is Some
    && p_bool(o, PropertyType::IsBoilerText) is Some
    && p_bool(o, PropertyType::IsTitleDate) is Some
    && p_bool(o, PropertyType::IsTitleText) is Some
    && p_layout(o, PropertyType::LayoutAlignmentInParent) is Some
    && p_layout(o, PropertyType::LayoutAlignmentSelf) is Some
    && p_u16(o, PropertyType::RichEditTextLangId) is Some
    && p_bool(o, PropertyType::ReadingOrderRtl) is Some
    && tags_good(o)
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.last_modified_time == p_time(o, PropertyType::LastModifiedTime).unwrap().unwrap()
    && d.tight_layout == opt_or(p_bool(o, PropertyType::LayoutTightLayout).unwrap(), false)
    && d.text_run_formatting@ == opt_or(p_refs(o, PropertyType::TextRunFormatting).unwrap(), Seq::<ExGuid>::empty())
    && d.text_run_indices@ == opt_or(p_u32s(o, PropertyType::TextRunIndex).unwrap(), Seq::<u32>::empty())
    && d.text_run_data_object@ == opt_or(p_refs(o, PropertyType::TextRunDataObject).unwrap(), Seq::<ExGuid>::empty())
    && d.paragraph_style == p_ref(o, PropertyType::ParagraphStyle).unwrap().unwrap()
    && d.paragraph_space_before == opt_or(p_f32(o, PropertyType::ParagraphSpaceBefore).unwrap(), f32_bits(0))
    && d.paragraph_space_after == opt_or(p_f32(o, PropertyType::ParagraphSpaceAfter).unwrap(), f32_bits(0))
    && d.paragraph_line_spacing_exact == p_f32(o, PropertyType::ParagraphLineSpacingExact).unwrap()
    && d.paragraph_alignment == opt_or(p_alignment(o, PropertyType::ParagraphAlignment).unwrap(), ParagraphAlignment::Left)
    && os(d.text) == (match p_string(o, PropertyType::RichEditTextUnicode).unwrap() { Some(s) => Some(s), None => p_ascii(o, PropertyType::TextExtendedAscii).unwrap() })
    && d.is_title_time == opt_or(p_bool(o, PropertyType::IsTitleTime).unwrap(), false)
    && d.is_boiler_text == opt_or(p_bool(o, PropertyType::IsBoilerText).unwrap(), false)
    && d.is_title_date == opt_or(p_bool(o, PropertyType::IsTitleDate).unwrap(), false)
    && d.is_title_text == opt_or(p_bool(o, PropertyType::IsTitleText).unwrap(), false)
    && d.layout_alignment_in_parent == p_layout(o, PropertyType::LayoutAlignmentInParent).unwrap()
    && d.layout_alignment_self == p_layout(o, PropertyType::LayoutAlignmentSelf).unwrap()
    && d.language_code == (match p_u16(o, PropertyType::RichEditTextLangId).unwrap() { Some(v) => Some(v as u32), None => None })
    && d.rtl == opt_or(p_bool(o, PropertyType::ReadingOrderRtl).unwrap(), false)
    && tags_is(d.note_tags@, o)
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
