#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::paragraph_alignment::{p_alignment};
use crate::one::property::charset::{p_charset};
use crate::one::property::color_ref::{p_color_ref};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::ParagraphStyleObject.vx_disc() as u32)
    && p_charset(o, PropertyType::Charset) is Some
    && p_bool(o, PropertyType::Bold) is Some
    && p_bool(o, PropertyType::Italic) is Some
    && p_bool(o, PropertyType::Underline) is Some
    && p_bool(o, PropertyType::Strikethrough) is Some
    && p_bool(o, PropertyType::Superscript) is Some
    && p_bool(o, PropertyType::Subscript) is Some
    && p_string(o, PropertyType::Font) is Some
    && p_u16(o, PropertyType::FontSize) is Some
    && p_color_ref(o, PropertyType::FontColor) is Some
    && p_color_ref(o, PropertyType::Highlight) is Some
    && p_string(o, PropertyType::NextStyle) is Some
    && p_string(o, PropertyType::ParagraphStyleId) is Some
    && p_alignment(o, PropertyType::ParagraphAlignment) is Some
    && p_f32(o, PropertyType::ParagraphSpaceBefore) is Some
    && p_f32(o, PropertyType::ParagraphSpaceAfter) is Some
    && p_f32(o, PropertyType::ParagraphLineSpacingExact) is Some
    && p_u32(o, PropertyType::LanguageId) is Some
    && p_bool(o, PropertyType::MathFormatting) is Some
    && p_bool(o, PropertyType::Hyperlink) is Some
    && p_bool(o, PropertyType::HyperlinkProtected) is Some
    && p_bool(o, PropertyType::Hidden) is Some
    && p_bool(o, PropertyType::TextRunIsEmbeddedObject) is Some
    && p_u32(o, PropertyType::EmbeddedObjectType) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.charset == p_charset(o, PropertyType::Charset).unwrap()
    && d.bold == opt_or(p_bool(o, PropertyType::Bold).unwrap(), false)
    && d.italic == opt_or(p_bool(o, PropertyType::Italic).unwrap(), false)
    && d.underline == opt_or(p_bool(o, PropertyType::Underline).unwrap(), false)
    && d.strikethrough == opt_or(p_bool(o, PropertyType::Strikethrough).unwrap(), false)
    && d.superscript == opt_or(p_bool(o, PropertyType::Superscript).unwrap(), false)
    && d.subscript == opt_or(p_bool(o, PropertyType::Subscript).unwrap(), false)
    && os(d.font) == p_string(o, PropertyType::Font).unwrap()
    && d.font_size == p_u16(o, PropertyType::FontSize).unwrap()
    && d.font_color == p_color_ref(o, PropertyType::FontColor).unwrap()
    && d.highlight == p_color_ref(o, PropertyType::Highlight).unwrap()
    && os(d.next_style) == p_string(o, PropertyType::NextStyle).unwrap()
    && os(d.style_id) == p_string(o, PropertyType::ParagraphStyleId).unwrap()
    && d.paragraph_alignment == p_alignment(o, PropertyType::ParagraphAlignment).unwrap()
    && d.paragraph_space_before == p_f32(o, PropertyType::ParagraphSpaceBefore).unwrap()
    && d.paragraph_space_after == p_f32(o, PropertyType::ParagraphSpaceAfter).unwrap()
    && d.paragraph_line_spacing_exact == p_f32(o, PropertyType::ParagraphLineSpacingExact).unwrap()
    && d.language_code == p_u32(o, PropertyType::LanguageId).unwrap()
    && d.math_formatting == opt_or(p_bool(o, PropertyType::MathFormatting).unwrap(), false)
    && d.hyperlink == opt_or(p_bool(o, PropertyType::Hyperlink).unwrap(), false)
    && d.hyperlink_protected == opt_or(p_bool(o, PropertyType::HyperlinkProtected).unwrap(), false)
    && d.hidden == opt_or(p_bool(o, PropertyType::Hidden).unwrap(), false)
    && d.text_run_is_embedded_object == opt_or(p_bool(o, PropertyType::TextRunIsEmbeddedObject).unwrap(), false)
    && d.text_run_object_type == p_u32(o, PropertyType::EmbeddedObjectType).unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
