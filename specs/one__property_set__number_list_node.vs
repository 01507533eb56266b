#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::color_ref::{p_color_ref};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
/// a list's format: UTF-16 after the length, U+FFFD for what is not
pub open spec fn format_of(u: Seq<u16>) -> Seq<char> { crate::ext::utf16_lossy(u.skip(crate::ext::vx_min(1, u.len() as int))) }
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::NumberListNode.vx_disc() as u32)
    && is_req(p_time(o, PropertyType::LastModifiedTime))
    && p_string(o, PropertyType::ListFont) is Some
    && p_u32(o, PropertyType::ListRestart) is Some
    && is_req(p_u16s(o, PropertyType::NumberListFormat))
    && p_bool(o, PropertyType::Bold) is Some
    && p_bool(o, PropertyType::Italic) is Some
    && p_u32(o, PropertyType::LanguageId) is Some
    && p_string(o, PropertyType::Font) is Some
    && p_u16(o, PropertyType::FontSize) is Some
    && p_color_ref(o, PropertyType::FontColor) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.last_modified == p_time(o, PropertyType::LastModifiedTime).unwrap().unwrap()
    && os(d.list_font) == p_string(o, PropertyType::ListFont).unwrap()
    && d.list_restart == (match p_u32(o, PropertyType::ListRestart).unwrap() { Some(v) => Some(v as i32), None => None })
    && d.list_format@ == format_of(p_u16s(o, PropertyType::NumberListFormat).unwrap().unwrap())
    && d.bold == opt_or(p_bool(o, PropertyType::Bold).unwrap(), false)
    && d.italic == opt_or(p_bool(o, PropertyType::Italic).unwrap(), false)
    && d.language_code == p_u32(o, PropertyType::LanguageId).unwrap()
    && os(d.font) == p_string(o, PropertyType::Font).unwrap()
    && d.font_size == p_u16(o, PropertyType::FontSize).unwrap()
    && d.font_color == p_color_ref(o, PropertyType::FontColor).unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
#fn parse_list_format
ensures r@ == format_of(data@)
#loop 0
    invariant __out0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __out0@[i] == crate::ext::lossy(__src0@[i]),
#after 0
    assert(__out0@ =~= format_of(data@));
