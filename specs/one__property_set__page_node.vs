#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::page_size::{p_page_size};
use crate::one::property::object_reference::{p_refs};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::PageNode.vx_disc() as u32)
    && p_time(o, PropertyType::LastModifiedTime) is Some
    && p_string(o, PropertyType::CachedTitleStringFromPage) is Some
    && p_string(o, PropertyType::Author) is Some
    && p_refs(o, PropertyType::ElementChildNodes) is Some
    && p_refs(o, PropertyType::StructureElementChildNodes) is Some
    && p_bool(o, PropertyType::PortraitPage) is Some
    && p_f32(o, PropertyType::PageWidth) is Some
    && p_f32(o, PropertyType::PageHeight) is Some
    && p_f32(o, PropertyType::PageMarginOriginX) is Some
    && p_f32(o, PropertyType::PageMarginOriginY) is Some
    && p_f32(o, PropertyType::PageMarginLeft) is Some
    && p_f32(o, PropertyType::PageMarginRight) is Some
    && p_f32(o, PropertyType::PageMarginTop) is Some
    && p_f32(o, PropertyType::PageMarginBottom) is Some
    && p_page_size(o, PropertyType::PageSize) is Some
    && p_bool(o, PropertyType::EditRootRtl) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.last_modified == p_time(o, PropertyType::LastModifiedTime).unwrap()
    && os(d.cached_title) == p_string(o, PropertyType::CachedTitleStringFromPage).unwrap()
    && (match d.author { Some(a) => Some(a.0@), None => None }) == p_string(o, PropertyType::Author).unwrap()
    && d.content@ == opt_or(p_refs(o, PropertyType::ElementChildNodes).unwrap(), Seq::<ExGuid>::empty())
    && d.title == (match p_refs(o, PropertyType::StructureElementChildNodes).unwrap() { Some(v) => if v.len() > 0 { Some(v[0]) } else { None }, None => None })
    && d.orientation_portrait == opt_or(p_bool(o, PropertyType::PortraitPage).unwrap(), false)
    && d.page_width == p_f32(o, PropertyType::PageWidth).unwrap()
    && d.page_height == p_f32(o, PropertyType::PageHeight).unwrap()
    && d.page_margin_origin_x == p_f32(o, PropertyType::PageMarginOriginX).unwrap()
    && d.page_margin_origin_y == p_f32(o, PropertyType::PageMarginOriginY).unwrap()
    && d.page_margin_left == p_f32(o, PropertyType::PageMarginLeft).unwrap()
    && d.page_margin_right == p_f32(o, PropertyType::PageMarginRight).unwrap()
    && d.page_margin_top == p_f32(o, PropertyType::PageMarginTop).unwrap()
    && d.page_margin_bottom == p_f32(o, PropertyType::PageMarginBottom).unwrap()
    && d.page_size == opt_or(p_page_size(o, PropertyType::PageSize).unwrap(), PageSize::Auto)
    && d.rtl == opt_or(p_bool(o, PropertyType::EditRootRtl).unwrap(), false)
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
