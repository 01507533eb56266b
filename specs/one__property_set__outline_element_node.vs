#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::object_reference::{p_ref, p_refs};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::OutlineElementNode.vx_disc() as u32)
    && is_req(p_time(o, PropertyType::CreationTimeStamp))
    && is_req(p_time(o, PropertyType::LastModifiedTime))
    && p_refs(o, PropertyType::ElementChildNodes) is Some
    && is_req(p_u8(o, PropertyType::OutlineElementChildLevel))
    && p_refs(o, PropertyType::ContentChildNodes) is Some
    && p_refs(o, PropertyType::ListNodes) is Some
    && p_f32(o, PropertyType::ListSpacingMu) is Some
    && is_req(p_ref(o, PropertyType::AuthorOriginal))
    && is_req(p_ref(o, PropertyType::AuthorMostRecent))
    && p_bool(o, PropertyType::OutlineElementRtl) is Some
    && p_bool(o, PropertyType::Deletable) is Some
    && p_bool(o, PropertyType::CannotBeSelected) is Some
    && p_bool(o, PropertyType::IsTitleText) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.created_at == p_time(o, PropertyType::CreationTimeStamp).unwrap().unwrap()
    && d.last_modified == p_time(o, PropertyType::LastModifiedTime).unwrap().unwrap()
    && d.children@ == opt_or(p_refs(o, PropertyType::ElementChildNodes).unwrap(), Seq::<ExGuid>::empty())
    && d.child_level == p_u8(o, PropertyType::OutlineElementChildLevel).unwrap().unwrap()
    && d.contents@ == opt_or(p_refs(o, PropertyType::ContentChildNodes).unwrap(), Seq::<ExGuid>::empty())
    && d.list_contents@ == opt_or(p_refs(o, PropertyType::ListNodes).unwrap(), Seq::<ExGuid>::empty())
    && d.list_spacing == p_f32(o, PropertyType::ListSpacingMu).unwrap()
    && d.author_original == p_ref(o, PropertyType::AuthorOriginal).unwrap().unwrap()
    && d.author_most_recent == p_ref(o, PropertyType::AuthorMostRecent).unwrap().unwrap()
    && d.rtl == opt_or(p_bool(o, PropertyType::OutlineElementRtl).unwrap(), false)
    && d.is_deletable == opt_or(p_bool(o, PropertyType::Deletable).unwrap(), false)
    && d.is_selectable == (match p_bool(o, PropertyType::CannotBeSelected).unwrap() { Some(v) => !v, None => false })
    && d.is_title_text == opt_or(p_bool(o, PropertyType::IsTitleText).unwrap(), false)
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
