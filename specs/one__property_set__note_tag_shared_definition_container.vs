#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::color_ref::{p_color_ref};
use crate::one::property::note_tag::{p_item};
use crate::one::property::note_tag_property_status::{p_tag_status};
use crate::onestore::types::jcid::JcId;
use crate::one::property::note_tag_shape::shape_of;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::NoteTagSharedDefinitionContainer.vx_disc() as u32)
    && is_req(p_string(o, PropertyType::NoteTagLabel))
    && is_req(p_tag_status(o, PropertyType::NoteTagPropertyStatus))
    && is_req(p_u16(o, PropertyType::NoteTagShape))
    && shape_of(p_u16(o, PropertyType::NoteTagShape).unwrap().unwrap()) is Some
    && p_color_ref(o, PropertyType::NoteTagHighlightColor) is Some
    && p_color_ref(o, PropertyType::NoteTagTextColor) is Some
    && is_req(p_item(o, PropertyType::ActionItemType))
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.label@ == p_string(o, PropertyType::NoteTagLabel).unwrap().unwrap()
    && d.status == p_tag_status(o, PropertyType::NoteTagPropertyStatus).unwrap().unwrap()
    && d.shape == shape_of(p_u16(o, PropertyType::NoteTagShape).unwrap().unwrap()).unwrap()
    && d.highlight_color == p_color_ref(o, PropertyType::NoteTagHighlightColor).unwrap()
    && d.text_color == p_color_ref(o, PropertyType::NoteTagTextColor).unwrap()
    && d.action_item_type == p_item(o, PropertyType::ActionItemType).unwrap().unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
