#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::color::{p_color};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::SectionMetadata.vx_disc() as u32)
    && is_req(p_u32(o, PropertyType::SchemaRevisionInOrderToRead))
    && is_req(p_u32(o, PropertyType::SchemaRevisionInOrderToWrite))
    && p_string(o, PropertyType::SectionDisplayName) is Some
    && p_color(o, PropertyType::SectionColor) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.schema_revision_in_order_to_read == p_u32(o, PropertyType::SchemaRevisionInOrderToRead).unwrap().unwrap()
    && d.schema_revision_in_order_to_write == p_u32(o, PropertyType::SchemaRevisionInOrderToWrite).unwrap().unwrap()
    && os(d.display_name) == p_string(o, PropertyType::SectionDisplayName).unwrap()
    && d.color == p_color(o, PropertyType::SectionColor).unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
