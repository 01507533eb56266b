#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::time::{p_timestamp};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::PageMetadata.vx_disc() as u32)
    && is_req(p_guid(o, PropertyType::NotebookManagementEntityGuid))
    && is_req(p_string(o, PropertyType::CachedTitleString))
    && p_u32(o, PropertyType::SchemaRevisionInOrderToRead) is Some
    && p_u32(o, PropertyType::SchemaRevisionInOrderToWrite) is Some
    && p_u32(o, PropertyType::PageLevel) is Some
    && is_req(p_timestamp(o, PropertyType::TopologyCreationTimeStamp))
    && p_bool(o, PropertyType::IsDeletedGraphSpaceContent) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.entity_guid == p_guid(o, PropertyType::NotebookManagementEntityGuid).unwrap().unwrap()
    && d.cached_title@ == p_string(o, PropertyType::CachedTitleString).unwrap().unwrap()
    && d.schema_revision_in_order_to_read == p_u32(o, PropertyType::SchemaRevisionInOrderToRead).unwrap()
    && d.schema_revision_in_order_to_write == p_u32(o, PropertyType::SchemaRevisionInOrderToWrite).unwrap()
    && d.page_level == opt_or(p_u32(o, PropertyType::PageLevel).unwrap(), 0u32) as i32
    && d.created_at == p_timestamp(o, PropertyType::TopologyCreationTimeStamp).unwrap().unwrap()
    && d.is_deleted == opt_or(p_bool(o, PropertyType::IsDeletedGraphSpaceContent).unwrap(), false)
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
