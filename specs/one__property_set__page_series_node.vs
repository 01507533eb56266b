#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::object_reference::{p_refs};
use crate::one::property::time::{p_timestamp};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::PageSeriesNode.vx_disc() as u32)
    && is_req(p_guid(o, PropertyType::NotebookManagementEntityGuid))
    && crate::one::property::object_space_reference::p_refs(o, PropertyType::ChildGraphSpaceElementNodes) is Some
    && p_refs(o, PropertyType::MetaDataObjectsAboveGraphSpace) is Some
    && p_timestamp(o, PropertyType::TopologyCreationTimeStamp) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.entity_guid == p_guid(o, PropertyType::NotebookManagementEntityGuid).unwrap().unwrap()
    && d.page_spaces@ == opt_or(crate::one::property::object_space_reference::p_refs(o, PropertyType::ChildGraphSpaceElementNodes).unwrap(), Seq::<CellId>::empty())
    && d.page_metadata@ == opt_or(p_refs(o, PropertyType::MetaDataObjectsAboveGraphSpace).unwrap(), Seq::<ExGuid>::empty())
    && d.created_at == p_timestamp(o, PropertyType::TopologyCreationTimeStamp).unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
