#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::object_reference::{p_refs};
use crate::one::property::time::{p_timestamp};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::SectionNode.vx_disc() as u32)
    && is_req(p_guid(o, PropertyType::NotebookManagementEntityGuid))
    && p_refs(o, PropertyType::ElementChildNodes) is Some
    && is_req(p_timestamp(o, PropertyType::TopologyCreationTimeStamp))
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.context_id == o.context_id
    && d.entity_guid == p_guid(o, PropertyType::NotebookManagementEntityGuid).unwrap().unwrap()
    && d.page_series@ == opt_or(p_refs(o, PropertyType::ElementChildNodes).unwrap(), Seq::<ExGuid>::empty())
    && d.created_at == p_timestamp(o, PropertyType::TopologyCreationTimeStamp).unwrap().unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
