#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::onestore::types::jcid::JcId;
use crate::one::property::object_reference::p_refs;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::PageManifestNode.vx_disc() as u32)
    && is_req(p_refs(o, PropertyType::ContentChildNodes))
    && p_refs(o, PropertyType::ContentChildNodes).unwrap().unwrap().len() > 0
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.page == p_refs(o, PropertyType::ContentChildNodes).unwrap().unwrap()[0]
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
