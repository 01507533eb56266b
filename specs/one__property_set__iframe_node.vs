#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::IFrameNode.vx_disc() as u32)
    && p_u32(o, PropertyType::ImageEmbedType) is Some
    && is_req(p_string(o, PropertyType::ImageEmbeddedUrl))
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.embed_type == p_u32(o, PropertyType::ImageEmbedType).unwrap()
    && d.source_url@ == p_string(o, PropertyType::ImageEmbeddedUrl).unwrap().unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
