#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::object_reference::{p_ref};
use crate::onestore::types::jcid::JcId;
pub open spec fn bias_of(v: u8) -> InkBias { if v == 0 { InkBias::Handwriting } else if v == 1 { InkBias::Drawing } else { InkBias::Both } }
/// the path of a stroke: where the numbers are all there, these, with their signs
pub open spec fn path_is(p: Seq<i64>, s: Seq<u8>) -> bool { crate::shared::multi_byte::mb_all(s) is Some ==> p == crate::shared::multi_byte::mb_all(s).unwrap().map_values(|v: u64| crate::shared::multi_byte::mb_sign(v)) }
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::InkStrokeNode.vx_disc() as u32)
    && is_req(p_vec(o, PropertyType::InkPath))
    && is_req(p_u8(o, PropertyType::InkBias))
    && p_u8(o, PropertyType::InkBias).unwrap().unwrap() <= 2
    && p_u32(o, PropertyType::LanguageId) is Some
    && is_req(p_ref(o, PropertyType::InkStrokeProperties))
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    path_is(d.path@, p_vec(o, PropertyType::InkPath).unwrap().unwrap())
    && d.bias == bias_of(p_u8(o, PropertyType::InkBias).unwrap().unwrap())
    && d.language_code == p_u32(o, PropertyType::LanguageId).unwrap()
    && d.properties == p_ref(o, PropertyType::InkStrokeProperties).unwrap().unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) || crate::shared::multi_byte::mb_all(p_vec(*object, PropertyType::InkPath).unwrap().unwrap()) is None }
