#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::onestore::types::jcid::JcId;
pub open spec fn good(o: Object) -> bool { (o.jc_id == JcId(PropertySetId::PictureContainer.vx_disc() as u32) || o.jc_id == JcId(PropertySetId::XpsContainer.vx_disc() as u32)) && p_string(o, PropertyType::PictureFileExtension) is Some }
pub open spec fn data_is(d: Data, o: Object) -> bool { d.data@ == (match o.file_data { Some(b) => b@, None => Seq::empty() }) && os(d.extension) == p_string(o, PropertyType::PictureFileExtension).unwrap() }
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
