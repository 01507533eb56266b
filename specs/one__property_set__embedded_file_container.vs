#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::onestore::types::jcid::JcId;
#fn parse
ensures match r { Ok(d) => object.jc_id == JcId(PropertySetId::EmbeddedFileContainer.vx_disc() as u32) && object.file_data is Some && d.0@ == object.file_data.unwrap()@, Err(_) => object.jc_id != JcId(PropertySetId::EmbeddedFileContainer.vx_disc() as u32) || object.file_data is None }
#fn Data::into_value
ensures r == self.0
