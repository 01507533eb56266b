#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
/// [MS-ONE] 2.2.8
pub open spec fn color_ref_of(v: u32) -> Option<ColorRef> { if (v >> 24) as u8 == 0xFF { Some(ColorRef::Auto) } else if (v >> 24) as u8 == 0 { Some(ColorRef::Manual { r: v as u8, g: (v >> 8) as u8, b: (v >> 16) as u8 }) } else { None } }
pub open spec fn p_color_ref(o: Object, t: PropertyType) -> Option<Option<ColorRef>> { match p_u32(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match color_ref_of(v) { None => None, Some(x) => Some(Some(x)) } } }
#fn ColorRef::parse
ensures match r { Ok(v) => p_color_ref(*object, prop_type) == Some(v), Err(_) => p_color_ref(*object, prop_type) is None }
