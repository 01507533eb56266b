#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
/// [MS-ONE] 2.2.7: red, green, blue and transparency, from the least significant byte up; the library reports opacity
pub open spec fn color_of(v: u32) -> Option<Color> { Some(Color { alpha: (255 - ((v >> 24) as u8)) as u8, r: v as u8, g: (v >> 8) as u8, b: (v >> 16) as u8 }) }
pub open spec fn p_color(o: Object, t: PropertyType) -> Option<Option<Color>> { match p_u32(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match color_of(v) { None => None, Some(x) => Some(Some(x)) } } }
#fn Color::parse
ensures match r { Ok(v) => p_color(*object, prop_type) == Some(v), Err(_) => p_color(*object, prop_type) is None }
#fn Color::alpha
ensures r == self.alpha
#fn Color::r -> x
ensures x == self.r
#fn Color::g
ensures r == self.g
#fn Color::b
ensures r == self.b
