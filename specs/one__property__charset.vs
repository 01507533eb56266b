#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
pub open spec fn charset_of(v: u8) -> Option<Charset> {
    if v == 0 { Some(Charset::Ansi) } else if v == 1 { Some(Charset::Default) } else if v == 2 { Some(Charset::Symbol) } else if v == 77 { Some(Charset::Mac) } else if v == 128 { Some(Charset::ShiftJis) } else if v == 129 { Some(Charset::Hangul) } else if v == 130 { Some(Charset::Johab) } else if v == 134 { Some(Charset::Gb2312) } else if v == 136 { Some(Charset::ChineseBig5) } else if v == 161 { Some(Charset::Greek) } else if v == 162 { Some(Charset::Turkish) } else if v == 163 { Some(Charset::Vietnamese) } else if v == 177 { Some(Charset::Hebrew) } else if v == 178 { Some(Charset::Arabic) } else if v == 186 { Some(Charset::Baltic) } else if v == 204 { Some(Charset::Russian) } else if v == 222 { Some(Charset::Thai) } else if v == 238 { Some(Charset::EastEurope) } else if v == 255 { Some(Charset::Oem) } else { None }
}
pub open spec fn p_charset(o: Object, t: PropertyType) -> Option<Option<Charset>> { match p_u8(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match charset_of(v) { None => None, Some(x) => Some(Some(x)) } } }
#fn Charset::parse
ensures match r { Ok(v) => p_charset(*object, prop_type) == Some(v), Err(_) => p_charset(*object, prop_type) is None }
