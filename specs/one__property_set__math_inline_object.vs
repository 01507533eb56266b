#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::onestore::types::jcid::JcId;
/// a character stored as one UTF-16 unit
pub open spec fn char_ok(v: Option<Option<u16>>) -> bool { match v { None => false, Some(None) => true, Some(Some(c)) => crate::ext::utf16(seq![c]) is Some } }
pub open spec fn char_of(v: Option<Option<u16>>) -> Option<char> { match v { Some(Some(c)) => { let s = crate::ext::utf16(seq![c]).unwrap(); if s.len() > 0 { Some(s[0]) } else { None } } _ => None } }
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    p_u32(o, PropertyType::MathInlineObjectType) is Some
    && p_u32(o, PropertyType::MathInlineObjectCount) is Some
    && p_u8(o, PropertyType::MathInlineObjectCol) is Some
    && p_u8(o, PropertyType::MathInlineObjectAlign) is Some
    && char_ok(p_u16(o, PropertyType::MathInlineObjectChar))
    && char_ok(p_u16(o, PropertyType::MathInlineObjectChar1))
    && char_ok(p_u16(o, PropertyType::MathInlineObjectChar2))
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.object_type == p_u32(o, PropertyType::MathInlineObjectType).unwrap()
    && d.arg_count == p_u32(o, PropertyType::MathInlineObjectCount).unwrap()
    && d.column == p_u8(o, PropertyType::MathInlineObjectCol).unwrap()
    && d.align == p_u8(o, PropertyType::MathInlineObjectAlign).unwrap()
    && d.char == char_of(p_u16(o, PropertyType::MathInlineObjectChar))
    && d.char1 == char_of(p_u16(o, PropertyType::MathInlineObjectChar1))
    && d.char2 == char_of(p_u16(o, PropertyType::MathInlineObjectChar2))
}
#fn Data::parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
#fn parse_utf16_char
ensures match r { Ok(v) => char_ok(Some(Some(c))) && v == char_of(Some(Some(c))), Err(_) => !char_ok(Some(Some(c))) }
#entry
    assert([c]@ =~= seq![c]);
