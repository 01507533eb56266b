#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
pub open spec fn alignment_of(v: u8) -> Option<ParagraphAlignment> {
    if v == 0 { Some(ParagraphAlignment::Left) } else if v == 1 { Some(ParagraphAlignment::Center) } else if v == 2 { Some(ParagraphAlignment::Right) } else { Some(ParagraphAlignment::Unknown) }
}
pub open spec fn p_alignment(o: Object, t: PropertyType) -> Option<Option<ParagraphAlignment>> { match p_u8(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match alignment_of(v) { None => None, Some(x) => Some(Some(x)) } } }
#fn ParagraphAlignment::parse
ensures match r { Ok(v) => p_alignment(*object, PropertyType::ParagraphAlignment) == Some(v), Err(_) => p_alignment(*object, PropertyType::ParagraphAlignment) is None }
