#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
pub open spec fn page_size_of(v: u8) -> Option<PageSize> {
    if v == 0 { Some(PageSize::Auto) } else if v == 1 { Some(PageSize::Us) } else if v == 2 { Some(PageSize::AnsiLetter) } else if v == 3 { Some(PageSize::AnsiTabloid) } else if v == 4 { Some(PageSize::UsLegal) } else if v == 5 { Some(PageSize::IsoA3) } else if v == 6 { Some(PageSize::IsoA4) } else if v == 7 { Some(PageSize::IsoA5) } else if v == 8 { Some(PageSize::IsoA6) } else if v == 9 { Some(PageSize::JisB4) } else if v == 10 { Some(PageSize::JisB5) } else if v == 11 { Some(PageSize::JisB6) } else if v == 12 { Some(PageSize::JapanesePostcard) } else if v == 13 { Some(PageSize::IndexCard) } else if v == 14 { Some(PageSize::Billfold) } else if v == 15 { Some(PageSize::Custom) } else { None }
}
pub open spec fn p_page_size(o: Object, t: PropertyType) -> Option<Option<PageSize>> { match p_u8(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match page_size_of(v) { None => None, Some(x) => Some(Some(x)) } } }
#fn PageSize::parse
ensures match r { Ok(v) => p_page_size(*object, prop_type) == Some(v), Err(_) => p_page_size(*object, prop_type) is None }
