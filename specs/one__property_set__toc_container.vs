#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::color::{p_color};
use crate::one::property::object_reference::{p_refs};
use crate::onestore::types::jcid::JcId;
/// a name as it is on disk: "^M" stands for a plus sign, "^J" for a comma
pub open spec fn unescaped(s: Seq<char>) -> Seq<char> { crate::ext::replaced(crate::ext::replaced(s, "^M"@, "+"@), "^J"@, ","@) }
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::TocContainer.vx_disc() as u32)
    && p_refs(o, PropertyType::TocChildren) is Some
    && p_string(o, PropertyType::FolderChildFilename) is Some
    && p_u32(o, PropertyType::NotebookElementOrderingId) is Some
    && p_color(o, PropertyType::SectionColor) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.children@ == opt_or(p_refs(o, PropertyType::TocChildren).unwrap(), Seq::<ExGuid>::empty())
    && os(d.filename) == (match p_string(o, PropertyType::FolderChildFilename).unwrap() { Some(s) => Some(unescaped(s)), None => None })
    && d.ordering_id == p_u32(o, PropertyType::NotebookElementOrderingId).unwrap()
    && d.color == p_color(o, PropertyType::SectionColor).unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
