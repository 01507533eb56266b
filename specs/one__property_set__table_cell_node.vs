#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::color::{p_color};
use crate::one::property::outline_indent_distance::{p_indents};
use crate::one::property::object_reference::{p_refs};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::TableCellNode.vx_disc() as u32)
    && p_time(o, PropertyType::LastModifiedTime) is Some
    && is_req(p_refs(o, PropertyType::ElementChildNodes))
    && p_f32(o, PropertyType::LayoutMaxWidth) is Some
    && is_req(p_indents(o))
    && p_color(o, PropertyType::CellBackgroundColor) is Some
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.last_modified == p_time(o, PropertyType::LastModifiedTime).unwrap()
    && d.contents@ == p_refs(o, PropertyType::ElementChildNodes).unwrap().unwrap()
    && d.layout_max_width == p_f32(o, PropertyType::LayoutMaxWidth).unwrap()
    && d.outline_indent_distance.0@ == p_indents(o).unwrap().unwrap()
    && d.background_color == p_color(o, PropertyType::CellBackgroundColor).unwrap()
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
