#prelude
use crate::one::property::simple::*;
use crate::ext::{os, ov, opt_or, is_req, f32_bits, u32s};
use crate::one::property::layout_alignment::{p_layout};
use crate::one::property::object_reference::{p_refs};
use crate::one::property::time::{p_time};
use crate::onestore::types::jcid::JcId;
use crate::one::property_set::note_tag_container::{tags_good, tags_is};
/// without the count in front
pub open spec fn after_first(s: Seq<u8>) -> Seq<u8> { s.skip(crate::ext::vx_min(1, s.len() as int)) }
pub open spec fn floats(s: Seq<u8>) -> Seq<f32> { Seq::new(s.len() / 4, |i: int| f32_bits(crate::ext::le32(s.subrange(4 * i, 4 * i + 4)))) }
/// the properties the object must have, and have with these types
pub open spec fn good(o: Object) -> bool {
    o.jc_id == JcId(PropertySetId::TableNode.vx_disc() as u32)
    && is_req(p_time(o, PropertyType::LastModifiedTime))
    && is_req(p_refs(o, PropertyType::ElementChildNodes))
    && is_req(p_u32(o, PropertyType::RowCount))
    && is_req(p_u32(o, PropertyType::ColumnCount))
    && p_vec(o, PropertyType::TableColumnsLocked) is Some
    && p_vec(o, PropertyType::TableColumnWidths) is Some
    && p_bool(o, PropertyType::TableBordersVisible) is Some
    && p_layout(o, PropertyType::LayoutAlignmentInParent) is Some
    && p_layout(o, PropertyType::LayoutAlignmentSelf) is Some
    && tags_good(o)
}
/// what is read from a good object
pub open spec fn data_is(d: Data, o: Object) -> bool {
    d.last_modified == p_time(o, PropertyType::LastModifiedTime).unwrap().unwrap()
    && d.rows@ == p_refs(o, PropertyType::ElementChildNodes).unwrap().unwrap()
    && d.row_count == p_u32(o, PropertyType::RowCount).unwrap().unwrap()
    && d.col_count == p_u32(o, PropertyType::ColumnCount).unwrap().unwrap()
    && d.cols_locked@ == (match p_vec(o, PropertyType::TableColumnsLocked).unwrap() { Some(v) => after_first(v), None => Seq::empty() })
    && d.col_widths@ == (match p_vec(o, PropertyType::TableColumnWidths).unwrap() { Some(v) => floats(after_first(v)), None => Seq::empty() })
    && d.borders_visible == opt_or(p_bool(o, PropertyType::TableBordersVisible).unwrap(), true)
    && d.layout_alignment_in_parent == p_layout(o, PropertyType::LayoutAlignmentInParent).unwrap()
    && d.layout_alignment_self == p_layout(o, PropertyType::LayoutAlignmentSelf).unwrap()
    && tags_is(d.note_tags@, o)
}
#fn parse
ensures match r { Ok(d) => good(*object) && data_is(d, *object), Err(_) => !good(*object) }
#loop 0
    invariant __out0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __out0@[i] == f32_bits(crate::ext::le32(__src0@[i]@)),
#after 0
    proof { let f = floats(after_first(value@)); assert forall|i: int| 0 <= i < f.len() implies __out0@[i] == #[trigger] f[i] by { assert(__src0@[i]@ == after_first(value@).subrange(i * 4, (i + 1) * 4)); } assert(__out0@ =~= f); }
