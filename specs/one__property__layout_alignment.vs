#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
pub open spec fn horizontal_of(v: u32) -> Option<HorizontalAlignment> {
    if v == 0 { Some(HorizontalAlignment::Unknown) } else if v == 1 { Some(HorizontalAlignment::Left) } else if v == 2 { Some(HorizontalAlignment::Center) } else if v == 3 { Some(HorizontalAlignment::Right) } else if v == 4 { Some(HorizontalAlignment::BiDiNormal) } else if v == 5 { Some(HorizontalAlignment::BiDiReverse) } else { None }
}
/// [MS-ONE] 2.3.2: an unset alignment has the top bit
pub open spec fn layout_of(v: u32) -> Option<Option<LayoutAlignment>> {
    if v & 0x8000_0000u32 != 0 { Some(None) } else {
        match horizontal_of(v & 7u32) { None => None, Some(h) => Some(Some(LayoutAlignment { alignment_horizontal: h,
            alignment_margin_horizontal: if v & 0x8u32 != 0 { HorizontalAlignmentMargin::Left } else { HorizontalAlignmentMargin::Right },
            alignment_vertical: if v & 0x1_0000u32 != 0 { VerticalAlignment::Top } else { VerticalAlignment::Bottom },
            alignment_margin_vertical: if v & 0x8_0000u32 != 0 { VerticalAlignmentMargin::Top } else { VerticalAlignmentMargin::Bottom } })) } }
}
pub open spec fn p_layout(o: Object, t: PropertyType) -> Option<Option<LayoutAlignment>> { match p_u32(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => layout_of(v) } }
pub proof fn lemma_layout_bits(v: u32) ensures ((v >> 31) & 1 != 0) == (v & 0x8000_0000u32 != 0), ((v >> 3) & 1 != 0) == (v & 0x8u32 != 0), ((v >> 16) & 1 != 0) == (v & 0x1_0000u32 != 0), ((v >> 19) & 1 != 0) == (v & 0x8_0000u32 != 0),
    (v >> 31) & 1 <= 1, (v >> 3) & 1 <= 1, (v >> 16) & 1 <= 1, (v >> 19) & 1 <= 1
{ assert(((v >> 31) & 1 != 0) == (v & 0x8000_0000u32 != 0) && ((v >> 3) & 1 != 0) == (v & 0x8u32 != 0) && ((v >> 16) & 1 != 0) == (v & 0x1_0000u32 != 0) && ((v >> 19) & 1 != 0) == (v & 0x8_0000u32 != 0) && (v >> 31) & 1 <= 1 && (v >> 3) & 1 <= 1 && (v >> 16) & 1 <= 1 && (v >> 19) & 1 <= 1) by (bit_vector); }
#fn LayoutAlignment::parse
ensures match r { Ok(v) => p_layout(*object, prop_type) == Some(v), Err(_) => p_layout(*object, prop_type) is None }
#entry
    proof { match p_u32(*object, prop_type) { Some(Some(v)) => lemma_layout_bits(v), _ => {} } }
#fn HorizontalAlignment::parse
ensures match r { Ok(v) => horizontal_of(value) == Some(v), Err(_) => horizontal_of(value) is None }
#fn HorizontalAlignmentMargin::parse
ensures match r { Ok(v) => value <= 1 && v == (if value == 1 { HorizontalAlignmentMargin::Left } else { HorizontalAlignmentMargin::Right }), Err(_) => value > 1 }
#fn VerticalAlignment::parse
ensures match r { Ok(v) => value <= 1 && v == (if value == 1 { VerticalAlignment::Top } else { VerticalAlignment::Bottom }), Err(_) => value > 1 }
#fn VerticalAlignmentMargin::parse
ensures match r { Ok(v) => value <= 1 && v == (if value == 1 { VerticalAlignmentMargin::Top } else { VerticalAlignmentMargin::Bottom }), Err(_) => value > 1 }
#fn LayoutAlignment::alignment_horizontal
ensures r == self.alignment_horizontal
#fn LayoutAlignment::alignment_margin_horizontal
ensures r == self.alignment_margin_horizontal
#fn LayoutAlignment::alignment_vertical
ensures r == self.alignment_vertical
#fn LayoutAlignment::alignment_margin_vertical
ensures r == self.alignment_margin_vertical
