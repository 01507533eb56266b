#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
/// [MS-ONE] 2.3.87
pub open spec fn tag_status_of(v: u32) -> Option<NoteTagPropertyStatus> { Some(NoteTagPropertyStatus { has_label: v & 1u32 != 0, has_font_color: v & 2u32 != 0, has_highlight_color: v & 4u32 != 0, has_icon: v & 8u32 != 0, due_today: v & 64u32 != 0, due_tomorrow: v & 128u32 != 0, due_this_week: v & 256u32 != 0, due_next_week: v & 512u32 != 0, due_later: v & 1024u32 != 0, due_custom: v & 2048u32 != 0 }) }
pub proof fn lemma_tag_status_bits(v: u32) ensures ((v >> 1) & 1 != 0) == (v & 2u32 != 0) && ((v >> 2) & 1 != 0) == (v & 4u32 != 0) && ((v >> 3) & 1 != 0) == (v & 8u32 != 0) && ((v >> 6) & 1 != 0) == (v & 64u32 != 0) && ((v >> 7) & 1 != 0) == (v & 128u32 != 0) && ((v >> 8) & 1 != 0) == (v & 256u32 != 0) && ((v >> 9) & 1 != 0) == (v & 512u32 != 0) && ((v >> 10) & 1 != 0) == (v & 1024u32 != 0) && ((v >> 11) & 1 != 0) == (v & 2048u32 != 0)
{ assert(((v >> 1) & 1 != 0) == (v & 2u32 != 0) && ((v >> 2) & 1 != 0) == (v & 4u32 != 0) && ((v >> 3) & 1 != 0) == (v & 8u32 != 0) && ((v >> 6) & 1 != 0) == (v & 64u32 != 0) && ((v >> 7) & 1 != 0) == (v & 128u32 != 0) && ((v >> 8) & 1 != 0) == (v & 256u32 != 0) && ((v >> 9) & 1 != 0) == (v & 512u32 != 0) && ((v >> 10) & 1 != 0) == (v & 1024u32 != 0) && ((v >> 11) & 1 != 0) == (v & 2048u32 != 0)) by (bit_vector); }
pub open spec fn p_tag_status(o: Object, t: PropertyType) -> Option<Option<NoteTagPropertyStatus>> { match p_u32(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match tag_status_of(v) { None => None, Some(x) => Some(Some(x)) } } }
#fn NoteTagPropertyStatus::parse
ensures match r { Ok(v) => p_tag_status(*object, PropertyType::NoteTagPropertyStatus) == Some(v), Err(_) => p_tag_status(*object, PropertyType::NoteTagPropertyStatus) is None }
#entry
    proof { match p_u32(*object, PropertyType::NoteTagPropertyStatus) { Some(Some(v)) => lemma_tag_status_bits(v), _ => {} } }
#fn NoteTagPropertyStatus::has_label
ensures r == self.has_label
#fn NoteTagPropertyStatus::has_font_color
ensures r == self.has_font_color
#fn NoteTagPropertyStatus::has_highlight_color
ensures r == self.has_highlight_color
#fn NoteTagPropertyStatus::has_icon
ensures r == self.has_icon
#fn NoteTagPropertyStatus::due_today
ensures r == self.due_today
#fn NoteTagPropertyStatus::due_tomorrow
ensures r == self.due_tomorrow
#fn NoteTagPropertyStatus::due_this_week
ensures r == self.due_this_week
#fn NoteTagPropertyStatus::due_next_week
ensures r == self.due_next_week
#fn NoteTagPropertyStatus::due_later
ensures r == self.due_later
#fn NoteTagPropertyStatus::due_custom
ensures r == self.due_custom
