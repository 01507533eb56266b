#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
/// [MS-ONE] 2.3.91
pub open spec fn status_of(v: u16) -> Option<ActionItemStatus> { Some(ActionItemStatus { completed: v & 1u16 != 0, disabled: v & 2u16 != 0, task_tag: v & 4u16 != 0 }) }
/// [MS-ONE] 2.3.85
pub open spec fn item_of(v: u16) -> Option<ActionItemType> {
    if v <= 99 { Some(ActionItemType::Numeric(v)) } else if v == 100 { Some(ActionItemType::DueToday) } else if v == 101 { Some(ActionItemType::DueTomorrow) } else if v == 102 { Some(ActionItemType::DueThisWeek) }
    else if v == 103 { Some(ActionItemType::DueNextWeek) } else if v == 104 { Some(ActionItemType::NoDueDate) } else if v == 105 { Some(ActionItemType::CustomDueDate) } else { Some(ActionItemType::Unknown) }
}
pub proof fn lemma_status_bits(v: u16) ensures ((v >> 1) & 1 != 0) == (v & 2u16 != 0), ((v >> 2) & 1 != 0) == (v & 4u16 != 0)
{ assert(((v >> 1) & 1 != 0) == (v & 2u16 != 0) && ((v >> 2) & 1 != 0) == (v & 4u16 != 0)) by (bit_vector); }
pub open spec fn p_status(o: Object, t: PropertyType) -> Option<Option<ActionItemStatus>> { match p_u16(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match status_of(v) { None => None, Some(x) => Some(Some(x)) } } }
pub open spec fn p_item(o: Object, t: PropertyType) -> Option<Option<ActionItemType>> { match p_u16(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match item_of(v) { None => None, Some(x) => Some(Some(x)) } } }
#fn ActionItemStatus::parse
ensures match r { Ok(v) => p_status(*object, PropertyType::ActionItemStatus) == Some(v), Err(_) => p_status(*object, PropertyType::ActionItemStatus) is None }
#entry
    proof { match p_u16(*object, PropertyType::ActionItemStatus) { Some(Some(v)) => lemma_status_bits(v), _ => {} } }
#fn ActionItemType::parse
ensures match r { Ok(v) => p_item(*object, PropertyType::ActionItemType) == Some(v), Err(_) => p_item(*object, PropertyType::ActionItemType) is None }
#fn ActionItemStatus::completed
ensures r == self.completed
#fn ActionItemStatus::disabled
ensures r == self.disabled
#fn ActionItemStatus::task_tag
ensures r == self.task_tag
