#prelude
use crate::ext::{os, ov};
use crate::onestore::object_space::{has_o, ob};
use crate::onestore::object::Object;
use crate::one::property_set::number_list_node as nd;
pub open spec fn list_ok(id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && nd::good(ob(s, id)) }
/// the list marker stored under an id
pub open spec fn list_is(v: List, id: ExGuid, s: ObjectSpace) -> bool {
    list_ok(id, s) && exists|d: nd::Data| #[trigger] nd::data_is(d, ob(s, id)) && os(v.list_font) == os(d.list_font) && v.list_restart == d.list_restart && v.list_format@ == d.list_format@
        && v.bold == d.bold && v.italic == d.italic && os(v.font) == os(d.font) && v.font_size == d.font_size && v.font_color == d.font_color
}
#fn parse_list
ensures match r { Ok(v) => list_is(v, list_id, *space), Err(_) => !list_ok(list_id, *space) }
#fn List::list_font
ensures r is Some == self.list_font is Some, r matches Some(x) ==> x@ == self.list_font.unwrap()@
#fn List::list_restart
ensures r == self.list_restart
#fn List::list_format
ensures r@ == self.list_format@
#fn List::bold
ensures r == self.bold
#fn List::italic
ensures r == self.italic
#fn List::font
ensures r is Some == self.font is Some, r matches Some(x) ==> x@ == self.font.unwrap()@
#fn List::font_size
ensures r == self.font_size
#fn List::font_color
ensures r == self.font_color
