#prelude
use crate::ext::{os, ov};
use crate::onestore::object_space::{has_o, ob};
use crate::onestore::object::Object;
use crate::one::property_set::note_tag_shared_definition_container as dn;
pub open spec fn def_ok(id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && dn::good(ob(s, id)) }
pub open spec fn def_from(v: NoteTagDefinition, d: dn::Data) -> bool {
    v.label@ == d.label@ && v.status == d.status && v.shape == d.shape && v.highlight_color == d.highlight_color && v.text_color == d.text_color && v.action_item_type == d.action_item_type
}
/// the definition stored under an id
pub open spec fn def_is(v: NoteTagDefinition, id: ExGuid, s: ObjectSpace) -> bool { def_ok(id, s) && exists|d: dn::Data| #[trigger] dn::data_is(d, ob(s, id)) && def_from(v, d) }
pub open spec fn tag_ok(d: Data, s: ObjectSpace) -> bool { d.definition matches Some(i) ==> def_ok(i, s) }
pub open spec fn tag_is(v: NoteTag, d: Data, s: ObjectSpace) -> bool {
    v.completed_at == d.completed_at && v.item_status == d.item_status
    && (match d.definition { Some(i) => v.definition matches Some(x) && def_is(x, i, s), None => v.definition is None })
}
/// the tags that were read from a node, with the definitions they name
pub open spec fn tags_from(v: Seq<NoteTag>, d: Seq<Data>, s: ObjectSpace) -> bool { v.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> tag_is(#[trigger] v[i], d[i], s) }
pub open spec fn tags_bad(d: Seq<Data>, s: ObjectSpace) -> bool { exists|i: int| 0 <= i < d.len() && !tag_ok(#[trigger] d[i], s) }
#fn parse_note_tags
ensures match r { Ok(v) => tags_from(v@, note_tags@, *space), Err(_) => tags_bad(note_tags@, *space) }
#loop 0
    invariant __src0@ == note_tags@, tags_from(__out0@, note_tags@.take(__k0 as int), *space),
#fn parse_note_tag_definition
ensures match r { Ok(v) => def_is(v, definition_id, *space), Err(_) => !def_ok(definition_id, *space) }
#fn NoteTag::completed_at
ensures r == self.completed_at
#fn NoteTag::item_status
ensures r == self.item_status
#fn NoteTag::definition
ensures r == (match self.definition { Some(x) => Some(&x), None => None })
#fn NoteTagDefinition::label
ensures r@ == self.label@
#fn NoteTagDefinition::status
ensures *r == self.status
#fn NoteTagDefinition::shape
ensures r == self.shape
#fn NoteTagDefinition::highlight_color
ensures r == self.highlight_color
#fn NoteTagDefinition::text_color
ensures r == self.text_color
#fn NoteTagDefinition::action_item_type
ensures r == self.action_item_type
