#prelude
use crate::ext::{os, ov};
use crate::onestore::object_space::{has_o, ob};
use crate::onestore::object::Object;
use crate::one::property_set::embedded_file_node as nd;
use crate::one::property_set::PropertySetId;
use crate::onestore::types::jcid::JcId;
use crate::onenote::note_tag::{tags_from, tags_bad};
/// an object that carries a file's bytes
pub open spec fn file_there(id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && ob(s, id).jc_id == JcId(PropertySetId::EmbeddedFileContainer.vx_disc() as u32) && ob(s, id).file_data is Some }
pub open spec fn file_from(v: EmbeddedFile, d: nd::Data, s: ObjectSpace) -> bool {
    v.filename@ == d.embedded_file_name@ && v.file_type == d.file_type && file_there(d.embedded_file_container, s) && v.data@ == ob(s, d.embedded_file_container).file_data.unwrap()@
    && v.layout_max_width == d.layout_max_width && v.layout_max_height == d.layout_max_height && v.offset_horizontal == d.offset_from_parent_horiz && v.offset_vertical == d.offset_from_parent_vert
    && tags_from(v.note_tags@, d.note_tags@, s)
}
/// the file stored under an id
pub open spec fn file_is(v: EmbeddedFile, id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && nd::good(ob(s, id)) && exists|d: nd::Data| #[trigger] nd::data_is(d, ob(s, id)) && file_from(v, d, s) }
pub open spec fn file_bad(id: ExGuid, s: ObjectSpace) -> bool { !has_o(s, id) || !nd::good(ob(s, id)) || exists|d: nd::Data| #[trigger] nd::data_is(d, ob(s, id)) && (!file_there(d.embedded_file_container, s) || tags_bad(d.note_tags@, s)) }
#fn parse_embedded_file
ensures match r { Ok(v) => file_is(v, file_id, *space), Err(_) => file_bad(file_id, *space) }
#fn EmbeddedFile::filename
ensures r@ == self.filename@
#fn EmbeddedFile::file_type
ensures *r == self.file_type
#fn EmbeddedFile::data
ensures r@ == self.data@
#fn EmbeddedFile::layout_max_width
ensures r == self.layout_max_width
#fn EmbeddedFile::layout_max_height
ensures r == self.layout_max_height
#fn EmbeddedFile::offset_horizontal
ensures r == self.offset_horizontal
#fn EmbeddedFile::offset_vertical
ensures r == self.offset_vertical
#fn EmbeddedFile::note_tags
ensures r@ == self.note_tags@
