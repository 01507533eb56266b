#prelude
use crate::ext::{os, ov};
use crate::onestore::object_space::{has_o, ob};
use crate::onestore::object::Object;
use crate::one::property_set::image_node as nd;
use crate::one::property_set::picture_container as pc;
use crate::onenote::iframe::{iframe_is, iframe_ok};
use crate::onenote::note_tag::{tags_from, tags_bad};
pub open spec fn pic_there(id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && pc::good(ob(s, id)) }
/// the picture a node names: none when it names none
pub open spec fn pic_from(v: Image, c: Option<ExGuid>, s: ObjectSpace) -> bool {
    match c {
        None => v.data is None && v.extension is None,
        Some(c) => pic_there(c, s) && v.data is Some && exists|d: pc::Data| #[trigger] pc::data_is(d, ob(s, c)) && v.data.unwrap()@ == d.data@ && os(v.extension) == os(d.extension),
    }
}
pub open spec fn iframes_from(v: Seq<IFrame>, ids: Seq<ExGuid>, s: ObjectSpace) -> bool { v.len() == ids.len() && forall|i: int| 0 <= i < ids.len() ==> iframe_is(#[trigger] v[i], ids[i], s) }
pub open spec fn image_from(v: Image, d: nd::Data, s: ObjectSpace) -> bool {
    pic_from(v, d.picture_container, s)
    && v.layout_max_width == d.layout_max_width && v.layout_max_height == d.layout_max_height && os(v.alt_text) == os(d.alt_text)
    && v.layout_alignment_in_parent == d.layout_alignment_in_parent && v.layout_alignment_self == d.layout_alignment_self && os(v.image_filename) == os(d.image_filename)
    && v.displayed_page_number == d.displayed_page_number && os(v.text) == os(d.text) && v.text_language_code == d.text_language_code
    && v.picture_width == d.picture_width && v.picture_height == d.picture_height && os(v.hyperlink_url) == os(d.hyperlink_url)
    && v.offset_horizontal == d.offset_from_parent_horiz && v.offset_vertical == d.offset_from_parent_vert && v.is_background == d.is_background
    && tags_from(v.note_tags@, d.note_tags@, s) && iframes_from(v.embeds@, d.iframe@, s)
}
/// the image stored under an id
pub open spec fn image_is(v: Image, id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && nd::good(ob(s, id)) && exists|d: nd::Data| #[trigger] nd::data_is(d, ob(s, id)) && image_from(v, d, s) }
pub open spec fn image_bad(id: ExGuid, s: ObjectSpace) -> bool {
    !has_o(s, id) || !nd::good(ob(s, id)) || exists|d: nd::Data| #[trigger] nd::data_is(d, ob(s, id))
        && ((d.picture_container matches Some(c) && !pic_there(c, s)) || tags_bad(d.note_tags@, s) || exists|i: int| 0 <= i < d.iframe@.len() && !iframe_ok(#[trigger] d.iframe@[i], s))
}
#fn parse_image
ensures match r { Ok(v) => image_is(v, image_id, *space), Err(_) => image_bad(image_id, *space) }
#loop 0
    invariant __src0@ == node.iframe@, iframes_from(__out0@, node.iframe@.take(__k0 as int), *space),
#fn Image::data
ensures r is Some == self.data is Some, r matches Some(x) ==> x@ == self.data.unwrap()@
#fn Image::extension
ensures r is Some == self.extension is Some, r matches Some(x) ==> x@ == self.extension.unwrap()@
#fn Image::layout_max_width
ensures r == self.layout_max_width
#fn Image::layout_max_height
ensures r == self.layout_max_height
#fn Image::alt_text
ensures r is Some == self.alt_text is Some, r matches Some(x) ==> x@ == self.alt_text.unwrap()@
#fn Image::layout_alignment_in_parent
ensures r == self.layout_alignment_in_parent
#fn Image::layout_alignment_self
ensures r == self.layout_alignment_self
#fn Image::image_filename
ensures r is Some == self.image_filename is Some, r matches Some(x) ==> x@ == self.image_filename.unwrap()@
#fn Image::displayed_page_number
ensures r == self.displayed_page_number
#fn Image::text
ensures r is Some == self.text is Some, r matches Some(x) ==> x@ == self.text.unwrap()@
#fn Image::text_language_code
ensures r == self.text_language_code
#fn Image::picture_width
ensures r == self.picture_width
#fn Image::picture_height
ensures r == self.picture_height
#fn Image::hyperlink_url
ensures r is Some == self.hyperlink_url is Some, r matches Some(x) ==> x@ == self.hyperlink_url.unwrap()@
#fn Image::offset_horizontal
ensures r == self.offset_horizontal
#fn Image::offset_vertical
ensures r == self.offset_vertical
#fn Image::is_background
ensures r == self.is_background
#fn Image::note_tags
ensures r@ == self.note_tags@
#fn Image::embeds
ensures r@ == self.embeds@
