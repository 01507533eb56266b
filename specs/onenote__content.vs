#prelude
use crate::onestore::object_space::{has_o, ob};
use crate::onenote::image::{image_is, image_bad};
use crate::onenote::embedded_file::{file_is, file_bad};
use crate::onenote::rich_text::{rich_is, rich_bad};
use crate::onenote::ink::{ink_is, ink_bad};
use crate::onenote::table::{table_is, table_bad};
use crate::onenote::outline::{bounded, hgt};
/// the kind of an object; None: a number that is not the one of any kind
pub open spec fn kind_of(id: ExGuid, s: ObjectSpace) -> Option<PropertySetId> { PropertySetId::vx_of(ob(s, id).jc_id.0 as int) }
/// the content stored under an id; a kind that has no place in a paragraph stays, as unknown
pub open spec fn content_is(v: Content, id: ExGuid, s: ObjectSpace) -> bool decreases v {
    has_o(s, id) && match kind_of(id, s) {
        None => false,
        Some(PropertySetId::ImageNode) => v matches Content::Image(x) && image_is(x, id, s),
        Some(PropertySetId::EmbeddedFileNode) => v matches Content::EmbeddedFile(x) && file_is(x, id, s),
        Some(PropertySetId::RichTextNode) => v matches Content::RichText(x) && rich_is(x, id, s),
        Some(PropertySetId::TableNode) => v matches Content::Table(x) && table_is(x, id, s),
        Some(PropertySetId::InkContainer) => v matches Content::Ink(x) && ink_is(x, id, s),
        Some(_) => v is Unknown,
    }
}
/// there is something wrong with the content, less than `n` levels below it
pub open spec fn content_bad(id: ExGuid, s: ObjectSpace, n: int) -> bool decreases n {
    n > 0 && (!has_o(s, id) || match kind_of(id, s) {
        None => true,
        Some(PropertySetId::ImageNode) => image_bad(id, s),
        Some(PropertySetId::EmbeddedFileNode) => file_bad(id, s),
        Some(PropertySetId::RichTextNode) => rich_bad(id, s),
        Some(PropertySetId::TableNode) => table_bad(id, s, n - 1),
        Some(PropertySetId::InkContainer) => ink_bad(id, s),
        Some(_) => false,
    })
}
pub open spec fn content_err(id: ExGuid, s: ObjectSpace) -> bool { exists|n: int| #[trigger] content_bad(id, s, n) }
pub open spec fn contents_are(v: Seq<Content>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> content_is(#[trigger] v[i], ids[i], s) }
#fn parse_content
requires bounded(content_id, *space)
ensures match r { Ok(v) => content_is(v, content_id, *space), Err(_) => content_err(content_id, *space) }
decreases hgt(content_id, *space), 1int
#entry
    hide(image_is); hide(image_bad); hide(file_is); hide(file_bad); hide(rich_is); hide(rich_bad); hide(ink_is); hide(ink_bad);
    assert forall|n: int| #[trigger] table_bad(content_id, *space, n) && kind_of(content_id, *space) == Some(PropertySetId::TableNode) implies content_err(content_id, *space) by { assert(n > 0); assert(content_bad(content_id, *space, n + 1)); }
    assert(!has_o(*space, content_id) || kind_of(content_id, *space) is None ==> content_bad(content_id, *space, 1));
    assert(has_o(*space, content_id) && kind_of(content_id, *space) == Some(PropertySetId::ImageNode) && image_bad(content_id, *space) ==> content_bad(content_id, *space, 1));
    assert(has_o(*space, content_id) && kind_of(content_id, *space) == Some(PropertySetId::EmbeddedFileNode) && file_bad(content_id, *space) ==> content_bad(content_id, *space, 1));
    assert(has_o(*space, content_id) && kind_of(content_id, *space) == Some(PropertySetId::RichTextNode) && rich_bad(content_id, *space) ==> content_bad(content_id, *space, 1));
    assert(has_o(*space, content_id) && kind_of(content_id, *space) == Some(PropertySetId::InkContainer) && ink_bad(content_id, *space) ==> content_bad(content_id, *space, 1));
#spec
#fn Content::rich_text
ensures match *self { Content::RichText(x) => r == Some(&x), _ => r is None }
#fn Content::table
ensures match *self { Content::Table(x) => r == Some(&x), _ => r is None }
#fn Content::image
ensures match *self { Content::Image(x) => r == Some(&x), _ => r is None }
#fn Content::embedded_file
ensures match *self { Content::EmbeddedFile(x) => r == Some(&x), _ => r is None }
#fn Content::ink
ensures match *self { Content::Ink(x) => r == Some(&x), _ => r is None }
