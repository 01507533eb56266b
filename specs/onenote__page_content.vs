#prelude
use crate::onestore::object_space::{has_o, ob};
use crate::onenote::image::{image_is, image_bad};
use crate::onenote::embedded_file::{file_is, file_bad};
use crate::onenote::ink::{ink_is, ink_bad};
use crate::onenote::outline::{outline_is, outline_err};
use crate::onenote::content::kind_of;
/// the content of a page stored under an id; a kind that has no place on a page stays, as unknown
pub open spec fn page_content_is(v: PageContent, id: ExGuid, s: ObjectSpace) -> bool {
    has_o(s, id) && match kind_of(id, s) {
        None => false,
        Some(PropertySetId::ImageNode) => v matches PageContent::Image(x) && image_is(x, id, s),
        Some(PropertySetId::EmbeddedFileNode) => v matches PageContent::EmbeddedFile(x) && file_is(x, id, s),
        Some(PropertySetId::OutlineNode) => v matches PageContent::Outline(x) && outline_is(x, id, s),
        Some(PropertySetId::InkContainer) => v matches PageContent::Ink(x) && ink_is(x, id, s),
        Some(_) => v is Unknown,
    }
}
pub open spec fn page_content_bad(id: ExGuid, s: ObjectSpace) -> bool {
    !has_o(s, id) || match kind_of(id, s) {
        None => true,
        Some(PropertySetId::ImageNode) => image_bad(id, s),
        Some(PropertySetId::EmbeddedFileNode) => file_bad(id, s),
        Some(PropertySetId::OutlineNode) => outline_err(id, s),
        Some(PropertySetId::InkContainer) => ink_bad(id, s),
        Some(_) => false,
    }
}
#fn parse_page_content
ensures match r { Ok(v) => page_content_is(v, content_id, *space), Err(_) => page_content_bad(content_id, *space) }
#entry
    hide(image_is); hide(image_bad); hide(file_is); hide(file_bad); hide(ink_is); hide(ink_bad); hide(outline_is); hide(outline_err);
#spec
#fn PageContent::outline
ensures match *self { PageContent::Outline(x) => r == Some(&x), _ => r is None }
#fn PageContent::image
ensures match *self { PageContent::Image(x) => r == Some(&x), _ => r is None }
#fn PageContent::embedded_file
ensures match *self { PageContent::EmbeddedFile(x) => r == Some(&x), _ => r is None }
#fn PageContent::ink
ensures match *self { PageContent::Ink(x) => r == Some(&x), _ => r is None }
