#prelude
use crate::ext::os;
use crate::onestore::object_space::{has_o, ob, root_ob};
use crate::onestore::object::Object;
use crate::onestore::revision_role::RevisionRole;
use crate::onenote::outline::{outlines_are, outline_is, outline_err};
use crate::onenote::page_content::{page_content_is, page_content_bad};
use crate::onenote::outline::OutlineItem;
use crate::onenote::content::Content;
pub open spec fn page_contents_are(v: Seq<PageContent>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> page_content_is(#[trigger] v[i], ids[i], s) }
pub open spec fn title_from(v: Title, d: title_node::Data, s: ObjectSpace) -> bool {
    outlines_are(v.contents@, d.children@, s, d.children@.len() as int) && v.offset_horizontal == d.offset_horizontal && v.offset_vertical == d.offset_vertical && v.layout_alignment_in_parent == d.layout_alignment_in_parent && v.layout_alignment_self == d.layout_alignment_self
}
/// the title stored under an id
pub open spec fn title_is(v: Title, id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && title_node::good(ob(s, id)) && exists|d: title_node::Data| #[trigger] title_node::data_is(d, ob(s, id)) && title_from(v, d, s) }
pub open spec fn title_bad(id: ExGuid, s: ObjectSpace) -> bool { !has_o(s, id) || !title_node::good(ob(s, id)) || exists|d: title_node::Data| #[trigger] title_node::data_is(d, ob(s, id)) && exists|i: int| 0 <= i < d.children@.len() && outline_err(#[trigger] d.children@[i], s) }
/// the page, from the object that describes it
pub open spec fn page_from(v: Page, d: page_node::Data, s: ObjectSpace) -> bool {
    (match d.title { Some(id) => v.title matches Some(t) && title_is(t, id, s), None => v.title is None })
    && os(v.author) == (match d.author { Some(a) => Some(a.0@), None => None }) && v.height == d.page_height
    && page_contents_are(v.contents@, d.content@, s, d.content@.len() as int)
}
pub open spec fn page_from_bad(d: page_node::Data, s: ObjectSpace) -> bool {
    (d.title matches Some(id) && title_bad(id, s)) || exists|i: int| 0 <= i < d.content@.len() && page_content_bad(#[trigger] d.content@[i], s)
}
/// the object that describes the page, which the manifest names
pub open spec fn page_object(f: page_manifest_node::Data, s: ObjectSpace) -> Option<Object> { if has_o(s, f.page) { Some(ob(s, f.page)) } else { None } }
pub open spec fn meta_is(m: page_metadata::Data, s: ObjectSpace) -> bool { root_ob(s, RevisionRole::Metadata) matches Some(o) && page_metadata::good(o) && page_metadata::data_is(m, o) }
pub open spec fn meta_bad(s: ObjectSpace) -> bool { match root_ob(s, RevisionRole::Metadata) { Some(o) => !page_metadata::good(o), None => true } }
pub open spec fn manifest_is(f: page_manifest_node::Data, s: ObjectSpace) -> bool { root_ob(s, RevisionRole::DefaultContent) matches Some(o) && page_manifest_node::good(o) && page_manifest_node::data_is(f, o) }
pub open spec fn manifest_bad(s: ObjectSpace) -> bool { match root_ob(s, RevisionRole::DefaultContent) { Some(o) => !page_manifest_node::good(o), None => true } }
pub open spec fn node_is(d: page_node::Data, f: page_manifest_node::Data, s: ObjectSpace) -> bool { page_object(f, s) matches Some(o) && page_node::good(o) && page_node::data_is(d, o) }
pub open spec fn node_bad(f: page_manifest_node::Data, s: ObjectSpace) -> bool { match page_object(f, s) { Some(o) => !page_node::good(o), None => true } }
/// the page of an object space
pub open spec fn page_is(v: Page, s: ObjectSpace) -> bool {
    (exists|m: page_metadata::Data| #[trigger] meta_is(m, s) && v.level == m.page_level)
    && exists|f: page_manifest_node::Data, d: page_node::Data| #[trigger] manifest_is(f, s) && #[trigger] node_is(d, f, s) && page_from(v, d, s)
}
pub open spec fn page_bad(s: ObjectSpace) -> bool {
    meta_bad(s) || manifest_bad(s) || (exists|f: page_manifest_node::Data| #[trigger] manifest_is(f, s) && node_bad(f, s))
    || exists|f: page_manifest_node::Data, d: page_node::Data| #[trigger] manifest_is(f, s) && #[trigger] node_is(d, f, s) && page_from_bad(d, s)
}
/// the text of an outline's first paragraph, if it starts with one that has text
pub open spec fn text_of(o: Outline) -> Option<Seq<char>> {
    if o.items@.len() == 0 { None } else { match o.items@[0] {
        OutlineItem::Element(e) => if e.contents@.len() == 0 { None } else { match e.contents@[0] { Content::RichText(t) => if t.text@.len() == 0 { None } else { Some(t.text@) }, _ => None } },
        _ => None,
    } }
}
pub open spec fn content_text(c: PageContent) -> Option<Seq<char>> { match c { PageContent::Outline(o) => text_of(o), _ => None } }
pub open spec fn no_text(v: Seq<PageContent>, n: int) -> bool { forall|i: int| 0 <= i < n ==> content_text(#[trigger] v[i]) is None }
pub open spec fn first_text(v: Seq<PageContent>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && content_text(#[trigger] v[i]) == Some(t) && no_text(v, i) }
pub open spec fn own_title(p: Page) -> Option<Seq<char>> { match p.title { Some(t) => if t.contents@.len() > 0 { text_of(t.contents@[0]) } else { None }, None => None } }
pub open spec fn none_yet(o: Option<&str>) -> bool { o is None }
pub open spec fn found(o: Option<&str>, v: Seq<PageContent>) -> bool { match o { Some(x) => first_text(v, x@), None => no_text(v, v.len() as int) } }
#fn Page::title_text
ensures match own_title(*self) { Some(t) => r matches Some(x) && x@ == t, None => match r { Some(x) => first_text(self.contents@, x@), None => no_text(self.contents@, self.contents@.len() as int) } }
#loop 0
    invariant_except_break none_yet(__out0), no_text(self.contents@, __k0 as int)
    invariant crate::ext::vx_refs(__src0@, self.contents@)
    ensures found(__out0, self.contents@)
#start 0
    assert(*__src0@[__k0 as int] == self.contents@[__k0 as int]);
#fn Page::outline_text
ensures match r { Some(x) => text_of(*outline) == Some(x@), None => text_of(*outline) is None }
#fn Page::title
ensures match r { Some(x) => self.title == Some(*x), None => self.title is None }
#fn Page::level
ensures r == self.level
#fn Page::author
ensures r is Some == self.author is Some, r matches Some(x) ==> x@ == self.author.unwrap()@
#fn Page::height
ensures r == self.height
#fn Page::contents
ensures r@ == self.contents@
#fn Title::contents
ensures r@ == self.contents@
#fn Title::offset_horizontal
ensures r == self.offset_horizontal
#fn Title::offset_vertical
ensures r == self.offset_vertical
#fn Title::layout_alignment_in_parent
ensures r == self.layout_alignment_in_parent
#fn Title::layout_alignment_self
ensures r == self.layout_alignment_self
#fn parse_page
#attr
    #[verifier::spinoff_prover]
#spec
ensures match r { Ok(v) => page_is(v, *page_space), Err(_) => page_bad(*page_space) }
#entry
    hide(page_metadata::good); hide(page_metadata::data_is); hide(page_manifest_node::good); hide(page_manifest_node::data_is); hide(page_node::good); hide(page_node::data_is); hide(page_content_is); hide(page_content_bad); hide(title_is); hide(title_bad);
#spec
#loop 0
    invariant __src0@ == data.content@, page_contents_are(__out0@, data.content@, *page_space, __k0 as int),
#fn parse_title
ensures match r { Ok(v) => title_is(v, title_id, *space), Err(_) => title_bad(title_id, *space) }
#entry
    hide(title_node::good); hide(title_node::data_is); hide(outline_is); hide(outline_err);
#spec
#loop 0
    invariant __src0@ == title.children@, outlines_are(__out0@, title.children@, *space, __k0 as int),
#fn parse_data
ensures match r { Ok(d) => node_is(d, manifest, *space), Err(_) => node_bad(manifest, *space) }
#entry
    hide(page_node::good); hide(page_node::data_is);
#spec
#fn parse_manifest
ensures match r { Ok(d) => manifest_is(d, *space), Err(_) => manifest_bad(*space) }
#entry
    hide(page_manifest_node::good); hide(page_manifest_node::data_is);
#spec
#fn parse_metadata
ensures match r { Ok(d) => meta_is(d, *space), Err(_) => meta_bad(*space) }
#entry
    hide(page_metadata::good); hide(page_metadata::data_is);
#spec
