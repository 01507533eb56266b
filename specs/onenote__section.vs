#prelude
use crate::ext::{os, has_suffix};
use crate::onestore::object_space::root_ob;
use crate::onestore::revision_role::RevisionRole;
use crate::onenote::page_series::{all_series_are, series_is, series_bad};
/// the name, without the extension of section files
pub open spec fn shown(name: Seq<char>, r: Seq<char>) -> bool { if has_suffix(name, ".one"@) { name == r + ".one"@ } else { r == name } }
pub open spec fn meta_is(m: section_metadata_node::Data, s: ObjectSpace) -> bool { root_ob(s, RevisionRole::Metadata) matches Some(o) && section_metadata_node::good(o) && section_metadata_node::data_is(m, o) }
pub open spec fn meta_bad(s: ObjectSpace) -> bool { match root_ob(s, RevisionRole::Metadata) { Some(o) => !section_metadata_node::good(o), None => true } }
pub open spec fn node_is(m: section_node::Data, s: ObjectSpace) -> bool { root_ob(s, RevisionRole::DefaultContent) matches Some(o) && section_node::good(o) && section_node::data_is(m, o) }
pub open spec fn node_bad(s: ObjectSpace) -> bool { match root_ob(s, RevisionRole::DefaultContent) { Some(o) => !section_node::good(o), None => true } }
/// the section of a store; it is shown with the name stored in it or, failing that, its file's
pub open spec fn section_is(v: Section, s: OneStore, file: Seq<char>) -> bool {
    (exists|m: section_metadata_node::Data| #[trigger] meta_is(m, s.data_root) && v.color == m.color && shown(match m.display_name { Some(x) => x@, None => file }, v.display_name@))
    && exists|d: section_node::Data| #[trigger] node_is(d, s.data_root) && all_series_are(v.page_series@, d.page_series@, s, d.page_series@.len() as int)
}
pub open spec fn section_bad(s: OneStore) -> bool {
    meta_bad(s.data_root) || node_bad(s.data_root) || exists|d: section_node::Data| #[trigger] node_is(d, s.data_root) && exists|i: int| 0 <= i < d.page_series@.len() && series_bad(#[trigger] d.page_series@[i], s)
}
#fn Section::display_name
ensures r@ == self.display_name@
#fn Section::page_series
ensures r@ == self.page_series@
#fn Section::color
ensures r == self.color
#fn SectionGroup::display_name
ensures r@ == self.display_name@
#fn SectionGroup::entries
ensures r@ == self.entries@
#fn parse_section
ensures match r { Ok(v) => section_is(v, store, filename@), Err(_) => section_bad(store) }
#entry
    hide(section_node::good); hide(section_node::data_is); hide(section_metadata_node::good); hide(section_metadata_node::data_is); hide(series_is); hide(series_bad);
    let ghost __file = filename@;
#spec
#loop 0
    invariant __src0@ == content.page_series@, all_series_are(__out0@, content.page_series@, store, __k0 as int),
#fn parse_content
ensures match r { Ok(d) => node_is(d, *space), Err(_) => node_bad(*space) }
#entry
    hide(section_node::good); hide(section_node::data_is);
#spec
#fn parse_metadata
ensures match r { Ok(d) => meta_is(d, *space), Err(_) => meta_bad(*space) }
#entry
    hide(section_metadata_node::good); hide(section_metadata_node::data_is);
#spec
