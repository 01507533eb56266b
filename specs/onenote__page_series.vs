#prelude
use crate::onestore::object_space::{has_o, ob, ObjectSpace};
use crate::onenote::page::{page_is, page_bad};
use crate::fsshttpb::data::cell_id::CellId;
/// the page whose object space has an id
pub open spec fn page_at(v: Page, c: CellId, s: OneStore) -> bool { s.object_spaces@.contains_key(c) && page_is(v, s.object_spaces@[c]) }
pub open spec fn page_not(c: CellId, s: OneStore) -> bool { !s.object_spaces@.contains_key(c) || page_bad(s.object_spaces@[c]) }
pub open spec fn pages_are(v: Seq<Page>, ids: Seq<CellId>, s: OneStore, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> page_at(#[trigger] v[i], ids[i], s) }
/// the page series stored under an id: its pages in order
pub open spec fn series_is(v: PageSeries, id: ExGuid, s: OneStore) -> bool {
    has_o(s.data_root, id) && page_series_node::good(ob(s.data_root, id)) && exists|d: page_series_node::Data| #[trigger] page_series_node::data_is(d, ob(s.data_root, id)) && pages_are(v.pages@, d.page_spaces@, s, d.page_spaces@.len() as int)
}
pub open spec fn series_bad(id: ExGuid, s: OneStore) -> bool {
    !has_o(s.data_root, id) || !page_series_node::good(ob(s.data_root, id)) || exists|d: page_series_node::Data| #[trigger] page_series_node::data_is(d, ob(s.data_root, id)) && exists|i: int| 0 <= i < d.page_spaces@.len() && page_not(#[trigger] d.page_spaces@[i], s)
}
pub open spec fn all_series_are(v: Seq<PageSeries>, ids: Seq<ExGuid>, s: OneStore, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> series_is(#[trigger] v[i], ids[i], s) }
#fn PageSeries::pages
ensures r@ == self.pages@
#fn parse_page_series
ensures match r { Ok(v) => series_is(v, id, *store), Err(_) => series_bad(id, *store) }
#entry
    hide(page_series_node::good); hide(page_series_node::data_is); hide(page_is); hide(page_bad);
#spec
#loop 0
    invariant __src0@ == data.page_spaces@, pages_are(__out0@, data.page_spaces@, *store, __k0 as int),
