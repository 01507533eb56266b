#prelude
use crate::onenote::outline::{elements_are, element_err};
use crate::onestore::object_space::{has_o, ob};
use crate::onestore::object::Object;
use crate::onenote::note_tag::{tags_from, tags_bad};
use crate::onenote::outline::{element_is, element_bad, bounded, hgt, is_kid, refs_of, kinds, kid, lemma_kid, has_kid};
use crate::one::property::PropertyType;
use crate::one::property_set::PropertySetId;
broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
/// the table stored under an id: its rows in order, with its attributes
pub open spec fn table_is(v: Table, id: ExGuid, s: ObjectSpace) -> bool decreases v via table_dec {
    has_o(s, id) && table_node::good(ob(s, id)) && exists|d: table_node::Data| #[trigger] table_node::data_is(d, ob(s, id)) && v.rows == d.row_count && v.cols == d.col_count && v.cols_locked@ == d.cols_locked@ && v.col_widths@ == d.col_widths@ && v.borders_visible == d.borders_visible && v.layout_alignment_in_parent == d.layout_alignment_in_parent && v.layout_alignment_self == d.layout_alignment_self && tags_from(v.note_tags@, d.note_tags@, s) && v.contents@.len() == d.rows@.len() && forall|i: int| 0 <= i < d.rows@.len() ==> row_is(#[trigger] v.contents@[i], d.rows@[i], s)
}
#[via_fn] proof fn table_dec(v: Table, id: ExGuid, s: ObjectSpace) { assert forall|i: int| 0 <= i < v.contents@.len() implies decreases_to!(v => #[trigger] v.contents@[i]) by { assert(decreases_to!(v.contents => v.contents[i])); } }
pub open spec fn table_bad(id: ExGuid, s: ObjectSpace, n: int) -> bool decreases n {
    n > 0 && (!has_o(s, id) || !table_node::good(ob(s, id)) || exists|d: table_node::Data| #[trigger] table_node::data_is(d, ob(s, id)) && (tags_bad(d.note_tags@, s) || exists|i: int| 0 <= i < d.rows@.len() && row_bad(#[trigger] d.rows@[i], s, n - 1)))
}
pub open spec fn table_err(id: ExGuid, s: ObjectSpace) -> bool { exists|n: int| #[trigger] table_bad(id, s, n) }
pub open spec fn tables_are(v: Seq<Table>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> table_is(#[trigger] v[i], ids[i], s) }
/// the row stored under an id: its cells in order
pub open spec fn row_is(v: TableRow, id: ExGuid, s: ObjectSpace) -> bool decreases v via row_dec {
    has_o(s, id) && table_row_node::good(ob(s, id)) && exists|d: table_row_node::Data| #[trigger] table_row_node::data_is(d, ob(s, id)) && v.contents@.len() == d.cells@.len() && forall|i: int| 0 <= i < d.cells@.len() ==> cell_is(#[trigger] v.contents@[i], d.cells@[i], s)
}
#[via_fn] proof fn row_dec(v: TableRow, id: ExGuid, s: ObjectSpace) { assert forall|i: int| 0 <= i < v.contents@.len() implies decreases_to!(v => #[trigger] v.contents@[i]) by { assert(decreases_to!(v.contents => v.contents[i])); } }
pub open spec fn row_bad(id: ExGuid, s: ObjectSpace, n: int) -> bool decreases n {
    n > 0 && (!has_o(s, id) || !table_row_node::good(ob(s, id)) || exists|d: table_row_node::Data| #[trigger] table_row_node::data_is(d, ob(s, id)) && (exists|i: int| 0 <= i < d.cells@.len() && cell_bad(#[trigger] d.cells@[i], s, n - 1)))
}
pub open spec fn row_err(id: ExGuid, s: ObjectSpace) -> bool { exists|n: int| #[trigger] row_bad(id, s, n) }
pub open spec fn rows_are(v: Seq<TableRow>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> row_is(#[trigger] v[i], ids[i], s) }
/// the cell stored under an id: its paragraphs in order, with its attributes
pub open spec fn cell_is(v: TableCell, id: ExGuid, s: ObjectSpace) -> bool decreases v via cell_dec {
    has_o(s, id) && table_cell_node::good(ob(s, id)) && exists|d: table_cell_node::Data| #[trigger] table_cell_node::data_is(d, ob(s, id)) && v.background_color == d.background_color && v.layout_max_width == d.layout_max_width && v.outline_indent_distance.0@ == d.outline_indent_distance.0@ && v.contents@.len() == d.contents@.len() && forall|i: int| 0 <= i < d.contents@.len() ==> element_is(#[trigger] v.contents@[i], d.contents@[i], s)
}
#[via_fn] proof fn cell_dec(v: TableCell, id: ExGuid, s: ObjectSpace) { assert forall|i: int| 0 <= i < v.contents@.len() implies decreases_to!(v => #[trigger] v.contents@[i]) by { assert(decreases_to!(v.contents => v.contents[i])); } }
pub open spec fn cell_bad(id: ExGuid, s: ObjectSpace, n: int) -> bool decreases n {
    n > 0 && (!has_o(s, id) || !table_cell_node::good(ob(s, id)) || exists|d: table_cell_node::Data| #[trigger] table_cell_node::data_is(d, ob(s, id)) && (exists|i: int| 0 <= i < d.contents@.len() && element_bad(#[trigger] d.contents@[i], s, n - 1)))
}
pub open spec fn cell_err(id: ExGuid, s: ObjectSpace) -> bool { exists|n: int| #[trigger] cell_bad(id, s, n) }
pub open spec fn cells_are(v: Seq<TableCell>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> cell_is(#[trigger] v[i], ids[i], s) }
pub proof fn lemma_table_kids(d: table_node::Data, o: Object, i: int) requires table_node::good(o), table_node::data_is(d, o), 0 <= i < d.rows@.len() ensures is_kid(d.rows@[i], o)
{ assert(PropertySetId::vx_of(o.jc_id.0 as int) == Some(PropertySetId::TableNode)); assert(kinds(o) == seq![PropertyType::ElementChildNodes]); assert(refs_of(o, 0) == Some(d.rows@)); assert(has_kid(o, 0, i)); assert(kid(o, 0, i) == d.rows@[i]); }
pub proof fn lemma_row_kids(d: table_row_node::Data, o: Object, i: int) requires table_row_node::good(o), table_row_node::data_is(d, o), 0 <= i < d.cells@.len() ensures is_kid(d.cells@[i], o)
{ assert(PropertySetId::vx_of(o.jc_id.0 as int) == Some(PropertySetId::TableRowNode)); assert(kinds(o) == seq![PropertyType::ElementChildNodes]); assert(refs_of(o, 0) == Some(d.cells@)); assert(has_kid(o, 0, i)); assert(kid(o, 0, i) == d.cells@[i]); }
pub proof fn lemma_cell_kids(d: table_cell_node::Data, o: Object, i: int) requires table_cell_node::good(o), table_cell_node::data_is(d, o), 0 <= i < d.contents@.len() ensures is_kid(d.contents@[i], o)
{ assert(PropertySetId::vx_of(o.jc_id.0 as int) == Some(PropertySetId::TableCellNode)); assert(kinds(o) == seq![PropertyType::ElementChildNodes]); assert(refs_of(o, 0) == Some(d.contents@)); assert(has_kid(o, 0, i)); assert(kid(o, 0, i) == d.contents@[i]); }
#fn parse_table
requires bounded(table_id, *space)
ensures match r { Ok(v) => table_is(v, table_id, *space), Err(_) => table_err(table_id, *space) }
decreases hgt(table_id, *space), 0int
#entry
    hide(table_node::good); hide(table_node::data_is); hide(tags_from); hide(tags_bad); hide(is_kid);
    assert(has_o(*space, table_id) && table_node::good(ob(*space, table_id)) || table_bad(table_id, *space, 1));
#spec
#loop 0
    invariant __src0@ == data.rows@, rows_are(__out0@, data.rows@, *space, __k0 as int),
#start 0
    let ghost __i = __k0 as int;
    proof { lemma_table_kids(data, ob(*space, table_id), __i); lemma_kid(data.rows@[__i], table_id, *space);
        assert(row_err(data.rows@[__i], *space) ==> table_err(table_id, *space)) by { if row_err(data.rows@[__i], *space) { let n = choose|n: int| row_bad(data.rows@[__i], *space, n); assert(n > 0); assert(table_bad(table_id, *space, n + 1)); } } }
#before let table = Table
    let ghost __d = data;
    proof { assert(tags_bad(__d.note_tags@, *space) ==> table_bad(table_id, *space, 1)); }
#fn parse_row
#attr
    #[verifier::spinoff_prover]
#spec
requires bounded(row_id, *space)
ensures match r { Ok(v) => row_is(v, row_id, *space), Err(_) => row_err(row_id, *space) }
decreases hgt(row_id, *space), 0int
#entry
    hide(table_row_node::good); hide(table_row_node::data_is); hide(tags_from); hide(tags_bad); hide(is_kid);
    assert(has_o(*space, row_id) && table_row_node::good(ob(*space, row_id)) || row_bad(row_id, *space, 1));
#spec
#loop 0
    invariant __src0@ == data.cells@, cells_are(__out0@, data.cells@, *space, __k0 as int),
#start 0
    let ghost __i = __k0 as int;
    proof { lemma_row_kids(data, ob(*space, row_id), __i); lemma_kid(data.cells@[__i], row_id, *space);
        assert(cell_err(data.cells@[__i], *space) ==> row_err(row_id, *space)) by { if cell_err(data.cells@[__i], *space) { let n = choose|n: int| cell_bad(data.cells@[__i], *space, n); assert(n > 0); assert(row_bad(row_id, *space, n + 1)); } } }
#fn parse_cell
#attr
    #[verifier::spinoff_prover]
#spec
requires bounded(cell_id, *space)
ensures match r { Ok(v) => cell_is(v, cell_id, *space), Err(_) => cell_err(cell_id, *space) }
decreases hgt(cell_id, *space), 0int
#entry
    hide(table_cell_node::good); hide(table_cell_node::data_is); hide(tags_from); hide(tags_bad); hide(is_kid);
    assert(has_o(*space, cell_id) && table_cell_node::good(ob(*space, cell_id)) || cell_bad(cell_id, *space, 1));
#spec
#loop 0
    invariant __src0@ == data.contents@, elements_are(__out0@, data.contents@, *space, __k0 as int),
#start 0
    let ghost __i = __k0 as int;
    proof { lemma_cell_kids(data, ob(*space, cell_id), __i); lemma_kid(data.contents@[__i], cell_id, *space);
        assert(element_err(data.contents@[__i], *space) ==> cell_err(cell_id, *space)) by { if element_err(data.contents@[__i], *space) { let n = choose|n: int| element_bad(data.contents@[__i], *space, n); assert(n > 0); assert(cell_bad(cell_id, *space, n + 1)); } } }
#fn Table::rows
ensures r == self.rows
#fn Table::cols
ensures r == self.cols
#fn Table::borders_visible
ensures r == self.borders_visible
#fn Table::layout_alignment_in_parent
ensures r == self.layout_alignment_in_parent
#fn Table::layout_alignment_self
ensures r == self.layout_alignment_self
#fn Table::contents
ensures r@ == self.contents@
#fn Table::cols_locked
ensures r@ == self.cols_locked@
#fn Table::col_widths
ensures r@ == self.col_widths@
#fn Table::note_tags
ensures r@ == self.note_tags@
#fn TableRow::contents
ensures r@ == self.contents@
#fn TableCell::contents
ensures r@ == self.contents@
#fn TableCell::layout_max_width
ensures r == self.layout_max_width
#fn TableCell::outline_indent_distance
ensures *r == self.outline_indent_distance
#fn TableCell::background_color
ensures r == self.background_color
