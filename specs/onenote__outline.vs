#prelude
use crate::onestore::object_space::{has_o, ob};
use crate::ext::opt_or;
use crate::onenote::content::{content_is, content_bad, content_err, contents_are, kind_of};
use crate::onenote::list::{list_is, list_ok};
use crate::one::property::object_reference::p_refs;
broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
/// the properties in which an object lists what it contains
pub open spec fn kinds(o: Object) -> Seq<PropertyType> {
    match PropertySetId::vx_of(o.jc_id.0 as int) {
        Some(PropertySetId::OutlineNode) | Some(PropertySetId::OutlineGroup) | Some(PropertySetId::TableNode) | Some(PropertySetId::TableRowNode) | Some(PropertySetId::TableCellNode) => seq![PropertyType::ElementChildNodes],
        Some(PropertySetId::OutlineElementNode) => seq![PropertyType::ElementChildNodes, PropertyType::ContentChildNodes],
        _ => Seq::empty(),
    }
}
pub open spec fn refs_of(o: Object, k: int) -> Option<Seq<ExGuid>> { match p_refs(o, kinds(o)[k]) { None => None, Some(x) => Some(opt_or(x, Seq::<ExGuid>::empty())) } }
pub open spec fn kids_ok(o: Object) -> bool { forall|k: int| 0 <= k < kinds(o).len() ==> #[trigger] refs_of(o, k) is Some }
pub open spec fn kid(o: Object, k: int, i: int) -> ExGuid { refs_of(o, k).unwrap()[i] }
pub open spec fn has_kid(o: Object, k: int, i: int) -> bool { 0 <= k < kinds(o).len() && refs_of(o, k) is Some && 0 <= i < refs_of(o, k).unwrap().len() }
pub open spec fn is_kid(c: ExGuid, o: Object) -> bool { exists|k: int, i: int| has_kid(o, k, i) && #[trigger] kid(o, k, i) == c }
pub open spec fn link(c: ExGuid, p: ExGuid, s: ObjectSpace) -> bool { has_o(s, p) && is_kid(c, ob(s, p)) }
pub open spec fn step(p: Seq<ExGuid>, k: int, s: ObjectSpace) -> bool { link(p[k], p[k - 1], s) }
/// each contains the next
pub open spec fn chain(p: Seq<ExGuid>, s: ObjectSpace) -> bool { p.len() > 0 && forall|k: int| 0 < k < p.len() ==> #[trigger] step(p, k, s) }
pub open spec fn has_path(id: ExGuid, s: ObjectSpace, h: int) -> bool { exists|p: Seq<ExGuid>| #[trigger] chain(p, s) && p[0] == id && p.len() == h }
/// nothing below `id` is nested more than `h` deep
pub open spec fn nest_ok(id: ExGuid, s: ObjectSpace, h: int) -> bool { forall|p: Seq<ExGuid>| #[trigger] chain(p, s) && p[0] == id ==> p.len() <= h }
/// objects contain each other, are nested more than 256 deep, or have a malformed list of what they contain
pub open spec fn nest_bad(id: ExGuid, s: ObjectSpace) -> bool {
    exists|p: Seq<ExGuid>| #[trigger] chain(p, s) && p[0] == id && (p.len() > 256 || !p.no_duplicates() || has_o(s, p.last()) && !kids_ok(ob(s, p.last())))
}
pub open spec fn bounded(id: ExGuid, s: ObjectSpace) -> bool { exists|h: int| #[trigger] nest_ok(id, s, h) }
pub open spec fn least(id: ExGuid, s: ObjectSpace, h: int) -> int decreases h { if h <= 0 || !nest_ok(id, s, h - 1) { h } else { least(id, s, h - 1) } }
pub open spec fn hgt(id: ExGuid, s: ObjectSpace) -> int { least(id, s, choose|h: int| nest_ok(id, s, h)) }
pub proof fn lemma_one(id: ExGuid, s: ObjectSpace) ensures chain(seq![id], s), has_path(id, s, 1) { assert(chain(seq![id], s)); assert(seq![id][0] == id); }
pub proof fn lemma_mono(id: ExGuid, s: ObjectSpace, h: int, g: int) requires nest_ok(id, s, h), h <= g ensures nest_ok(id, s, g) {}
pub proof fn lemma_pos(id: ExGuid, s: ObjectSpace, h: int) requires nest_ok(id, s, h) ensures h >= 1 { lemma_one(id, s); assert(chain(seq![id], s) && seq![id][0] == id); }
pub proof fn lemma_least(id: ExGuid, s: ObjectSpace, h: int, g: int) requires nest_ok(id, s, h), nest_ok(id, s, g) ensures least(id, s, h) <= g, least(id, s, h) <= h, nest_ok(id, s, least(id, s, h)) decreases h
{
    lemma_pos(id, s, h); lemma_pos(id, s, g);
    if nest_ok(id, s, h - 1) { lemma_least(id, s, h - 1, g); } else if g < h { lemma_mono(id, s, g, h - 1); }
}
pub proof fn lemma_join(a: Seq<ExGuid>, id: ExGuid, b: Seq<ExGuid>, s: ObjectSpace) requires chain(a.push(id), s), chain(b, s), b[0] == id ensures chain(a + b, s), (a + b)[0] == a.push(id)[0]
{
    assert forall|k: int| 0 < k < (a + b).len() implies #[trigger] step(a + b, k, s) by {
        if k <= a.len() { assert(step(a.push(id), k, s)); assert((a + b)[k] == a.push(id)[k] && (a + b)[k - 1] == a.push(id)[k - 1]); }
        else { assert(step(b, k - a.len(), s)); assert((a + b)[k] == b[k - a.len()] && (a + b)[k - 1] == b[k - 1 - a.len()]); }
    }
}
pub proof fn lemma_extend(a: Seq<ExGuid>, c: ExGuid, s: ObjectSpace) requires chain(a, s), link(c, a.last(), s) ensures chain(a.push(c), s), a.push(c)[0] == a[0]
{
    assert forall|k: int| 0 < k < a.push(c).len() implies #[trigger] step(a.push(c), k, s) by { if k < a.len() { assert(step(a, k, s)); } }
}
pub proof fn lemma_path(id: ExGuid, c: ExGuid, s: ObjectSpace, h: int) requires link(c, id, s), has_path(c, s, h) ensures has_path(id, s, h + 1)
{
    let p = choose|p: Seq<ExGuid>| #[trigger] chain(p, s) && p[0] == c && p.len() == h;
    lemma_one(id, s); assert(seq![id].last() == id); lemma_extend(seq![id], c, s); lemma_join(seq![id], c, p, s); assert((seq![id] + p).len() == h + 1);
}
/// what is below an object is nested less deep
pub proof fn lemma_kid(c: ExGuid, id: ExGuid, s: ObjectSpace) requires bounded(id, s), has_o(s, id), is_kid(c, ob(s, id)) ensures bounded(c, s), 0 <= hgt(c, s) < hgt(id, s)
{
    let h0 = choose|h: int| nest_ok(id, s, h);
    let h = hgt(id, s);
    lemma_least(id, s, h0, h0);
    assert(nest_ok(c, s, h - 1)) by { assert forall|p: Seq<ExGuid>| #[trigger] chain(p, s) && p[0] == c implies p.len() <= h - 1 by { assert(has_path(c, s, p.len() as int)); lemma_path(id, c, s, p.len() as int); let q = choose|q: Seq<ExGuid>| #[trigger] chain(q, s) && q[0] == id && q.len() == p.len() + 1; assert(q.len() <= h); } }
    let c0 = choose|h: int| nest_ok(c, s, h);
    lemma_least(c, s, c0, h - 1); lemma_pos(c, s, hgt(c, s));
}
pub open spec fn height_is(id: ExGuid, s: ObjectSpace, h: int) -> bool { 1 <= h <= 256 && has_path(id, s, h) && nest_ok(id, s, h) }
pub open spec fn heights_ok(m: Map<ExGuid, usize>, s: ObjectSpace) -> bool { forall|x: ExGuid| #[trigger] m.contains_key(x) ==> height_is(x, s, m[x] as int) }
/// the children before number `i` of list `k` are nested at most `h` deep
pub open spec fn upto(o: Object, s: ObjectSpace, k: int, i: int, h: int) -> bool { forall|a: int, b: int| has_kid(o, a, b) && (a < k || a == k && b < i) ==> nest_ok(#[trigger] kid(o, a, b), s, h) }
pub proof fn lemma_upto(o: Object, s: ObjectSpace, k: int, i: int, h: int, g: int) requires upto(o, s, k, i, h), h <= g ensures upto(o, s, k, i, g)
{ assert forall|a: int, b: int| has_kid(o, a, b) && (a < k || a == k && b < i) implies nest_ok(#[trigger] kid(o, a, b), s, g) by { lemma_mono(kid(o, a, b), s, h, g); } }
pub proof fn lemma_top(id: ExGuid, s: ObjectSpace, h: int) requires h >= 1, has_o(s, id) ==> upto(ob(s, id), s, kinds(ob(s, id)).len() as int, 0, h - 1) ensures nest_ok(id, s, h)
{
    assert forall|p: Seq<ExGuid>| #[trigger] chain(p, s) && p[0] == id implies p.len() <= h by {
        if p.len() > 1 {
            assert(step(p, 1, s)); let q = p.skip(1); assert(is_kid(p[1], ob(s, id)));
            let (k, i) = choose|k: int, i: int| has_kid(ob(s, id), k, i) && #[trigger] kid(ob(s, id), k, i) == p[1];
            assert(chain(q, s)) by { assert forall|j: int| 0 < j < q.len() implies #[trigger] step(q, j, s) by { assert(step(p, j + 1, s)); } }
            assert(q[0] == p[1]); assert(q.len() <= h - 1);
        }
    }
}
pub proof fn lemma_too_deep(a: Seq<ExGuid>, id: ExGuid, s: ObjectSpace, h: int) requires chain(a.push(id), s), has_path(id, s, h), a.len() + h > 256 ensures nest_bad(a.push(id)[0], s)
{ let p = choose|p: Seq<ExGuid>| #[trigger] chain(p, s) && p[0] == id && p.len() == h; lemma_join(a, id, p, s); assert((a + p).len() > 256); }
pub proof fn lemma_cycle(a: Seq<ExGuid>, id: ExGuid, s: ObjectSpace) requires chain(a.push(id), s), a.contains(id) ensures nest_bad(a.push(id)[0], s)
{ let i = choose|i: int| 0 <= i < a.len() && a[i] == id; assert(a.push(id)[i] == a.push(id)[a.len() as int]); assert(!a.push(id).no_duplicates()); }
/// an item of an outline
pub open spec fn item_is(v: OutlineItem, id: ExGuid, s: ObjectSpace) -> bool decreases v {
    has_o(s, id) && match kind_of(id, s) {
        Some(PropertySetId::OutlineGroup) => v matches OutlineItem::Group(x) && group_is(x, id, s),
        Some(PropertySetId::OutlineElementNode) => v matches OutlineItem::Element(x) && element_is(x, id, s),
        _ => false,
    }
}
pub open spec fn item_bad(id: ExGuid, s: ObjectSpace, n: int) -> bool decreases n {
    n > 0 && (!has_o(s, id) || match kind_of(id, s) {
        Some(PropertySetId::OutlineGroup) => group_bad(id, s, n - 1),
        Some(PropertySetId::OutlineElementNode) => element_bad(id, s, n - 1),
        _ => true,
    })
}
pub open spec fn item_err(id: ExGuid, s: ObjectSpace) -> bool { exists|n: int| #[trigger] item_bad(id, s, n) }
pub open spec fn items_are(v: Seq<OutlineItem>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> item_is(#[trigger] v[i], ids[i], s) }
pub open spec fn lists_are(v: Seq<List>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> list_is(#[trigger] v[i], ids[i], s) }
/// the outline stored under an id: its items in order, with its attributes
pub open spec fn outline_is(v: Outline, id: ExGuid, s: ObjectSpace) -> bool decreases v via outline_dec {
    has_o(s, id) && outline_node::good(ob(s, id)) && exists|d: outline_node::Data| #[trigger] outline_node::data_is(d, ob(s, id)) && v.child_level == d.child_level && v.list_spacing == d.list_spacing && v.alignment_in_parent == d.layout_alignment_in_parent && v.alignment_self == d.layout_alignment_self && v.layout_max_height == d.layout_max_height && v.layout_max_width == d.layout_max_width && v.layout_reserved_width == d.layout_reserved_width && v.layout_minimum_outline_width == d.layout_minimum_outline_width && v.is_layout_size_set_by_user == d.is_layout_size_set_by_user && v.offset_horizontal == d.offset_from_parent_horiz && v.offset_vertical == d.offset_from_parent_vert && v.indents@ == d.outline_indent_distance.0@ && v.items@.len() == d.children@.len() && (forall|i: int| 0 <= i < d.children@.len() ==> item_is(#[trigger] v.items@[i], d.children@[i], s))
}
#[via_fn] proof fn outline_dec(v: Outline, id: ExGuid, s: ObjectSpace) { assert forall|i: int| 0 <= i < v.items@.len() implies decreases_to!(v => #[trigger] v.items@[i]) by { assert(decreases_to!(v.items => v.items[i])); } }
pub open spec fn outline_bad(id: ExGuid, s: ObjectSpace, n: int) -> bool decreases n {
    n > 0 && (!has_o(s, id) || !outline_node::good(ob(s, id)) || nest_bad(id, s) || exists|d: outline_node::Data| #[trigger] outline_node::data_is(d, ob(s, id)) && ((exists|i: int| 0 <= i < d.children@.len() && item_bad(#[trigger] d.children@[i], s, n - 1))))
}
pub open spec fn outline_err(id: ExGuid, s: ObjectSpace) -> bool { exists|n: int| #[trigger] outline_bad(id, s, n) }
pub open spec fn outlines_are(v: Seq<Outline>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> outline_is(#[trigger] v[i], ids[i], s) }
/// the group stored under an id: its items in order
pub open spec fn group_is(v: OutlineGroup, id: ExGuid, s: ObjectSpace) -> bool decreases v via group_dec {
    has_o(s, id) && outline_group::good(ob(s, id)) && exists|d: outline_group::Data| #[trigger] outline_group::data_is(d, ob(s, id)) && v.child_level == d.child_level && v.outlines@.len() == d.children@.len() && (forall|i: int| 0 <= i < d.children@.len() ==> item_is(#[trigger] v.outlines@[i], d.children@[i], s))
}
#[via_fn] proof fn group_dec(v: OutlineGroup, id: ExGuid, s: ObjectSpace) { assert forall|i: int| 0 <= i < v.outlines@.len() implies decreases_to!(v => #[trigger] v.outlines@[i]) by { assert(decreases_to!(v.outlines => v.outlines[i])); } }
pub open spec fn group_bad(id: ExGuid, s: ObjectSpace, n: int) -> bool decreases n {
    n > 0 && (!has_o(s, id) || !outline_group::good(ob(s, id)) || exists|d: outline_group::Data| #[trigger] outline_group::data_is(d, ob(s, id)) && ((exists|i: int| 0 <= i < d.children@.len() && item_bad(#[trigger] d.children@[i], s, n - 1))))
}
pub open spec fn group_err(id: ExGuid, s: ObjectSpace) -> bool { exists|n: int| #[trigger] group_bad(id, s, n) }
pub open spec fn groups_are(v: Seq<OutlineGroup>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> group_is(#[trigger] v[i], ids[i], s) }
/// the element stored under an id: its contents, list markers and nested items, each in order
pub open spec fn element_is(v: OutlineElement, id: ExGuid, s: ObjectSpace) -> bool decreases v via element_dec {
    has_o(s, id) && outline_element_node::good(ob(s, id)) && exists|d: outline_element_node::Data| #[trigger] outline_element_node::data_is(d, ob(s, id)) && v.child_level == d.child_level && v.list_spacing == d.list_spacing && v.children@.len() == d.children@.len() && (forall|i: int| 0 <= i < d.children@.len() ==> item_is(#[trigger] v.children@[i], d.children@[i], s)) && v.contents@.len() == d.contents@.len() && (forall|i: int| 0 <= i < d.contents@.len() ==> content_is(#[trigger] v.contents@[i], d.contents@[i], s)) && v.list_contents@.len() == d.list_contents@.len() && (forall|i: int| 0 <= i < d.list_contents@.len() ==> list_is(#[trigger] v.list_contents@[i], d.list_contents@[i], s))
}
#[via_fn] proof fn element_dec(v: OutlineElement, id: ExGuid, s: ObjectSpace) { assert forall|i: int| 0 <= i < v.children@.len() implies decreases_to!(v => #[trigger] v.children@[i]) by { assert(decreases_to!(v.children => v.children[i])); } assert forall|i: int| 0 <= i < v.contents@.len() implies decreases_to!(v => #[trigger] v.contents@[i]) by { assert(decreases_to!(v.contents => v.contents[i])); } }
pub open spec fn element_bad(id: ExGuid, s: ObjectSpace, n: int) -> bool decreases n {
    n > 0 && (!has_o(s, id) || !outline_element_node::good(ob(s, id)) || exists|d: outline_element_node::Data| #[trigger] outline_element_node::data_is(d, ob(s, id)) && ((exists|i: int| 0 <= i < d.children@.len() && item_bad(#[trigger] d.children@[i], s, n - 1)) || (exists|i: int| 0 <= i < d.contents@.len() && content_bad(#[trigger] d.contents@[i], s, n - 1)) || (exists|i: int| 0 <= i < d.list_contents@.len() && !list_ok(#[trigger] d.list_contents@[i], s))))
}
pub open spec fn element_err(id: ExGuid, s: ObjectSpace) -> bool { exists|n: int| #[trigger] element_bad(id, s, n) }
pub open spec fn elements_are(v: Seq<OutlineElement>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> element_is(#[trigger] v[i], ids[i], s) }
pub proof fn lemma_outline_children(d: outline_node::Data, o: Object, i: int) requires outline_node::good(o), outline_node::data_is(d, o), 0 <= i < d.children@.len() ensures is_kid(d.children@[i], o)
{ assert(PropertySetId::vx_of(o.jc_id.0 as int) == Some(PropertySetId::OutlineNode)); assert(kinds(o) == seq![PropertyType::ElementChildNodes]); assert(refs_of(o, 0) == Some(d.children@)); assert(has_kid(o, 0, i)); assert(kid(o, 0, i) == d.children@[i]); }
pub proof fn lemma_group_children(d: outline_group::Data, o: Object, i: int) requires outline_group::good(o), outline_group::data_is(d, o), 0 <= i < d.children@.len() ensures is_kid(d.children@[i], o)
{ assert(PropertySetId::vx_of(o.jc_id.0 as int) == Some(PropertySetId::OutlineGroup)); assert(kinds(o) == seq![PropertyType::ElementChildNodes]); assert(refs_of(o, 0) == Some(d.children@)); assert(has_kid(o, 0, i)); assert(kid(o, 0, i) == d.children@[i]); }
pub proof fn lemma_element_children(d: outline_element_node::Data, o: Object, i: int) requires outline_element_node::good(o), outline_element_node::data_is(d, o), 0 <= i < d.children@.len() ensures is_kid(d.children@[i], o)
{ assert(PropertySetId::vx_of(o.jc_id.0 as int) == Some(PropertySetId::OutlineElementNode)); assert(kinds(o) == seq![PropertyType::ElementChildNodes, PropertyType::ContentChildNodes]); assert(refs_of(o, 0) == Some(d.children@)); assert(has_kid(o, 0, i)); assert(kid(o, 0, i) == d.children@[i]); }
pub proof fn lemma_element_contents(d: outline_element_node::Data, o: Object, i: int) requires outline_element_node::good(o), outline_element_node::data_is(d, o), 0 <= i < d.contents@.len() ensures is_kid(d.contents@[i], o)
{ assert(PropertySetId::vx_of(o.jc_id.0 as int) == Some(PropertySetId::OutlineElementNode)); assert(kinds(o) == seq![PropertyType::ElementChildNodes, PropertyType::ContentChildNodes]); assert(refs_of(o, 1) == Some(d.contents@)); assert(has_kid(o, 1, i)); assert(kid(o, 1, i) == d.contents@[i]); }
#fn parse_outline
#attr
    #[verifier::spinoff_prover]
#spec
ensures match r { Ok(v) => outline_is(v, outline_id, *space), Err(_) => outline_err(outline_id, *space) }
#entry
    hide(outline_node::good); hide(outline_node::data_is); hide(is_kid); hide(nest_bad); hide(chain); hide(kinds); hide(list_is); hide(list_ok); hide(nest_ok);
    proof { lemma_one(outline_id, *space); assert(Seq::<ExGuid>::empty().push(outline_id) =~= seq![outline_id]); }
    assert(!nest_bad(outline_id, *space) && has_o(*space, outline_id) && outline_node::good(ob(*space, outline_id)) || outline_bad(outline_id, *space, 1));
#spec
#loop 0
    invariant bounded(outline_id, *space), __src0@ == data.children@, items_are(__out0@, data.children@, *space, __k0 as int),
#start 0
    let ghost __i = __k0 as int;
    proof { lemma_outline_children(data, ob(*space, outline_id), __i); lemma_kid(data.children@[__i], outline_id, *space);
        assert(item_err(data.children@[__i], *space) ==> outline_err(outline_id, *space)) by { if item_err(data.children@[__i], *space) { let n = choose|n: int| item_bad(data.children@[__i], *space, n); assert(n > 0); assert(outline_bad(outline_id, *space, n + 1)); } } }
#fn parse_outline_item
#attr
    #[verifier::spinoff_prover]
#spec
requires bounded(item_id, *space)
ensures match r { Ok(v) => item_is(v, item_id, *space), Err(_) => item_err(item_id, *space) }
decreases hgt(item_id, *space), 1int
#entry
    hide(is_kid); hide(chain); hide(kinds); hide(list_is); hide(list_ok); hide(nest_ok);
    proof {
        if !has_o(*space, item_id) || (kind_of(item_id, *space) != Some(PropertySetId::OutlineGroup) && kind_of(item_id, *space) != Some(PropertySetId::OutlineElementNode)) { assert(item_bad(item_id, *space, 1)); }
        assert(group_err(item_id, *space) && kind_of(item_id, *space) == Some(PropertySetId::OutlineGroup) ==> item_err(item_id, *space)) by { if group_err(item_id, *space) && kind_of(item_id, *space) == Some(PropertySetId::OutlineGroup) { let n = choose|n: int| group_bad(item_id, *space, n); assert(n > 0); assert(item_bad(item_id, *space, n + 1)); } }
        assert(element_err(item_id, *space) && kind_of(item_id, *space) == Some(PropertySetId::OutlineElementNode) ==> item_err(item_id, *space)) by { if element_err(item_id, *space) && kind_of(item_id, *space) == Some(PropertySetId::OutlineElementNode) { let n = choose|n: int| element_bad(item_id, *space, n); assert(n > 0); assert(item_bad(item_id, *space, n + 1)); } }
    }
#spec
#fn parse_outline_group
#attr
    #[verifier::spinoff_prover]
#spec
requires bounded(group_id, *space)
ensures match r { Ok(v) => group_is(v, group_id, *space), Err(_) => group_err(group_id, *space) }
decreases hgt(group_id, *space), 0int
#entry
    hide(outline_group::good); hide(outline_group::data_is); hide(is_kid); hide(chain); hide(kinds); hide(list_is); hide(list_ok); hide(nest_ok);
    assert(has_o(*space, group_id) && outline_group::good(ob(*space, group_id)) || group_bad(group_id, *space, 1));
#spec
#loop 0
    invariant __src0@ == data.children@, items_are(__out0@, data.children@, *space, __k0 as int),
#start 0
    let ghost __i = __k0 as int;
    proof { lemma_group_children(data, ob(*space, group_id), __i); lemma_kid(data.children@[__i], group_id, *space);
        assert(item_err(data.children@[__i], *space) ==> group_err(group_id, *space)) by { if item_err(data.children@[__i], *space) { let n = choose|n: int| item_bad(data.children@[__i], *space, n); assert(n > 0); assert(group_bad(group_id, *space, n + 1)); } } }
#fn parse_outline_element
#attr
    #[verifier::spinoff_prover]
#spec
requires bounded(element_id, *space)
ensures match r { Ok(v) => element_is(v, element_id, *space), Err(_) => element_err(element_id, *space) }
decreases hgt(element_id, *space), 0int
#entry
    hide(outline_element_node::good); hide(outline_element_node::data_is); hide(is_kid); hide(chain); hide(kinds); hide(list_is); hide(list_ok); hide(nest_ok);
    assert(has_o(*space, element_id) && outline_element_node::good(ob(*space, element_id)) || element_bad(element_id, *space, 1));
#spec
#loop 0
    invariant __src0@ == data.children@, items_are(__out0@, data.children@, *space, __k0 as int),
#start 0
    let ghost __i = __k0 as int;
    proof { lemma_element_children(data, ob(*space, element_id), __i); lemma_kid(data.children@[__i], element_id, *space);
        assert(item_err(data.children@[__i], *space) ==> element_err(element_id, *space)) by { if item_err(data.children@[__i], *space) { let n = choose|n: int| item_bad(data.children@[__i], *space, n); assert(n > 0); assert(element_bad(element_id, *space, n + 1)); } } }
#loop 1
    invariant __src1@ == data.contents@, contents_are(__out1@, data.contents@, *space, __k1 as int),
#start 1
    let ghost __i = __k1 as int;
    proof { lemma_element_contents(data, ob(*space, element_id), __i); lemma_kid(data.contents@[__i], element_id, *space);
        assert(content_err(data.contents@[__i], *space) ==> element_err(element_id, *space)) by { if content_err(data.contents@[__i], *space) { let n = choose|n: int| content_bad(data.contents@[__i], *space, n); assert(n > 0); assert(element_bad(element_id, *space, n + 1)); } } }
#loop 2
    invariant __src2@ == data.list_contents@, lists_are(__out2@, data.list_contents@, *space, __k2 as int),
#start 2
    let ghost __i = __k2 as int;
    assert(!list_ok(data.list_contents@[__i], *space) ==> element_bad(element_id, *space, 1));
#fn check_nesting
#attr
    #[verifier::spinoff_prover]
#spec
requires chain(old(ancestors)@.push(id), *space), heights_ok(old(heights)@, *space), old(ancestors)@.len() <= 256
ensures match r { Ok(h) => final(ancestors)@ == old(ancestors)@ && heights_ok(final(heights)@, *space) && height_is(id, *space, h as int) && h + old(ancestors)@.len() <= 256, Err(_) => nest_bad(old(ancestors)@.push(id)[0], *space) }
decreases 257 - old(ancestors)@.len()
#entry
    hide(chain); hide(kinds); hide(nest_ok); hide(nest_bad); hide(has_path); hide(p_refs);
    let ghost __anc = ancestors@; let ghost __f = __anc.push(id);
    proof { lemma_one(id, *space);
        if heights@.contains_key(id) { if __anc.len() + heights@[id] > 256 { lemma_too_deep(__anc, id, *space, heights@[id] as int); } } else if __anc.len() + 1 > 256 { lemma_too_deep(__anc, id, *space, 1); }
        if __anc.contains(id) { lemma_cycle(__anc, id, *space); } }
#spec
#before ancestors.push(id)
    let ghost __h1: usize = height;
#pre 0
    let ghost __ob = *object;
    proof { assert(ancestors@ == __f); assert(__ob == ob(*space, id)); assert(!kids_ok(__ob) ==> nest_bad(__f[0], *space)) by { reveal(nest_bad); assert(__f.last() == id); } }
#loop 0
    invariant crate::ext::vx_refs(__src0@, kinds(__ob)), ancestors@ == __f, heights_ok(heights@, *space), chain(__f, *space), 1 <= height, height + __anc.len() <= 256, has_path(id, *space, height as int), upto(__ob, *space, __k0 as int, 0, height - 1),
#start 0
    let ghost __a = __k0 as int;
    assert(*__src0@[__a] == kinds(__ob)[__a]);
    proof { assert(refs_of(__ob, __a) is None ==> !kids_ok(__ob)); }
#loop 1
    invariant refs_of(__ob, __a) == Some(__src1@), __a == __k0 - 1, __a < kinds(__ob).len(), ancestors@ == __f, heights_ok(heights@, *space), chain(__f, *space), 1 <= height, height + __anc.len() <= 256, has_path(id, *space, height as int), upto(__ob, *space, __a, __k1 as int, height - 1),
#start 1
    let ghost __b = __k1 as int; let ghost __c = __src1@[__b]; let ghost __h0 = height as int;
    proof { assert(has_kid(__ob, __a, __b) && kid(__ob, __a, __b) == __c); assert(is_kid(__c, __ob)); assert(__f.last() == id); lemma_extend(__f, __c, *space); assert(__f.push(__c)[0] == __f[0]); }
#end 1
    proof {
        lemma_upto(__ob, *space, __a, __b, __h0 - 1, height - 1);
        let hc = choose|h: int| height_is(__c, *space, h) && height == (if __h0 < 1 + h { 1 + h } else { __h0 });
        lemma_path(id, __c, *space, hc); lemma_mono(__c, *space, hc, height - 1);
        assert(upto(__ob, *space, __a, __b + 1, height - 1));
    }
#before heights.insert
    proof { lemma_top(id, *space, height as int); }
#fn child_properties
ensures r@ == kinds(*object)
#fn Outline::child_level
ensures r == self.child_level
#fn Outline::list_spacing
ensures r == self.list_spacing
#fn Outline::alignment_in_parent
ensures r == self.alignment_in_parent
#fn Outline::alignment_self
ensures r == self.alignment_self
#fn Outline::layout_max_height
ensures r == self.layout_max_height
#fn Outline::layout_max_width
ensures r == self.layout_max_width
#fn Outline::layout_reserved_width
ensures r == self.layout_reserved_width
#fn Outline::layout_minimum_outline_width
ensures r == self.layout_minimum_outline_width
#fn Outline::is_layout_size_set_by_user
ensures r == self.is_layout_size_set_by_user
#fn Outline::offset_horizontal
ensures r == self.offset_horizontal
#fn Outline::offset_vertical
ensures r == self.offset_vertical
#fn OutlineGroup::child_level
ensures r == self.child_level
#fn OutlineElement::list_spacing
ensures r == self.list_spacing
#fn OutlineElement::child_level
ensures r == self.child_level
#fn Outline::items
ensures r@ == self.items@
#fn Outline::indents
ensures r@ == self.indents@
#fn OutlineGroup::outlines
ensures r@ == self.outlines@
#fn OutlineElement::contents
ensures r@ == self.contents@
#fn OutlineElement::list_contents
ensures r@ == self.list_contents@
#fn OutlineElement::children
ensures r@ == self.children@
#fn OutlineItem::element
ensures match *self { OutlineItem::Element(x) => r == Some(&x), _ => r is None }
