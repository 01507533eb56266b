#prelude
use crate::ext::{os, ov, opt_or, vx_flat};
use crate::onestore::object_space::{has_o, ob};
use crate::onestore::object::Object;
use crate::onenote::ink::{ink_data_is, ink_data_bad};
use crate::onenote::math_inline_object::{math_is, math_bad};
use crate::onenote::note_tag::{tags_from, tags_bad};
use crate::one::property::PropertyType;
use crate::one::property_set::text_run_data::{runs_is, run_sets};
pub open spec fn style_from(v: ParagraphStyling, d: paragraph_style_object::Data) -> bool {
    v.charset == d.charset && v.bold == d.bold && v.italic == d.italic && v.underline == d.underline && v.strikethrough == d.strikethrough && v.superscript == d.superscript && v.subscript == d.subscript && v.font == d.font && v.font_size == d.font_size && v.font_color == d.font_color && v.highlight == d.highlight && v.next_style == d.next_style && v.style_id == d.style_id && v.paragraph_alignment == d.paragraph_alignment && v.paragraph_space_before == d.paragraph_space_before && v.paragraph_space_after == d.paragraph_space_after && v.paragraph_line_spacing_exact == d.paragraph_line_spacing_exact && v.language_code == d.language_code && v.math_formatting == d.math_formatting && v.hyperlink == d.hyperlink
}
pub open spec fn style_ok(id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && paragraph_style_object::good(ob(s, id)) }
/// the styles stored under the ids
pub open spec fn styles_of(st: Seq<paragraph_style_object::Data>, ids: Seq<ExGuid>, s: ObjectSpace) -> bool { styles_upto(st, ids, s, ids.len() as int) }
pub open spec fn styles_upto(st: Seq<paragraph_style_object::Data>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { st.len() == n && forall|i: int| 0 <= i < st.len() ==> style_at(#[trigger] st[i], ids[i], s) }
pub open spec fn style_at(d: paragraph_style_object::Data, id: ExGuid, s: ObjectSpace) -> bool { style_ok(id, s) && paragraph_style_object::data_is(d, ob(s, id)) }
pub open spec fn styles_from(v: Seq<ParagraphStyling>, st: Seq<paragraph_style_object::Data>) -> bool { styles_done(v, st, st.len() as int) }
pub open spec fn styles_done(v: Seq<ParagraphStyling>, st: Seq<paragraph_style_object::Data>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> style_from(#[trigger] v[i], st[i]) }
/// the data of the text runs; none is the same as an empty list
pub open spec fn runs_of(v: Seq<Object>, o: Object) -> bool { (o.props.pv(PropertyType::TextRunData) is None && v.len() == 0) || runs_is(v, o) }
/// the formula of a run, if its style says that it is one
pub open spec fn math_at(w: Option<MathInlineObject>, run: Object, st: paragraph_style_object::Data) -> bool { if st.math_formatting { w matches Some(m) && math_is(m, run) } else { w is None } }
pub open spec fn maths_at(w: Seq<Option<MathInlineObject>>, runs: Seq<Object>, st: Seq<paragraph_style_object::Data>, n: int) -> bool { w.len() == n && forall|i: int| 0 <= i < n ==> math_at(#[trigger] w[i], runs[i], st[i]) }
/// the embedded object of a run, if its style says that it is one
pub open spec fn obj_at(w: Option<(Option<u32>, embedded_ink_container::Data)>, run: Object, st: paragraph_style_object::Data) -> bool {
    if st.text_run_is_embedded_object { w matches Some(p) && p.0 == st.text_run_object_type && embedded_ink_container::good(run) && embedded_ink_container::data_is(p.1, run) } else { w is None }
}
pub open spec fn objs_at(w: Seq<Option<(Option<u32>, embedded_ink_container::Data)>>, runs: Seq<Object>, st: Seq<paragraph_style_object::Data>, n: int) -> bool { w.len() == n && forall|i: int| 0 <= i < n ==> obj_at(#[trigger] w[i], runs[i], st[i]) }
pub open spec fn is_space(t: Option<u32>) -> bool { t == Some(0x20026u32) }
pub open spec fn is_break(t: Option<u32>) -> bool { t == Some(0x20027u32) }
/// how many of the first objects are ink, so have a reference
pub open spec fn inks(v: Seq<(Option<u32>, embedded_ink_container::Data)>, i: int) -> int decreases i { if i <= 0 { 0 } else { inks(v, i - 1) + (if is_space(v[i - 1].0) || is_break(v[i - 1].0) { 0int } else { 1int }) } }
pub open spec fn shown_box(d: embedded_ink_container::Data) -> Option<InkBoundingBox> {
    match (d.start_x, d.start_y, d.height, d.width) { (Some(x), Some(y), Some(height), Some(width)) => Some(InkBoundingBox { x, y, height, width }), _ => None }
}
pub open spec fn container_is(v: EmbeddedInkContainer, id: ExGuid, d: embedded_ink_container::Data, s: ObjectSpace) -> bool {
    ink_data_is(v.ink.ink_strokes@, v.ink.bounding_box, id, s, None, None) && v.ink.offset_horizontal == d.offset_horiz && v.ink.offset_vertical == d.offset_vert && v.bounding_box == shown_box(d)
}
pub open spec fn space_from(v: EmbeddedInkSpace, d: embedded_ink_container::Data) -> bool { d.space_width == Some(v.width) && d.space_height == Some(v.height) }
/// the embedded object number i; `n` ink objects are in front of it
pub open spec fn emb_at(w: Option<EmbeddedObject>, x: (Option<u32>, embedded_ink_container::Data), n: int, refs: Seq<ExGuid>, s: ObjectSpace) -> bool {
    if is_break(x.0) { w == Some(EmbeddedObject::InkLineBreak) }
    else if is_space(x.0) { w matches Some(EmbeddedObject::InkSpace(v)) && space_from(v, x.1) }
    else { x.0 is None && if refs.len() > 0 { 0 <= n < refs.len() && (w matches Some(EmbeddedObject::Ink(v)) && container_is(v, refs[n], x.1, s)) } else { w is None } }
}
pub open spec fn emb_bad(x: (Option<u32>, embedded_ink_container::Data), n: int, refs: Seq<ExGuid>, s: ObjectSpace) -> bool {
    !is_break(x.0) && if is_space(x.0) { x.1.space_width is None || x.1.space_height is None }
    else { x.0 is Some || refs.len() > 0 && (n >= refs.len() || ink_data_bad(refs[n], s)) }
}
pub open spec fn embs_at(w: Seq<Option<EmbeddedObject>>, v: Seq<(Option<u32>, embedded_ink_container::Data)>, refs: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool { w.len() == n && forall|i: int| 0 <= i < n ==> emb_at(#[trigger] w[i], v[i], inks(v, i), refs, s) }
pub open spec fn zipped(runs: Seq<Object>, st: Seq<paragraph_style_object::Data>) -> int { crate::ext::vx_min(runs.len() as int, st.len() as int) }
pub open spec fn maths_from(v: Seq<MathInlineObject>, runs: Seq<Object>, st: Seq<paragraph_style_object::Data>) -> bool {
    exists|w: Seq<Option<MathInlineObject>>| #[trigger] maths_at(w, runs, st, zipped(runs, st)) && v == vx_flat(w)
}
pub open spec fn objects_from(v: Seq<(Option<u32>, embedded_ink_container::Data)>, runs: Seq<Object>, st: Seq<paragraph_style_object::Data>) -> bool {
    exists|w: Seq<Option<(Option<u32>, embedded_ink_container::Data)>>| #[trigger] objs_at(w, runs, st, zipped(runs, st)) && v == vx_flat(w)
}
pub open spec fn embedded_from(v: Seq<EmbeddedObject>, x: Seq<(Option<u32>, embedded_ink_container::Data)>, refs: Seq<ExGuid>, s: ObjectSpace) -> bool {
    exists|w: Seq<Option<EmbeddedObject>>| #[trigger] embs_at(w, x, refs, s, x.len() as int) && v == vx_flat(w)
}
pub open spec fn own_style(v: ParagraphStyling, id: ExGuid, s: ObjectSpace) -> bool { style_ok(id, s) && exists|d: paragraph_style_object::Data| #[trigger] paragraph_style_object::data_is(d, ob(s, id)) && style_from(v, d) }
pub open spec fn fields_from(v: RichText, d: rich_text_node::Data) -> bool {
    v.text_run_indices == d.text_run_indices && v.paragraph_space_before == d.paragraph_space_before && v.paragraph_space_after == d.paragraph_space_after
    && v.paragraph_line_spacing_exact == d.paragraph_line_spacing_exact && v.paragraph_alignment == d.paragraph_alignment
    && v.layout_alignment_in_parent == d.layout_alignment_in_parent && v.layout_alignment_self == d.layout_alignment_self
    && v.text@ == (if v.embedded_objects@.len() > 0 { Seq::<char>::empty() } else { opt_or(os(d.text), Seq::<char>::empty()) })
}
#[verifier::opaque]
pub open spec fn objects_are(v: RichText, runs: Seq<Object>, st: Seq<paragraph_style_object::Data>, refs: Seq<ExGuid>, s: ObjectSpace) -> bool {
    maths_from(v.math_inline_objects@, runs, st) && exists|x: Seq<(Option<u32>, embedded_ink_container::Data)>| #[trigger] objects_from(x, runs, st) && embedded_from(v.embedded_objects@, x, refs, s)
}
/// the styles, formulas and embedded objects: those of the runs, each run with its own style and its own data
pub open spec fn runs_from(v: RichText, d: rich_text_node::Data, o: Object, s: ObjectSpace) -> bool {
    exists|runs: Seq<Object>, st: Seq<paragraph_style_object::Data>| #[trigger] runs_of(runs, o) && #[trigger] styles_of(st, d.text_run_formatting@, s) && styles_from(v.text_run_formatting@, st) && objects_are(v, runs, st, d.text_run_data_object@, s)
}
pub open spec fn rich_from(v: RichText, d: rich_text_node::Data, o: Object, s: ObjectSpace) -> bool {
    fields_from(v, d) && own_style(v.paragraph_style, d.paragraph_style, s) && tags_from(v.note_tags@, d.note_tags@, s) && runs_from(v, d, o, s)
}
/// the paragraph stored under an id
pub open spec fn rich_is(v: RichText, id: ExGuid, s: ObjectSpace) -> bool {
    has_o(s, id) && rich_text_node::good(ob(s, id)) && exists|d: rich_text_node::Data| #[trigger] rich_text_node::data_is(d, ob(s, id)) && rich_from(v, d, ob(s, id), s)
}
#[verifier::opaque]
pub open spec fn run_bad(runs: Seq<Object>, st: Seq<paragraph_style_object::Data>, refs: Seq<ExGuid>, s: ObjectSpace) -> bool {
    (exists|i: int| 0 <= i < zipped(runs, st) && (#[trigger] st[i]).math_formatting && math_bad(runs[i]))
    || (exists|i: int| 0 <= i < zipped(runs, st) && (#[trigger] st[i]).text_run_is_embedded_object && !embedded_ink_container::good(runs[i]))
    || (exists|x: Seq<(Option<u32>, embedded_ink_container::Data)>, i: int| #[trigger] objects_from(x, runs, st) && 0 <= i < x.len() && emb_bad(#[trigger] x[i], inks(x, i), refs, s))
}
pub open spec fn runs_bad(d: rich_text_node::Data, o: Object, s: ObjectSpace) -> bool {
    (exists|i: int| 0 <= i < d.text_run_formatting@.len() && !style_ok(#[trigger] d.text_run_formatting@[i], s))
    || (o.props.pv(PropertyType::TextRunData) is Some && run_sets(o) is None)
    || exists|runs: Seq<Object>, st: Seq<paragraph_style_object::Data>| #[trigger] runs_of(runs, o) && #[trigger] styles_of(st, d.text_run_formatting@, s) && run_bad(runs, st, d.text_run_data_object@, s)
}
pub open spec fn rich_bad(id: ExGuid, s: ObjectSpace) -> bool {
    !has_o(s, id) || !rich_text_node::good(ob(s, id)) || exists|d: rich_text_node::Data| #[trigger] rich_text_node::data_is(d, ob(s, id)) && (!style_ok(d.paragraph_style, s) || runs_bad(d, ob(s, id), s) || tags_bad(d.note_tags@, s))
}
#fn parse_rich_text
#attr
    #[verifier::rlimit(60)] #[verifier::spinoff_prover]
#spec
ensures match r { Ok(v) => rich_is(v, content_id, *space), Err(_) => rich_bad(content_id, *space) }
#entry
    hide(rich_text_node::good); hide(rich_text_node::data_is); hide(paragraph_style_object::good); hide(paragraph_style_object::data_is); hide(style_from); hide(runs_is); hide(run_sets); hide(embedded_ink_container::good); hide(embedded_ink_container::data_is);
    hide(ink_data_is); hide(ink_data_bad); hide(math_is); hide(math_bad); hide(tags_bad); hide(tags_from); hide(emb_bad); hide(container_is);
#spec
#loop 0
    invariant crate::ext::vx_refs(__src0@, data.text_run_formatting@), styles_upto(__out0@, data.text_run_formatting@, *space, __k0 as int),
#start 0
    assert(*__src0@[__k0 as int] == data.text_run_formatting@[__k0 as int]);
#before let math_inline_objects
    let ghost __rd = data; let ghost __o = *object; let ghost __runs = text_run_data@; let ghost __st = styles_data@; let ghost __refs = data.text_run_data_object@;
    proof { assert(styles_of(__st, data.text_run_formatting@, *space)); assert(runs_of(__runs, *object)); }
    proof { reveal(run_bad); }
#loop 1
    invariant __src1@.len() == zipped(__runs, __st), forall|i: int| 0 <= i < __src1@.len() ==> *(#[trigger] __src1@[i]).0 == __runs[i] && *__src1@[i].1 == __st[i],
        maths_at(__out1@, __runs, __st, __k1 as int),
#start 1
    let ghost __kk = __k1 as int; assert(*__src1@[__kk].0 == __runs[__kk] && *__src1@[__kk].1 == __st[__kk]);
    reveal(run_bad); reveal(math_bad); reveal(math_is);
#loop 2
    invariant __src2@.len() == zipped(__runs, __st), forall|i: int| 0 <= i < __src2@.len() ==> (#[trigger] __src2@[i]).0 == __runs[i] && *__src2@[i].1 == __st[i],
        objs_at(__out2@, __runs, __st, __k2 as int),
#start 2
    let ghost __kk = __k2 as int; assert(__src2@[__kk].0 == __runs[__kk] && *__src2@[__kk].1 == __st[__kk]);
    reveal(run_bad);
#before let mut objects_without_ref
    let ghost __ob = objects@;
    proof { assert(objects_from(__ob, __runs, __st)); }
#loop 3
    invariant __src3@.len() == __ob.len(), forall|i: int| 0 <= i < __src3@.len() ==> (#[trigger] __src3@[i]).0 == i && __src3@[i].1 == __ob[i],
        objects_without_ref as int == __k3 - inks(__ob, __k3 as int), 0 <= inks(__ob, __k3 as int) <= __k3,
        embs_at(__out3@, __ob, __refs, *space, __k3 as int),
#start 3
    let ghost __kk = __k3 as int; assert(__src3@[__kk].0 == __kk && __src3@[__kk].1 == __ob[__kk]);
    assert(inks(__ob, __kk + 1) == inks(__ob, __kk) + (if is_space(__ob[__kk].0) || is_break(__ob[__kk].0) { 0int } else { 1int }));
    assert(emb_bad(__ob[__kk], inks(__ob, __kk), __refs, *space) ==> run_bad(__runs, __st, __refs, *space)) by { reveal(run_bad); }
    reveal(emb_bad);
#loop 4
    invariant __src4@ == __st, styles_done(__out4@, __st, __k4 as int),
#before let styles =
    proof { assert(embedded_from(embedded_objects@, __ob, __refs, *space)); }
#before let text = if
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
#before Ok(text)
    proof { reveal(objects_are); assert(objects_are(text, __runs, __st, __refs, *space)); assert(text.text@ =~= (if text.embedded_objects@.len() > 0 { Seq::<char>::empty() } else { opt_or(os(__rd.text), Seq::<char>::empty()) })); assert(fields_from(text, __rd)); assert(own_style(text.paragraph_style, __rd.paragraph_style, *space)); assert(runs_from(text, __rd, *object, *space)); assert(rich_from(text, __rd, *object, *space)); }
#fn parse_embedded_ink_data
ensures match r { Ok(v) => container_is(v, embedded_id, data, *space), Err(_) => ink_data_bad(embedded_id, *space) }
#entry
    hide(ink_data_is); hide(ink_data_bad);
#spec
#fn parse_embedded_ink_space
ensures match r { Ok(v) => space_from(v, data), Err(_) => data.space_width is None || data.space_height is None }
#fn parse_style
ensures style_from(r, data)
#fn ParagraphStyling::charset
ensures r == self.charset
#fn ParagraphStyling::bold
ensures r == self.bold
#fn ParagraphStyling::italic
ensures r == self.italic
#fn ParagraphStyling::underline
ensures r == self.underline
#fn ParagraphStyling::strikethrough
ensures r == self.strikethrough
#fn ParagraphStyling::superscript
ensures r == self.superscript
#fn ParagraphStyling::subscript
ensures r == self.subscript
#fn ParagraphStyling::font
ensures r is Some == self.font is Some, r matches Some(x) ==> x@ == self.font.unwrap()@
#fn ParagraphStyling::font_size
ensures r == self.font_size
#fn ParagraphStyling::font_color
ensures r == self.font_color
#fn ParagraphStyling::highlight
ensures r == self.highlight
#fn ParagraphStyling::next_style
ensures r is Some == self.next_style is Some, r matches Some(x) ==> x@ == self.next_style.unwrap()@
#fn ParagraphStyling::style_id
ensures r is Some == self.style_id is Some, r matches Some(x) ==> x@ == self.style_id.unwrap()@
#fn ParagraphStyling::paragraph_alignment
ensures r == self.paragraph_alignment
#fn ParagraphStyling::paragraph_space_before
ensures r == self.paragraph_space_before
#fn ParagraphStyling::paragraph_space_after
ensures r == self.paragraph_space_after
#fn ParagraphStyling::paragraph_line_spacing_exact
ensures r == self.paragraph_line_spacing_exact
#fn ParagraphStyling::language_code
ensures r == self.language_code
#fn ParagraphStyling::math_formatting
ensures r == self.math_formatting
#fn ParagraphStyling::hyperlink
ensures r == self.hyperlink
#fn RichText::text
ensures r@ == self.text@
#fn RichText::text_run_formatting
ensures r@ == self.text_run_formatting@
#fn RichText::text_run_indices
ensures r@ == self.text_run_indices@
#fn RichText::paragraph_style
ensures *r == self.paragraph_style
#fn RichText::paragraph_space_before
ensures r == self.paragraph_space_before
#fn RichText::paragraph_space_after
ensures r == self.paragraph_space_after
#fn RichText::paragraph_line_spacing_exact
ensures r == self.paragraph_line_spacing_exact
#fn RichText::paragraph_alignment
ensures r == self.paragraph_alignment
#fn RichText::layout_alignment_in_parent
ensures r == self.layout_alignment_in_parent
#fn RichText::layout_alignment_self
ensures r == self.layout_alignment_self
#fn RichText::note_tags
ensures r@ == self.note_tags@
#fn RichText::embedded_objects
ensures r@ == self.embedded_objects@
#fn RichText::math_inline_objects
ensures r@ == self.math_inline_objects@
#fn EmbeddedInkContainer::ink
ensures *r == self.ink
#fn EmbeddedInkContainer::bounding_box
ensures r == (match self.bounding_box { Some(x) => Some(&x), None => None })
#fn EmbeddedInkSpace::height
ensures r == self.height
#fn EmbeddedInkSpace::width
ensures r == self.width
