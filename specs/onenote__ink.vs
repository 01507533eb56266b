#prelude
use crate::ext::{os, ov, opt_or, fmul, fsub, as_f32};
use crate::onestore::object_space::{has_o, ob};
use crate::onestore::object::Object;
use crate::one::property::ink_dimensions::InkDimension;
use crate::shared::multi_byte::mb_all;
use crate::one::property::simple::p_vec;
use crate::one::property::PropertyType;
/// the ids of the two axes
pub open spec fn gx() -> crate::shared::guid::Guid { crate::shared::guid::Guid(crate::ext::uuid_lit(0x598a6a8f_52c0_4ba0_93af_af357411a561u128)) }
pub open spec fn gy() -> crate::shared::guid::Guid { crate::shared::guid::Guid(crate::ext::uuid_lit(0xb53f9f75_04e0_4498_a7ee_c30dbb5a9011u128)) }
/// the first dimension with an id
pub open spec fn dim_at(d: Seq<InkDimension>, g: crate::shared::guid::Guid, i: int) -> bool { 0 <= i < d.len() && d[i].id == g && forall|j: int| 0 <= j < i ==> (#[trigger] d[j]).id != g }
pub open spec fn no_dim(d: Seq<InkDimension>, g: crate::shared::guid::Guid) -> bool { forall|j: int| 0 <= j < d.len() ==> (#[trigger] d[j]).id != g }
/// the stored numbers, dimension after dimension: the points are those of the two axes, each with its own scale
pub open spec fn points_are(v: Seq<InkPoint>, m: int, data: Seq<i64>, n: int, i: int, j: int, sx: Option<f32>, sy: Option<f32>) -> bool {
    v.len() == m && forall|k: int| 0 <= k < m ==> #[trigger] v[k] == (InkPoint { x: fmul(opt_or(sx, 1.0f32), as_f32(data[n * i + k])), y: fmul(opt_or(sy, 1.0f32), as_f32(data[n * j + k])) })
}
#[verifier::opaque]
pub open spec fn path_from(v: Seq<InkPoint>, data: Seq<i64>, d: Seq<InkDimension>, sx: Option<f32>, sy: Option<f32>) -> bool {
    exists|i: int, j: int| #[trigger] dim_at(d, gx(), i) && #[trigger] dim_at(d, gy(), j) && points_are(v, data.len() as int / d.len() as int, data, data.len() as int / d.len() as int, i, j, sx, sy)
}
pub open spec fn props_there(id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && stroke_properties_node::good(ob(s, id)) }
pub open spec fn stroke_from(v: InkStroke, d: ink_stroke_node::Data, p: stroke_properties_node::Data, sx: Option<f32>, sy: Option<f32>) -> bool {
    path_from(v.path@, d.path@, p.dimensions@, sx, sy) && v.pen_tip == p.pen_tip && v.transparency == p.transparency && v.height == p.ink_height && v.width == p.ink_width && v.color == p.color
}
pub open spec fn stroke_of(v: InkStroke, d: ink_stroke_node::Data, s: ObjectSpace, sx: Option<f32>, sy: Option<f32>) -> bool {
    props_there(d.properties, s) && exists|p: stroke_properties_node::Data| #[trigger] stroke_properties_node::data_is(p, ob(s, d.properties)) && stroke_from(v, d, p, sx, sy)
}
/// the stroke stored under an id
pub open spec fn stroke_is(v: InkStroke, id: ExGuid, s: ObjectSpace, sx: Option<f32>, sy: Option<f32>) -> bool {
    has_o(s, id) && ink_stroke_node::good(ob(s, id)) && exists|d: ink_stroke_node::Data| #[trigger] ink_stroke_node::data_is(d, ob(s, id)) && stroke_of(v, d, s, sx, sy)
}
pub open spec fn props_bad(id: ExGuid, s: ObjectSpace) -> bool {
    !props_there(id, s) || exists|p: stroke_properties_node::Data| #[trigger] stroke_properties_node::data_is(p, ob(s, id)) && (no_dim(p.dimensions@, gx()) || no_dim(p.dimensions@, gy()))
}
pub open spec fn stroke_bad(id: ExGuid, s: ObjectSpace) -> bool {
    !has_o(s, id) || !ink_stroke_node::good(ob(s, id)) || mb_all(p_vec(ob(s, id), PropertyType::InkPath).unwrap().unwrap()) is None
    || exists|d: ink_stroke_node::Data| #[trigger] ink_stroke_node::data_is(d, ob(s, id)) && props_bad(d.properties, s)
}
pub open spec fn strokes_are(v: Seq<InkStroke>, ids: Seq<ExGuid>, s: ObjectSpace, sx: Option<f32>, sy: Option<f32>) -> bool { v.len() == ids.len() && forall|i: int| 0 <= i < ids.len() ==> stroke_is(#[trigger] v[i], ids[i], s, sx, sy) }
pub open spec fn box_from(b: Option<[u32; 4]>, sx: Option<f32>, sy: Option<f32>) -> Option<InkBoundingBox> {
    match b {
        None => None,
        Some(a) => Some(InkBoundingBox {
            x: fmul(as_f32(a@[0]), opt_or(sx, 1.0f32)), y: fmul(as_f32(a@[1]), opt_or(sy, 1.0f32)),
            width: fmul(fsub(as_f32(a@[2]), as_f32(a@[0])), opt_or(sx, 1.0f32)), height: fmul(fsub(as_f32(a@[3]), as_f32(a@[1])), opt_or(sy, 1.0f32)),
        }),
    }
}
/// the strokes and the bounding box stored under an id
pub open spec fn ink_data_is(v: Seq<InkStroke>, b: Option<InkBoundingBox>, id: ExGuid, s: ObjectSpace, sx: Option<f32>, sy: Option<f32>) -> bool {
    has_o(s, id) && ink_data_node::good(ob(s, id)) && exists|d: ink_data_node::Data| #[trigger] ink_data_node::data_is(d, ob(s, id)) && strokes_are(v, d.strokes@, s, sx, sy) && b == box_from(d.bounding_box, sx, sy)
}
pub open spec fn ink_data_bad(id: ExGuid, s: ObjectSpace) -> bool {
    !has_o(s, id) || !ink_data_node::good(ob(s, id)) || exists|d: ink_data_node::Data| #[trigger] ink_data_node::data_is(d, ob(s, id)) && exists|i: int| 0 <= i < d.strokes@.len() && stroke_bad(#[trigger] d.strokes@[i], s)
}
pub open spec fn ink_from(v: Ink, d: ink_container::Data, s: ObjectSpace) -> bool {
    v.offset_horizontal == d.offset_from_parent_horiz && v.offset_vertical == d.offset_from_parent_vert
    && (match d.ink_data { None => v.ink_strokes@.len() == 0 && v.bounding_box is None, Some(i) => ink_data_is(v.ink_strokes@, v.bounding_box, i, s, d.ink_scaling_x, d.ink_scaling_y) })
}
/// the ink stored under an id
pub open spec fn ink_is(v: Ink, id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && ink_container::good(ob(s, id)) && exists|d: ink_container::Data| #[trigger] ink_container::data_is(d, ob(s, id)) && ink_from(v, d, s) }
pub open spec fn ink_bad(id: ExGuid, s: ObjectSpace) -> bool { !has_o(s, id) || !ink_container::good(ob(s, id)) || exists|d: ink_container::Data| #[trigger] ink_container::data_is(d, ob(s, id)) && (d.ink_data matches Some(i) && ink_data_bad(i, s)) }
#fn parse_ink
ensures match r { Ok(v) => ink_is(v, ink_container_id, *space), Err(_) => ink_bad(ink_container_id, *space) }
#fn parse_ink_data
#entry
    hide(stroke_bad); hide(stroke_is); hide(ink_data_node::good); hide(ink_data_node::data_is);
#spec
ensures match r { Ok((v, b)) => ink_data_is(v@, b, ink_data_id, *space, scale_x, scale_y), Err(_) => ink_data_bad(ink_data_id, *space) }
#loop 0
    invariant __src0@ == ink_data.strokes@, strokes_are(__out0@, ink_data.strokes@.take(__k0 as int), *space, scale_x, scale_y),
#fn parse_ink_stroke
#entry
    hide(mb_all); hide(ink_stroke_node::good); hide(ink_stroke_node::data_is); hide(stroke_properties_node::good); hide(stroke_properties_node::data_is);
#spec
ensures match r { Ok(v) => stroke_is(v, ink_stroke_id, *space, scale_x, scale_y), Err(_) => stroke_bad(ink_stroke_id, *space) }
#fn parse_ink_path
#entry
    let ghost __sx = scale_x; let ghost __sy = scale_y;
#after 2
    proof { assert(dimension_offset as int == data@.len() as int / props.dimensions@.len() as int); assert(points_are(__out2@, dimension_offset as int, data@, dimension_offset as int, idx_x as int, idx_y as int, __sx, __sy)); reveal(path_from); assert(dim_at(props.dimensions@, gx(), idx_x as int) && dim_at(props.dimensions@, gy(), idx_y as int)); assert(path_from(__out2@, data@, props.dimensions@, __sx, __sy)); }
#spec
ensures match r { Ok(v) => path_from(v@, data@, props.dimensions@, scale_x, scale_y), Err(_) => no_dim(props.dimensions@, gx()) || no_dim(props.dimensions@, gy()) }
#loop 0
    invariant_except_break __out0 is None, forall|j: int| 0 <= j < __k0 ==> (#[trigger] props.dimensions@[j]).id != gx()
    invariant __k0 <= __src0.len(), crate::ext::vx_refs(__src0@, props.dimensions@)
    ensures match __out0 { Some(i) => dim_at(props.dimensions@, gx(), i as int), None => no_dim(props.dimensions@, gx()) },
#loop 1
    invariant_except_break __out1 is None, forall|j: int| 0 <= j < __k1 ==> (#[trigger] props.dimensions@[j]).id != gy()
    invariant __k1 <= __src1.len(), crate::ext::vx_refs(__src1@, props.dimensions@)
    ensures match __out1 { Some(i) => dim_at(props.dimensions@, gy(), i as int), None => no_dim(props.dimensions@, gy()) },
#before let start_x =
    proof { assert(dimension_offset * props.dimensions.len() <= data.len()) by (nonlinear_arith) requires dimension_offset == data.len() / props.dimensions.len(), props.dimensions.len() > 0;
        assert(dimension_offset * idx_x + dimension_offset <= dimension_offset * props.dimensions.len()) by (nonlinear_arith) requires idx_x < props.dimensions.len();
        assert(dimension_offset * idx_y + dimension_offset <= dimension_offset * props.dimensions.len()) by (nonlinear_arith) requires idx_y < props.dimensions.len(); }
#loop 2
    invariant points_are(__out2@, __k2 as int, data@, dimension_offset as int, idx_x as int, idx_y as int, Some(scale_x), Some(scale_y)),
#fn InkBoundingBox::scale
ensures r == (InkBoundingBox { x: fmul(self.x, factor), y: fmul(self.y, factor), height: fmul(self.height, factor), width: fmul(self.width, factor) })
#fn Ink::ink_strokes
ensures r@ == self.ink_strokes@
#fn Ink::bounding_box
ensures r == self.bounding_box
#fn Ink::offset_horizontal
ensures r == self.offset_horizontal
#fn Ink::offset_vertical
ensures r == self.offset_vertical
#fn InkStroke::path
ensures r@ == self.path@
#fn InkStroke::pen_tip
ensures r == self.pen_tip
#fn InkStroke::transparency
ensures r == self.transparency
#fn InkStroke::height
ensures r == self.height
#fn InkStroke::width
ensures r == self.width
#fn InkStroke::color
ensures r == self.color
#fn InkPoint::x
ensures r == self.x
#fn InkPoint::y
ensures r == self.y
#fn InkBoundingBox::x
ensures r == self.x
#fn InkBoundingBox::y
ensures r == self.y
#fn InkBoundingBox::height
ensures r == self.height
#fn InkBoundingBox::width
ensures r == self.width
