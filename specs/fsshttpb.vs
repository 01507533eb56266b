#prelude
use crate::fsshttpb::data_element::*; use crate::fsshttpb::data_element::storage_index::*; use crate::fsshttpb::data_element::storage_manifest::*; use crate::fsshttpb::data_element::cell_manifest::*; use crate::fsshttpb::data_element::revision_manifest::*; use crate::fsshttpb::data_element::object_group::*; use crate::fsshttpb::data_element::data_element_fragment::*; use crate::fsshttpb::data_element::object_data_blob::*; use crate::fsshttpb::data::compact_u64::*; use crate::fsshttpb::data::exguid::*; use crate::fsshttpb::data::serial_number::*; use crate::fsshttpb::data::stream_object::*; use crate::fsshttpb::data::object_types::ObjectType;
/// the kind and the id a data element is found under
pub open spec fn elem_key(s: Seq<u8>) -> Option<(u64, ExGuid)> {
    ? a <- start_of(sp_h16(s), ObjectType::DataElement)
    ? (id, b) <- sp_exguid(a)
    ? (_, c) <- sp_serial(b)
    ? (ty, _) <- sp_compact(c)
    Some((ty, id))
}
/// entering a body under another kind or id changes nothing for the others
pub proof fn lemma_bodies_commute(a: Seq<u8>, ta: u64, ia: ExGuid, b: Seq<u8>, tb: u64, ib: ExGuid, p: PkgV)
    requires (ta, ia) != (tb, ib)
    ensures match sp_body(a, ta, ia, p) { Some((q, ra)) => match sp_body(b, tb, ib, q) { Some((r, rb)) => sp_body(b, tb, ib, p) matches Some((q2, rb2)) && rb2 == rb && sp_body(a, ta, ia, q2) == Some((r, ra)), None => sp_body(b, tb, ib, p) is None }, None => forall|q: PkgV| #[trigger] sp_body(a, ta, ia, q) is None }
{
    hide(sp_storage_index); hide(sp_storage_manifest); hide(sp_cell_manifest); hide(sp_revision_manifest); hide(sp_object_group); hide(sp_fragment); hide(sp_object_data_blob);
    if let Some((q, _)) = sp_body(a, ta, ia, p) { if let Some((r, _)) = sp_body(b, tb, ib, q) {
        let (q2, _) = sp_body(b, tb, ib, p).unwrap(); let (r2, _) = sp_body(a, ta, ia, q2).unwrap();
        assert(r2.si =~= r.si); assert(r2.sm =~= r.sm); assert(r2.cm =~= r.cm); assert(r2.rm =~= r.rm); assert(r2.og =~= r.og); assert(r2.fr =~= r.fr); assert(r2.bl =~= r.bl);
    } }
}
/// whether a body is well-formed does not depend on what came before it
pub proof fn lemma_body_none(a: Seq<u8>, ta: u64, ia: ExGuid, p: PkgV) ensures sp_body(a, ta, ia, p) is None ==> forall|q: PkgV| #[trigger] sp_body(a, ta, ia, q) is None
{
    hide(sp_storage_index); hide(sp_storage_manifest); hide(sp_cell_manifest); hide(sp_revision_manifest); hide(sp_object_group); hide(sp_fragment); hide(sp_object_data_blob);
}
/// elements of different kinds or ids can be stored in either order
pub proof fn thm_elements_commute(a: Seq<u8>, b: Seq<u8>, p: PkgV)
    requires elem_key(a) != elem_key(b)
    ensures match sp_element(a, p) { Some((q, ra)) => match sp_element(b, q) { Some((r, rb)) => sp_element(b, p) matches Some((q2, rb2)) && rb2 == rb && sp_element(a, q2) == Some((r, ra)), None => sp_element(b, p) is None }, None => forall|q: PkgV| #[trigger] sp_element(a, q) is None }
{
    hide(sp_body);
    if elem_key(a) is None { assert(forall|q: PkgV| #[trigger] sp_element(a, q) is None); }
    if let Some((ta, ia)) = elem_key(a) {
        let (_, xa) = sp_compact(sp_serial(sp_exguid(start_of(sp_h16(a), ObjectType::DataElement).unwrap()).unwrap().1).unwrap().1).unwrap();
        assert(forall|q: PkgV| #[trigger] sp_element(a, q) == sp_body(xa, ta, ia, q)); lemma_body_none(xa, ta, ia, p);
        if sp_element(a, p) is None { assert forall|q: PkgV| #[trigger] sp_element(a, q) is None by { assert(sp_body(xa, ta, ia, p) is None); assert(sp_body(xa, ta, ia, q) is None); } }
    }
    if elem_key(b) is None { assert(forall|q: PkgV| #[trigger] sp_element(b, q) is None); }
    if let (Some((ta, ia)), Some((tb, ib))) = (elem_key(a), elem_key(b)) {
        let (_, xa) = sp_compact(sp_serial(sp_exguid(start_of(sp_h16(a), ObjectType::DataElement).unwrap()).unwrap().1).unwrap().1).unwrap();
        let (_, xb) = sp_compact(sp_serial(sp_exguid(start_of(sp_h16(b), ObjectType::DataElement).unwrap()).unwrap().1).unwrap().1).unwrap();
        lemma_bodies_commute(xa, ta, ia, xb, tb, ib, p);
        assert(forall|q: PkgV| #[trigger] sp_element(a, q) == sp_body(xa, ta, ia, q)); assert(forall|q: PkgV| #[trigger] sp_element(b, q) == sp_body(xb, tb, ib, q));
        if sp_body(xa, ta, ia, p) is Some { let q = sp_body(xa, ta, ia, p).unwrap().0; assert(sp_element(a, p) == sp_body(xa, ta, ia, p)); assert(sp_element(b, q) == sp_body(xb, tb, ib, q)); assert(sp_element(b, p) == sp_body(xb, tb, ib, p));
            if sp_body(xb, tb, ib, p) is Some { let q2 = sp_body(xb, tb, ib, p).unwrap().0; assert(sp_element(a, q2) == sp_body(xa, ta, ia, q2)); } }
    }
}
