#prelude
use crate::onestore::types::object_prop_set::{rs_ops, ops_is, lemma_ops_len};
broadcast use {crate::onestore::types::object_prop_set::lemma_ops_len}
use crate::onestore::types::compact_id::CompactId;
use crate::fsshttpb::data::cell_id::CellId;
use crate::onestore::mapping_table::mt_is;
/// the codes the formats define
pub proof fn pin_Partition() ensures
    Partition::Metadata.vx_disc() == 4,
    Partition::ObjectData.vx_disc() == 1,
    Partition::FileData.vx_disc() == 2,
{}
/// what an object group holds for an object in a partition
pub open spec fn gd<'a>(m: Map<(ExGuid, u64), &'a ObjectGroupData>, id: ExGuid, part: u64) -> Option<ObjectGroupData> { if m.contains_key((id, part)) { Some(*m[(id, part)]) } else { None } }
/// the cells of the object's own object space are context references, the others reference object spaces
pub open spec fn ctx_refs(cells: Seq<CellId>, space: ExGuid, n: int) -> Seq<ExGuid> decreases n { if n <= 0 { Seq::empty() } else if cells[n - 1].1 == space { ctx_refs(cells, space, n - 1).push(cells[n - 1].0) } else { ctx_refs(cells, space, n - 1) } }
pub open spec fn spc_refs(cells: Seq<CellId>, space: ExGuid, n: int) -> Seq<CellId> decreases n { if n <= 0 { Seq::empty() } else if cells[n - 1].1 != space { spc_refs(cells, space, n - 1).push(cells[n - 1]) } else { spc_refs(cells, space, n - 1) } }
pub broadcast proof fn lemma_filter_push(cells: Seq<CellId>, space: ExGuid, n: int) ensures #[trigger] ctx_refs(cells, space, n).len() + spc_refs(cells, space, n).len() == (if n < 0 { 0 } else { n }) decreases n { if n > 0 { lemma_filter_push(cells, space, n - 1); } }
use crate::ext::s_zip as zip;
pub open spec fn obj_pairs(p: ObjectPropSet, refs: Seq<ExGuid>, cells: Seq<CellId>, space: ExGuid) -> Seq<(CompactId, ExGuid)> { zip(p.object_ids@, refs) + zip(p.context_ids@, ctx_refs(cells, space, cells.len() as int)) }
pub open spec fn spc_pairs(p: ObjectPropSet, cells: Seq<CellId>, space: ExGuid) -> Seq<(CompactId, CellId)> { zip(p.object_space_ids@, spc_refs(cells, space, cells.len() as int)) }
/// the reference arrays of an object fit its id streams
pub open spec fn sizes_ok(p: ObjectPropSet, refs: Seq<ExGuid>, cells: Seq<CellId>) -> bool { p.object_ids@.len() >= refs.len() && p.context_ids@.len() + p.object_space_ids@.len() == cells.len() }
/// the type of an object
pub open spec fn jcid_of(m: Map<(ExGuid, u64), &ObjectGroupData>, id: ExGuid) -> Option<JcId> { match gd(m, id, 4) { Some(ObjectGroupData::Object { data, .. }) => if data@.len() < 4 { None } else { Some(JcId(crate::ext::le32(data@))) }, _ => None } }
/// the file data of an object: none, or a blob, which has to be there
pub open spec fn blob_of(m: Map<(ExGuid, u64), &ObjectGroupData>, id: ExGuid, k: OneStorePackaging) -> Option<Option<Seq<u8>>> {
    match gd(m, id, 2) { None => Some(None), Some(ObjectGroupData::BlobReference { blob, .. }) => if k.data_element_package.object_data_blobs@.contains_key(blob) { Some(Some(k.data_element_package.object_data_blobs@[blob].v())) } else { None }, _ => None }
}
/// `o` is the object `id` of a group ([MS-ONESTORE] 2.7.6)
pub open spec fn obj_is(o: Object, id: ExGuid, ctx: ExGuid, space: ExGuid, m: Map<(ExGuid, u64), &ObjectGroupData>, k: OneStorePackaging) -> bool {
    &&& o.context_id == ctx
    &&& jcid_of(m, id) == Some(o.jc_id)
    &&& gd(m, id, 1) matches Some(ObjectGroupData::Object { group, cells, data }) && ops_is(o.props, data@) && sizes_ok(o.props, group@, cells@) && mt_is(o.mapping, obj_pairs(o.props, group@, cells@, space), spc_pairs(o.props, cells@, space))
    &&& blob_of(m, id, k) matches Some(b) && (match o.file_data { Some(d) => b == Some(d@), None => b is None })
}
pub open spec fn obj_bad(id: ExGuid, m: Map<(ExGuid, u64), &ObjectGroupData>, k: OneStorePackaging) -> bool {
    ||| jcid_of(m, id) is None
    ||| blob_of(m, id, k) is None
    ||| !(gd(m, id, 1) is Some && gd(m, id, 1).unwrap() is Object)
    ||| gd(m, id, 1) matches Some(ObjectGroupData::Object { group, cells, data }) && (rs_ops(data@) is None || exists|p: ObjectPropSet| #[trigger] ops_is(p, data@) && !sizes_ok(p, group@, cells@))
}
/// two objects that no reader can tell apart
pub open spec fn same_object(a: Object, b: Object) -> bool {
    &&& a.jc_id == b.jc_id && a.context_id == b.context_id && (match a.file_data { Some(x) => b.file_data matches Some(y) && x@ == y@, None => b.file_data is None })
    &&& a.props.object_ids@ == b.props.object_ids@ && a.props.object_space_ids@ == b.props.object_space_ids@ && a.props.context_ids@ == b.props.context_ids@
    &&& forall|n: nat| crate::onestore::types::property::same_set(a.props.properties, b.props.properties, n)
    &&& a.mapping.obj_off() == b.mapping.obj_off() && a.mapping.spc_off() == b.mapping.spc_off()
    &&& forall|c: CompactId| #[trigger] a.mapping.obj(c) == b.mapping.obj(c)
    &&& forall|c: CompactId| #[trigger] a.mapping.spc(c) == b.mapping.spc(c)
}
/// an object is determined by what is stored for it
pub proof fn thm_object_unique(a: Object, b: Object, id: ExGuid, ctx: ExGuid, space: ExGuid, m: Map<(ExGuid, u64), &ObjectGroupData>, k: OneStorePackaging) requires obj_is(a, id, ctx, space, m, k), obj_is(b, id, ctx, space, m, k) ensures same_object(a, b)
{
    if let Some(ObjectGroupData::Object { group, cells, data }) = gd(m, id, 1) {
        let t = crate::onestore::types::object_prop_set::sp_streams(data@).unwrap().1;
        assert forall|n: nat| crate::onestore::types::property::same_set(a.props.properties, b.props.properties, n) by { crate::onestore::types::property::thm_set_unique(a.props.properties, b.props.properties, t, 0, n); }
        assert forall|c: CompactId| #[trigger] a.mapping.obj(c) == b.mapping.obj(c) by { assert(b.mapping.obj(c) == b.mapping.obj(c)); }
        assert forall|c: CompactId| #[trigger] a.mapping.spc(c) == b.mapping.spc(c) by { assert(b.mapping.spc(c) == b.mapping.spc(c)); }
    }
}
#fn Object::id
ensures r == self.jc_id
#fn Object::context_id
ensures r == self.context_id
#fn Object::props
ensures *r == self.props
#fn Object::file_data
ensures match r { Some(x) => self.file_data is Some && x@ == self.file_data.unwrap()@, None => self.file_data is None }
#fn Object::mapping
ensures *r == self.mapping
#fn Object::find_object
ensures match r { Some(x) => gd(objects@, id, partition_id.vx_disc() as u64) == Some(*x), None => gd(objects@, id, partition_id.vx_disc() as u64) is None }
#fn Object::find_blob_id
ensures match r { Ok(None) => gd(objects@, id, 2) is None, Ok(Some(b)) => gd(objects@, id, 2) matches Some(ObjectGroupData::BlobReference { blob, .. }) && b == blob, Err(_) => gd(objects@, id, 2) is Some && !(gd(objects@, id, 2).unwrap() is BlobReference) }
#fn Object::parse
ensures match r { Ok(o) => obj_is(o, object_id, context_id, object_space_id, objects@, *packaging), Err(_) => obj_bad(object_id, objects@, *packaging) }
#entry
    broadcast use lemma_filter_push;
#loop 0
    invariant crate::ext::vx_refs(__src0@, referenced_cells@), __out0@ == ctx_refs(referenced_cells@, object_space_id, __k0 as int),
#start 0
    assert(*__src0@[__k0 as int] == referenced_cells@[__k0 as int]);
#loop 1
    invariant crate::ext::vx_refs(__src1@, referenced_cells@), __out1@ == spc_refs(referenced_cells@, object_space_id, __k1 as int),
#start 1
    assert(*__src1@[__k1 as int] == referenced_cells@[__k1 as int]);
