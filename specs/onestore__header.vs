#prelude
use crate::onestore::types::object_prop_set::{rs_ops, ops_is};
use crate::shared::guid::sp_guid;
pub open spec fn pv_guid(v: Option<PropertyValue>) -> Option<Guid> { match v { Some(PropertyValue::Vec(d)) => match sp_guid(d@) { Some((g, _)) => Some(g), None => None }, _ => None } }
pub open spec fn pv_u32(v: Option<PropertyValue>) -> Option<u32> { match v { Some(PropertyValue::U32(x)) => Some(x), _ => None } }
pub open spec fn hdr_ok(p: ObjectPropSet) -> bool {
    pv_guid(p.pv(PropertyType::FileIdentityGuid)) is Some && pv_guid(p.pv(PropertyType::FileAncestorIdentityGuid)) is Some && pv_u32(p.pv(PropertyType::FileNameCrc)) is Some
    && (p.pv(PropertyType::FileLastCodeVersionThatWroteToIt) is None || pv_u32(p.pv(PropertyType::FileLastCodeVersionThatWroteToIt)) is Some)
}
/// the data of the first object of the data partition
pub open spec fn hdr_data(g: ObjectGroup, n: int) -> Option<ObjectGroupData> decreases n {
    if n <= 0 { None } else { match hdr_data(g, n - 1) { Some(x) => Some(x), None => if g.declarations@[n - 1].part() == 1 { Some(g.objects@[n - 1]) } else { None } } }
}
pub open spec fn both(g: ObjectGroup) -> int { crate::ext::vx_min(g.declarations@.len() as int, g.objects@.len() as int) }
impl StoreHeader {
    pub closed spec fn is(&self, p: ObjectPropSet) -> bool {
        Some(self.file_identity) == pv_guid(p.pv(PropertyType::FileIdentityGuid)) && Some(self.ancestor_identity) == pv_guid(p.pv(PropertyType::FileAncestorIdentityGuid))
        && Some(self.file_name_crc) == pv_u32(p.pv(PropertyType::FileNameCrc)) && self.last_code_version_that_wrote_to_it == pv_u32(p.pv(PropertyType::FileLastCodeVersionThatWroteToIt))
    }
}
/// [MS-ONESTORE] 2.7.2
pub open spec fn header_read(g: ObjectGroup, h: StoreHeader) -> bool { hdr_data(g, both(g)) matches Some(ObjectGroupData::Object { data, .. }) && exists|p: ObjectPropSet| #[trigger] ops_is(p, data@) && hdr_ok(p) && h.is(p) }
pub open spec fn header_bad(g: ObjectGroup) -> bool { match hdr_data(g, both(g)) { Some(ObjectGroupData::Object { data, .. }) => rs_ops(data@) is None || exists|p: ObjectPropSet| #[trigger] ops_is(p, data@) && !hdr_ok(p), _ => true } }
pub proof fn lemma_hdr_none(g: ObjectGroup, n: int) ensures hdr_data(g, n) is None ==> forall|j: int| 0 <= j < n ==> (#[trigger] g.declarations@[j]).part() != 1 decreases n { if n > 0 { lemma_hdr_none(g, n - 1); } }
pub proof fn lemma_hdr_first(g: ObjectGroup, i: int, n: int)
    requires 0 <= i < n, g.declarations@[i].part() == 1, forall|j: int| 0 <= j < i ==> (#[trigger] g.declarations@[j]).part() != 1
    ensures hdr_data(g, n) == Some(g.objects@[i]) decreases n
{ if n - 1 > i { lemma_hdr_first(g, i, n - 1); } else { lemma_hdr_skip(g, i); } }
pub proof fn lemma_hdr_skip(g: ObjectGroup, n: int) requires forall|j: int| 0 <= j < n ==> (#[trigger] g.declarations@[j]).part() != 1 ensures hdr_data(g, n) is None decreases n { if n > 0 { lemma_hdr_skip(g, n - 1); } }
#fn StoreHeader::parse
ensures match r { Ok(h) => header_read(*data, h), Err(_) => header_bad(*data) }
#find 0 x: x.0.part() == 1
#after 0
    proof { match __out0 { Some(x) => { let i = choose|i: int| 0 <= i < __src0@.len() && #[trigger] __src0@[i] == x && __src0@[i].0.part() == 1 && (forall|j: int| 0 <= j < i ==> __src0@[j].0.part() != 1);
            assert forall|j: int| 0 <= j < i implies (#[trigger] data.declarations@[j]).part() != 1 by { assert(__src0@[j].0.part() != 1); } lemma_hdr_first(*data, i, __src0@.len() as int); }
        None => { assert forall|j: int| 0 <= j < __src0@.len() implies (#[trigger] data.declarations@[j]).part() != 1 by { assert(__src0@[j].0.part() != 1); } lemma_hdr_skip(*data, __src0@.len() as int); } } }
#fn StoreHeader::parse_guid
ensures match r { Ok(g) => pv_guid(Some(*value)) == Some(g), Err(_) => pv_guid(Some(*value)) is None }
#fn StoreHeader::parse_u32
ensures match r { Ok(g) => pv_u32(Some(*value)) == Some(g), Err(_) => pv_u32(Some(*value)) is None }
