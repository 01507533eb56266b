#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
/// [MS-ONE] 2.2 (ink): an id and the two bounds
pub open spec fn dim_of(s: Seq<u8>) -> InkDimension { InkDimension { id: crate::shared::guid::guid_of(s), limit_lower: crate::ext::le32(s.skip(16)) as i32, limit_upper: crate::ext::le32(s.skip(20)) as i32 } }
pub open spec fn dims_of(s: Seq<u8>) -> Seq<InkDimension> { Seq::new(s.len() / 32, |i: int| dim_of(s.subrange(32 * i, 32 * i + 32))) }
pub open spec fn p_dims(o: Object, t: PropertyType) -> Option<Seq<InkDimension>> { match p_vec(o, t) { None => None, Some(None) => Some(Seq::empty()), Some(Some(v)) => Some(dims_of(v)) } }
#fn InkDimension::parse
ensures match r { Ok(v) => p_dims(*object, prop_type) == Some(v@), Err(_) => p_dims(*object, prop_type) is None }
#loop 0
    invariant __out0@.len() == __k0, __src0@.len() == data@.len() / 32, forall|i: int| 0 <= i < __src0@.len() ==> (#[trigger] __src0@[i])@ == data@.subrange(i * 32, (i + 1) * 32), forall|i: int| 0 <= i < __k0 ==> #[trigger] __out0@[i] == dim_of(data@.subrange(32 * i, 32 * i + 32)),
#after 0
    assert(__out0@ =~= dims_of(data@));
#fn InkDimension::parse_entry
ensures match r { Ok(v) => data@.len() >= 24 && v == dim_of(data@), Err(_) => data@.len() < 24 }
