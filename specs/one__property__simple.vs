#prelude
use crate::onestore::types::property::PropertyValue;
/// what an object says about a property: None = it has a value of another type, Some(None) = nothing
pub open spec fn p_bool(o: Object, t: PropertyType) -> Option<Option<bool>> { match o.props.pv(t) { None => Some(None), Some(PropertyValue::Bool(v)) => Some(Some(v)), _ => None } }
pub open spec fn p_u8(o: Object, t: PropertyType) -> Option<Option<u8>> { match o.props.pv(t) { None => Some(None), Some(PropertyValue::U8(v)) => Some(Some(v)), _ => None } }
pub open spec fn p_u16(o: Object, t: PropertyType) -> Option<Option<u16>> { match o.props.pv(t) { None => Some(None), Some(PropertyValue::U16(v)) => Some(Some(v)), _ => None } }
pub open spec fn p_u32(o: Object, t: PropertyType) -> Option<Option<u32>> { match o.props.pv(t) { None => Some(None), Some(PropertyValue::U32(v)) => Some(Some(v)), _ => None } }
pub open spec fn p_u64(o: Object, t: PropertyType) -> Option<Option<u64>> { match o.props.pv(t) { None => Some(None), Some(PropertyValue::U64(v)) => Some(Some(v)), _ => None } }
pub open spec fn p_f32(o: Object, t: PropertyType) -> Option<Option<f32>> { match p_u32(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => Some(Some(crate::ext::f32_bits(v))) } }
pub open spec fn p_vec(o: Object, t: PropertyType) -> Option<Option<Seq<u8>>> { match o.props.pv(t) { None => Some(None), Some(PropertyValue::Vec(v)) => Some(Some(v@)), _ => None } }
pub open spec fn p_u16s(o: Object, t: PropertyType) -> Option<Option<Seq<u16>>> { match p_vec(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => Some(Some(crate::ext::u16s(v))) } }
pub open spec fn p_u32s(o: Object, t: PropertyType) -> Option<Option<Seq<u32>>> { match p_vec(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => Some(Some(crate::ext::u32s(v))) } }
pub open spec fn p_ascii(o: Object, t: PropertyType) -> Option<Option<Seq<char>>> { match p_vec(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => Some(Some(crate::ext::latin1(v))) } }
/// UTF-16, up to the first NUL
pub open spec fn p_string(o: Object, t: PropertyType) -> Option<Option<Seq<char>>> {
    match p_vec(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match crate::ext::utf16(crate::ext::upto_nul(crate::ext::u16s(v))) { None => None, Some(x) => Some(Some(x)) } }
}
pub open spec fn p_guid(o: Object, t: PropertyType) -> Option<Option<Guid>> {
    match p_vec(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match crate::shared::guid::sp_guid(v) { None => None, Some((g, _)) => Some(Some(g)) } }
}
#fn parse_bool
ensures match r { Ok(v) => p_bool(*object, prop_type) == Some(v), Err(_) => p_bool(*object, prop_type) is None }
#fn parse_u8
ensures match r { Ok(v) => p_u8(*object, prop_type) == Some(v), Err(_) => p_u8(*object, prop_type) is None }
#fn parse_u16
ensures match r { Ok(v) => p_u16(*object, prop_type) == Some(v), Err(_) => p_u16(*object, prop_type) is None }
#fn parse_u32
ensures match r { Ok(v) => p_u32(*object, prop_type) == Some(v), Err(_) => p_u32(*object, prop_type) is None }
#fn parse_f32
ensures match r { Ok(v) => p_f32(*object, prop_type) == Some(v), Err(_) => p_f32(*object, prop_type) is None }
#fn parse_vec
ensures match r { Ok(v) => p_vec(*object, prop_type) == Some(crate::ext::ov(v)), Err(_) => p_vec(*object, prop_type) is None }
#fn parse_vec_u16
ensures match r { Ok(v) => p_u16s(*object, prop_type) == Some(crate::ext::ov(v)), Err(_) => p_u16s(*object, prop_type) is None }
#loop 0
    invariant __out0@.len() == __k0, __src0@.len() == data@.len() / 2, forall|i: int| 0 <= i < __src0@.len() ==> (#[trigger] __src0@[i])@ == data@.subrange(i * 2, (i + 1) * 2), forall|i: int| 0 <= i < __k0 ==> #[trigger] __out0@[i] == crate::ext::le16(data@.subrange(2 * i, 2 * i + 2)),
#after 0
    assert(__out0@ =~= crate::ext::u16s(data@));
#fn parse_vec_u32
ensures match r { Ok(v) => p_u32s(*object, prop_type) == Some(crate::ext::ov(v)), Err(_) => p_u32s(*object, prop_type) is None }
#loop 0
    invariant __out0@.len() == __k0, __src0@.len() == data@.len() / 4, forall|i: int| 0 <= i < __src0@.len() ==> (#[trigger] __src0@[i])@ == data@.subrange(i * 4, (i + 1) * 4), forall|i: int| 0 <= i < __k0 ==> #[trigger] __out0@[i] == crate::ext::le32(data@.subrange(4 * i, 4 * i + 4)),
#after 0
    assert(__out0@ =~= crate::ext::u32s(data@));
#fn parse_ascii
ensures match r { Ok(v) => p_ascii(*object, prop_type) == Some(crate::ext::os(v)), Err(_) => p_ascii(*object, prop_type) is None }
#fn parse_string
ensures match r { Ok(v) => p_string(*object, prop_type) == Some(crate::ext::os(v)), Err(_) => p_string(*object, prop_type) is None }
#fn parse_guid
ensures match r { Ok(v) => p_guid(*object, prop_type) == Some(v), Err(_) => p_guid(*object, prop_type) is None }
