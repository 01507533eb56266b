#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
/// a count, three bytes of padding, then so many floats
pub open spec fn indents_of(s: Seq<u8>) -> Option<Seq<f32>> { if s.len() < 4 || s.skip(4).len() < 4 * s[0] as int { None } else { Some(Seq::new(s[0] as nat, |i: int| crate::ext::f32_bits(crate::ext::le32(s.skip(4).subrange(4 * i, 4 * i + 4))))) } }
pub open spec fn p_indents(o: Object) -> Option<Option<Seq<f32>>> { match p_vec(o, PropertyType::RgOutlineIndentDistance) { None => None, Some(None) => Some(None), Some(Some(v)) => match indents_of(v) { None => None, Some(x) => Some(Some(x)) } } }
#fn OutlineIndentDistance::parse
ensures match r { Ok(v) => p_indents(*object) == Some(match v { Some(d) => Some(d.0@), None => None }), Err(_) => p_indents(*object) is None }
#entry
    let ghost __d0 = match p_vec(*object, PropertyType::RgOutlineIndentDistance) { Some(Some(v)) => v, _ => Seq::empty() };
#loop 0
    invariant __d0.len() >= 4, __end0 == __d0[0], 4 * __k0 <= __d0.skip(4).len(), reader.rem() == __d0.skip(4).skip(4 * __k0), __out0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __out0@[i] == crate::ext::f32_bits(crate::ext::le32(__d0.skip(4).subrange(4 * i, 4 * i + 4))),
#after 0
    assert(__out0@ =~= indents_of(__d0).unwrap());
#fn OutlineIndentDistance::value
ensures r@ == self.0@
#fn OutlineIndentDistance::into_value
ensures r == self.0
