#prelude
use crate::fsshttpb::data::compact_u64::sp_compact;
/// a length and that many bytes ([MS-FSSHTTPB] 2.2.1.3)
pub closed spec fn sp_binary(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match sp_compact(s) { None => None, Some((n, t)) => if t.len() < n { None } else { Some((t.take(n as int), t.skip(n as int))) } }
}
pub broadcast proof fn len_binary(s: Seq<u8>) ensures match #[trigger] sp_binary(s) { Some((_, t)) => t.len() < s.len(), None => true } { broadcast use crate::fsshttpb::data::compact_u64::len_compact; }
#fn BinaryItem::parse
ensures match r { Ok(v) => sp_binary(old(reader).rem()) == Some((v.0@, final(reader).rem())), Err(_) => sp_binary(old(reader).rem()) is None }
#fn BinaryItem::value
ensures r@ == self.0@
