#prelude
/// [MS-ONESTORE] 2.2.2: 8 bits n, 24 bits GUID index
pub closed spec fn cid_of(d: u32) -> CompactId { CompactId { n: (d & 0xff) as u8, guid_index: d >> 8 } }
pub open spec fn sp_cid(s: Seq<u8>) -> Option<(CompactId, Seq<u8>)> { if s.len() < 4 { None } else { Some((cid_of(crate::ext::le32(s)), s.skip(4))) } }
/// `n` compact ids one after the other
pub open spec fn sp_cids(s: Seq<u8>, n: int) -> Option<(Seq<CompactId>, Seq<u8>)> decreases n {
    if n <= 0 { Some((Seq::empty(), s)) } else {
        match sp_cids(s, n - 1) { None => None, Some((v, t)) => match sp_cid(t) { None => None, Some((x, u)) => Some((v.push(x), u)) } } }
}
pub proof fn lemma_cids_mono(s: Seq<u8>, m: int, n: int)
    requires m <= n, sp_cids(s, m) is None
    ensures sp_cids(s, n) is None
    decreases n - m
{ if m < n { lemma_cids_mono(s, m, n - 1); } }
pub broadcast proof fn len_cids(s: Seq<u8>, n: int) ensures match #[trigger] sp_cids(s, n) { Some((v, t)) => t.len() <= s.len() && v.len() == (if n < 0 { 0 } else { n }), None => true } decreases n
{ if n > 0 { len_cids(s, n - 1); } }
#fn CompactId::parse
@reads sp_cid
