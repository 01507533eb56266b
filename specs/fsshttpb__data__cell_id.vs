#prelude
use crate::fsshttpb::data::exguid::sp_exguid;
/// two extended GUIDs ([MS-FSSHTTPB] 2.2.1.10)
pub closed spec fn sp_cell(s: Seq<u8>) -> Option<(CellId, Seq<u8>)> {
    match sp_exguid(s) { None => None, Some((a, t)) => match sp_exguid(t) { None => None, Some((b, u)) => Some((CellId(a, b), u)) } }
}
pub open spec fn sp_cells(s: Seq<u8>, n: nat) -> Option<(Seq<CellId>, Seq<u8>)> decreases n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match sp_cells(s, (n - 1) as nat) { None => None, Some((v, t)) => match sp_cell(t) { None => None, Some((x, u)) => Some((v.push(x), u)) } } }
}
pub open spec fn sp_cell_arr(s: Seq<u8>) -> Option<(Seq<CellId>, Seq<u8>)> {
    ? (n, t) <- crate::fsshttpb::data::compact_u64::sp_compact(s)
    sp_cells(t, n as nat)
}
pub broadcast proof fn len_cell(s: Seq<u8>) ensures match #[trigger] sp_cell(s) { Some((_, t)) => t.len() < s.len(), None => true } { broadcast use crate::fsshttpb::data::exguid::len_exguid; }
pub broadcast proof fn len_cells(s: Seq<u8>, n: nat) ensures match #[trigger] sp_cells(s, n) { Some((v, t)) => t.len() <= s.len() && v.len() == n, None => true } decreases n
{ if n > 0 { len_cells(s, (n - 1) as nat); match sp_cells(s, (n - 1) as nat) { Some((v, t)) => len_cell(t), None => {} } } }
pub proof fn lemma_cells_mono(s: Seq<u8>, m: nat, n: nat)
    requires m <= n, sp_cells(s, m) is None
    ensures sp_cells(s, n) is None
    decreases n
{ if m < n { lemma_cells_mono(s, m, (n - 1) as nat); } }
#fn CellId::parse
ensures match r { Ok(v) => sp_cell(old(reader).rem()) == Some((v, final(reader).rem())), Err(_) => sp_cell(old(reader).rem()) is None }
#fn CellId::parse_array
@reads sp_cell_arr v@
#entry
    let ghost __s0 = reader.rem();
#loop 0
    invariant crate::fsshttpb::data::compact_u64::sp_compact(__s0) is Some, count == crate::fsshttpb::data::compact_u64::sp_compact(__s0).unwrap().0,
        sp_cells(crate::fsshttpb::data::compact_u64::sp_compact(__s0).unwrap().1, __k0 as nat) == Some((values@, reader.rem())),
#start 0
    proof { if sp_cell(reader.rem()) is None { lemma_cells_mono(crate::fsshttpb::data::compact_u64::sp_compact(__s0).unwrap().1, (__k0 + 1) as nat, count as nat); } }
