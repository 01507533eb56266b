#prelude
use crate::onestore::types::property::*;
impl PropertySet { pub closed spec fn m(&self) -> Map<u32, (usize, PropertyValue)> { self.values@ } }
pub open spec fn pids_of(s: Seq<u8>) -> Seq<PropertyId> { sp_pids(s.skip(2), crate::ext::le16(s) as int).unwrap().0 }
/// the values alone
pub open spec fn pvals(m: Map<u32, (usize, PropertyValue)>) -> Map<u32, PropertyValue> { m.map_values(|x: (usize, PropertyValue)| x.1) }
pub open spec fn seconds(s: Seq<&(usize, PropertyValue)>, r: Seq<&PropertyValue>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> *(#[trigger] r[i]) == s[i].1 }
pub proof fn lemma_pvals(s: Seq<&(usize, PropertyValue)>, r: Seq<&PropertyValue>, m: Map<u32, (usize, PropertyValue)>)
    requires crate::ext::vx_enum_values(s, m), seconds(s, r, s.len() as int)
    ensures crate::ext::vx_enum_values(r, pvals(m))
{
    let ks = choose|ks: Seq<u32>| #[trigger] crate::ext::vx_key_enum(ks, m) && ks.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == m[ks[i]]);
    assert(crate::ext::vx_key_enum(ks, pvals(m))) by { assert forall|k: u32| pvals(m).contains_key(k) <==> ks.contains(k) by { assert(m.contains_key(k) <==> ks.contains(k)); } }
    assert forall|i: int| 0 <= i < r.len() implies *(#[trigger] r[i]) == pvals(m)[ks[i]] by { assert(ks.contains(ks[i])); assert(*s[i] == m[ks[i]]); }
}
#fn PropertySet::parse
ensures match r { Ok(v) => rs_ps(old(reader).rem(), 0) == Some(final(reader).rem()) && ps_is(v, old(reader).rem(), 0), Err(_) => rs_ps(old(reader).rem(), 0) is None }
#fn PropertySet::parse_nested
ensures match r { Ok(v) => rs_ps(old(reader).rem(), depth as int) == Some(final(reader).rem()) && ps_is(v, old(reader).rem(), depth as int), Err(_) => rs_ps(old(reader).rem(), depth as int) is None }
decreases old(reader).rem().len(), 0int
#maphint 1
#entry
    let ghost __s0 = reader.rem();
    broadcast use {len_pids, len_vals, len_val};
#loop 0
    invariant __s0.len() >= 2, __end0 == crate::ext::le16(__s0), sp_pids(__s0.skip(2), __k0 as int) == Some((__out0@, reader.rem())),
#start 0
    proof { if sp_pids(__s0.skip(2), __k0 + 1) is None { lemma_pids_mono(__s0.skip(2), __k0 + 1, __end0 as int); } }
#loop 1
    invariant __s0.len() >= 2, sp_pids(__s0.skip(2), crate::ext::le16(__s0) as int) is Some, __src1@.len() == pids_of(__s0).len(), forall|i: int| 0 <= i < __src1@.len() ==> __src1@[i] == (i as usize, #[trigger] pids_of(__s0)[i]), rs_vals(__s0, __k1 as int, depth as int) == Some(reader.rem()), ps_upto(__out1@, __s0, pids_of(__s0), __k1 as int, depth as int),
#start 1
    proof { if rs_vals(__s0, __k1 + 1, depth as int) is None { lemma_vals_mono(__s0, __k1 + 1, pids_of(__s0).len() as int, depth as int); } assert(__src1@[__k1 as int] == (__k1, pids_of(__s0)[__k1 as int])); }
#fn PropertySet::get
ensures match r { Some(v) => self.m().contains_key(id.sid()) && *v == self.m()[id.sid()].1, None => !self.m().contains_key(id.sid()) }
#fn PropertySet::index
ensures r == (if self.m().contains_key(id.sid()) { Some(self.m()[id.sid()].0) } else { None })
#fn PropertySet::values -> r
ensures crate::ext::vx_enum_values(r@, pvals(self.m()))
#loop 0
    invariant crate::ext::vx_enum_values(__src0@, self.m()), seconds(__src0@, __out0@, __k0 as int),
#after 0
    proof { lemma_pvals(__src0@, __out0@, self.m()); }
#fn PropertySet::values_with_index -> r
ensures crate::ext::vx_enum_values(r@, self.m())
