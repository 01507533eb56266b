#prelude
use crate::onestore::types::compact_id::{sp_cid, sp_cids, lemma_cids_mono, len_cids};
use crate::onestore::types::object_stream_header::sp_osh;
use crate::onestore::types::property::{rs_ps, ps_is};
impl ObjectPropSet {
    /// the value of a property
    pub open spec fn pv(&self, t: PropertyType) -> Option<PropertyValue> { let k = crate::onestore::types::property::sid_of(t); if self.properties.m().contains_key(k) { Some(self.properties.m()[k].1) } else { None } }
}
/// a stream header and its ids
pub open spec fn sp_stream(s: Seq<u8>) -> Option<((ObjectStreamHeader, Seq<CompactId>), Seq<u8>)> {
    ? (h, t) <- sp_osh(s)
    ? (v, u) <- sp_cids(t, h.count as int)
    Some(((h, v), u))
}
/// the three id streams ([MS-ONESTORE] 2.1.1): the second is absent when the first header says so, the third is there when the second header says so
pub open spec fn sp_streams(s: Seq<u8>) -> Option<((Seq<CompactId>, Seq<CompactId>, Seq<CompactId>), Seq<u8>)> {
    ? ((h1, o), t) <- sp_stream(s)
    if h1.osid_stream_not_present { Some(((o, Seq::empty(), Seq::empty()), t)) } else {
        match sp_stream(t) { None => None, Some(((h2, os), u)) =>
            if !h2.extended_streams_present { Some(((o, os, Seq::empty()), u)) } else {
                match sp_stream(u) { None => None, Some(((_, c), w)) => Some(((o, os, c), w)) } } } }
}
/// `v` are the properties of an object encoded at the start of `s`
pub open spec fn ops_is(v: ObjectPropSet, s: Seq<u8>) -> bool {
    match sp_streams(s) { None => false, Some(((o, os, c), t)) => v.object_ids@ == o && v.object_space_ids@ == os && v.context_ids@ == c && rs_ps(t, 0) is Some && ps_is(v.properties, t, 0) }
}
pub broadcast proof fn lemma_ops_len(v: ObjectPropSet, s: Seq<u8>) ensures #[trigger] ops_is(v, s) ==> v.object_ids@.len() <= u32::MAX && v.object_space_ids@.len() <= u32::MAX && v.context_ids@.len() <= u32::MAX
{ broadcast use len_cids; }
pub open spec fn rs_ops(s: Seq<u8>) -> Option<Seq<u8>> { match sp_streams(s) { None => None, Some((_, t)) => rs_ps(t, 0) } }
#fn ObjectPropSet::parse
ensures match r { Ok(v) => rs_ops(old(reader).rem()) == Some(final(reader).rem()) && ops_is(v, old(reader).rem()), Err(_) => rs_ops(old(reader).rem()) is None }
#entry
    let ghost __s0 = reader.rem();
#loop 0
    invariant sp_osh(__s0) is Some, __end0 == sp_osh(__s0).unwrap().0.count, sp_cids(sp_osh(__s0).unwrap().1, __k0 as int) == Some((__out0@, reader.rem())),
#start 0
    proof { if sp_cids(sp_osh(__s0).unwrap().1, __k0 + 1) is None { lemma_cids_mono(sp_osh(__s0).unwrap().1, __k0 + 1, __end0 as int); } }
#loop 1
    invariant sp_stream(__s0) is Some, sp_osh(sp_stream(__s0).unwrap().1) is Some, __end1 == sp_osh(sp_stream(__s0).unwrap().1).unwrap().0.count, sp_cids(sp_osh(sp_stream(__s0).unwrap().1).unwrap().1, __k1 as int) == Some((__out1@, reader.rem())),
#start 1
    proof { if sp_cids(sp_osh(sp_stream(__s0).unwrap().1).unwrap().1, __k1 + 1) is None { lemma_cids_mono(sp_osh(sp_stream(__s0).unwrap().1).unwrap().1, __k1 + 1, __end1 as int); } }
#loop 2
    invariant sp_stream(__s0) is Some, sp_stream(sp_stream(__s0).unwrap().1) is Some, sp_osh(sp_stream(sp_stream(__s0).unwrap().1).unwrap().1) is Some, __end2 == sp_osh(sp_stream(sp_stream(__s0).unwrap().1).unwrap().1).unwrap().0.count, sp_cids(sp_osh(sp_stream(sp_stream(__s0).unwrap().1).unwrap().1).unwrap().1, __k2 as int) == Some((__out2@, reader.rem())),
#start 2
    proof { let __t2 = sp_stream(sp_stream(__s0).unwrap().1).unwrap().1; if sp_cids(sp_osh(__t2).unwrap().1, __k2 + 1) is None { lemma_cids_mono(sp_osh(__t2).unwrap().1, __k2 + 1, __end2 as int); } }
#fn ObjectPropSet::object_ids
ensures r@ == self.object_ids@
#fn ObjectPropSet::object_space_ids
ensures r@ == self.object_space_ids@
#fn ObjectPropSet::context_ids
ensures r@ == self.context_ids@
#fn ObjectPropSet::properties
ensures *r == self.properties
#fn ObjectPropSet::get
ensures match r { Some(v) => self.pv(prop_type) == Some(*v), None => self.pv(prop_type) is None }
