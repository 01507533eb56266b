#prelude
use crate::onestore::types::prop_set::*;
impl PropertyId {
    pub closed spec fn raw(&self) -> u32 { self.0 }
    pub open spec fn sid(&self) -> u32 { self.raw() & 0x3ffffff }
    pub open spec fn sty(&self) -> u32 { (self.raw() >> 26) & 0x1f }
    pub open spec fn sbool(&self) -> bool { self.raw() >> 31 == 1 }
}
/// the key of a property type in a property set: the low 26 bits of its id
pub open spec fn sid_of(t: crate::one::property::PropertyType) -> u32 { pid_of(t.vx_disc() as u32).sid() }
pub closed spec fn pid_of(raw: u32) -> PropertyId { PropertyId(raw) }
pub broadcast proof fn pid_raw(raw: u32) ensures (#[trigger] pid_of(raw)).raw() == raw {}
pub broadcast proof fn pid_ext(p: PropertyId) ensures pid_of(#[trigger] p.raw()) == p {}
pub open spec fn sp_pid(s: Seq<u8>) -> Option<(PropertyId, Seq<u8>)> { if s.len() < 4 { None } else { Some((pid_of(crate::ext::le32(s)), s.skip(4))) } }
/// how many bytes a value of the given type takes when that does not depend on the bytes: 1 u8, 2 u16, 4 u32 and the id counts, 8 u64
pub open spec fn fixed(ty: u32) -> Option<int> {
    if ty == 1 || ty == 2 || ty == 8 || ty == 10 || ty == 12 { Some(0) } else if ty == 3 { Some(1) } else if ty == 4 { Some(2) }
    else if ty == 5 || ty == 9 || ty == 11 || ty == 13 { Some(4) } else if ty == 6 { Some(8) } else { None }
}
/// the bytes left after the value of property `id` at the start of `s` ([MS-ONESTORE] 2.6.6), in a property set nested `d` deep; None: not a value
pub open spec fn rs_val(id: PropertyId, s: Seq<u8>, d: int) -> Option<Seq<u8>> decreases s.len(), 2int, 0int {
    match fixed(id.sty()) {
        Some(n) => if s.len() < n { None } else { Some(if n == 0 { s } else { s.skip(n) }) },
        None =>
            if id.sty() == 7 { rs_vec(s) }
            else if id.sty() == 0x10 { rs_pvs(s, d) }
            else if id.sty() == 0x11 { rs_ps(s, d + 1) }
            else { None }
    }
}
/// ... after a byte count and that many bytes
pub open spec fn rs_vec(s: Seq<u8>) -> Option<Seq<u8>> { if s.len() < 4 || s.len() - 4 < crate::ext::le32(s) { None } else { Some(s.skip(4).skip(crate::ext::le32(s) as int)) } }
/// ... after a count, a property id and that many property sets
pub open spec fn rs_pvs(s: Seq<u8>, d: int) -> Option<Seq<u8>> decreases s.len(), 1int, 0int { if s.len() < 8 { None } else { rs_sets(s.skip(4).skip(4), crate::ext::le32(s) as int, d + 1) } }
/// ... after `n` property sets
pub open spec fn rs_sets(s: Seq<u8>, n: int, d: int) -> Option<Seq<u8>> decreases s.len(), 3int, n {
    if n <= 0 { Some(s) } else { match rs_sets(s, n - 1, d) { None => None, Some(t) => if t.len() <= s.len() { rs_ps(t, d) } else { None } } }
}
/// ... after a property set ([MS-ONESTORE] 2.6.7): a count, that many ids, and the values in the same order; sets nested more than 64 deep are refused
pub open spec fn rs_ps(s: Seq<u8>, d: int) -> Option<Seq<u8>> decreases s.len(), 1int, 0int {
    if s.len() < 2 || d > 64 { None } else { rs_vals(s, crate::ext::le16(s) as int, d) }
}
/// ... after the first `i` values of the property set at the start of `s`
pub open spec fn rs_vals(s: Seq<u8>, i: int, d: int) -> Option<Seq<u8>> decreases s.len(), 0int, i {
    if s.len() < 2 { None } else {
        match sp_pids(s.skip(2), crate::ext::le16(s) as int) { None => None, Some((ids, body)) =>
            if i <= 0 { Some(body) } else if i > ids.len() { None } else { match rs_vals(s, i - 1, d) { None => None, Some(t) => if t.len() < s.len() { rs_val(ids[i - 1], t, d) } else { None } } } } }
}
pub open spec fn sp_pids(s: Seq<u8>, n: int) -> Option<(Seq<PropertyId>, Seq<u8>)> decreases n {
    if n <= 0 { Some((Seq::empty(), s)) } else {
        match sp_pids(s, n - 1) { None => None, Some((v, t)) => match sp_pid(t) { None => None, Some((x, u)) => Some((v.push(x), u)) } } }
}
pub proof fn lemma_pids_mono(s: Seq<u8>, m: int, n: int)
    requires m <= n, sp_pids(s, m) is None
    ensures sp_pids(s, n) is None
    decreases n - m
{ if m < n { lemma_pids_mono(s, m, n - 1); } }
pub broadcast proof fn len_pids(s: Seq<u8>, n: int) ensures match #[trigger] sp_pids(s, n) { Some((v, t)) => t.len() <= s.len() && v.len() == (if n < 0 { 0 } else { n }), None => true } decreases n
{ if n > 0 { len_pids(s, n - 1); } }
/// nothing is read twice: the bytes left are never more than there were
pub broadcast proof fn len_val(id: PropertyId, s: Seq<u8>, d: int) ensures match #[trigger] rs_val(id, s, d) { Some(t) => t.len() <= s.len(), None => true } decreases s.len(), 2int, 0int
{ if fixed(id.sty()) is None { if id.sty() == 0x10 { len_pvs(s, d); } else if id.sty() == 0x11 { len_ps(s, d + 1); } } }
pub broadcast proof fn len_pvs(s: Seq<u8>, d: int) ensures match #[trigger] rs_pvs(s, d) { Some(t) => t.len() < s.len(), None => true } decreases s.len(), 1int, 0int
{ if s.len() >= 8 { len_sets(s.skip(4).skip(4), crate::ext::le32(s) as int, d + 1); } }
pub broadcast proof fn len_sets(s: Seq<u8>, n: int, d: int) ensures match #[trigger] rs_sets(s, n, d) { Some(t) => t.len() <= s.len(), None => true } decreases s.len(), 3int, n
{ if n > 0 { len_sets(s, n - 1, d); match rs_sets(s, n - 1, d) { Some(t) => len_ps(t, d), None => {} } } }
pub broadcast proof fn len_ps(s: Seq<u8>, d: int) ensures match #[trigger] rs_ps(s, d) { Some(t) => t.len() < s.len(), None => true } decreases s.len(), 1int, 0int
{ if s.len() >= 2 { len_vals(s, crate::ext::le16(s) as int, d); } }
pub broadcast proof fn len_vals(s: Seq<u8>, i: int, d: int) ensures match #[trigger] rs_vals(s, i, d) { Some(t) => t.len() < s.len(), None => true } decreases s.len(), 0int, i
{
    if s.len() >= 2 { len_pids(s.skip(2), crate::ext::le16(s) as int);
        match sp_pids(s.skip(2), crate::ext::le16(s) as int) { None => {}, Some((ids, body)) => if i > 0 && i <= ids.len() { len_vals(s, i - 1, d); match rs_vals(s, i - 1, d) { None => {}, Some(t) => { len_val(ids[i - 1], t, d); } } } } }
}
pub proof fn lemma_vals_mono(s: Seq<u8>, m: int, n: int, d: int)
    requires m <= n, rs_vals(s, m, d) is None
    ensures rs_vals(s, n, d) is None
    decreases n - m
{ if m < n { lemma_vals_mono(s, m, n - 1, d); } }
pub proof fn lemma_sets_mono(s: Seq<u8>, m: int, n: int, d: int)
    requires m <= n, rs_sets(s, m, d) is None
    ensures rs_sets(s, n, d) is None
    decreases n - m
{ if m < n { lemma_sets_mono(s, m, n - 1, d); } }
/// `v` is the value of property `id` encoded at the start of `s`
pub open spec fn val_is(v: PropertyValue, id: PropertyId, s: Seq<u8>, d: int) -> bool decreases s.len(), 6int {
    let ty = id.sty();
    if ty == 1 { v is Empty }
    else if ty == 2 { v == PropertyValue::Bool(id.sbool()) }
    else if ty == 3 { v == PropertyValue::U8(s[0]) }
    else if ty == 4 { v == PropertyValue::U16(crate::ext::le16(s)) }
    else if ty == 5 { v == PropertyValue::U32(crate::ext::le32(s)) }
    else if ty == 6 { v == PropertyValue::U64(crate::ext::le64(s)) }
    else if ty == 7 { vec_is(v, s) }
    else if ty == 8 { v is ObjectId }
    else if ty == 9 { v == PropertyValue::ObjectIds(crate::ext::le32(s)) }
    else if ty == 10 { v is ObjectSpaceId }
    else if ty == 11 { v == PropertyValue::ObjectSpaceIds(crate::ext::le32(s)) }
    else if ty == 12 { v is ContextId }
    else if ty == 13 { v == PropertyValue::ContextIds(crate::ext::le32(s)) }
    else if ty == 0x10 { pvs_is(v, s, d) }
    else if ty == 0x11 { match v { PropertyValue::PropertySet(p) => ps_is(p, s, d + 1), _ => false } }
    else { false }
}
pub open spec fn vec_is(v: PropertyValue, s: Seq<u8>) -> bool { match v { PropertyValue::Vec(d) => d@ == s.skip(4).take(crate::ext::le32(s) as int), _ => false } }
pub open spec fn pvs_is(v: PropertyValue, s: Seq<u8>, d: int) -> bool decreases s.len(), 5int {
    match v { PropertyValue::PropertyValues(p, sets) => s.len() >= 8 && p == pid_of(crate::ext::le32(s.skip(4))) && sets@.len() == crate::ext::le32(s)
        && (forall|i: int| 0 <= i < sets@.len() ==> set_at(#[trigger] sets@[i], s.skip(4).skip(4), i, d + 1)), _ => false }
}
/// `p` is the `i`th of the property sets at the start of `s`
pub open spec fn set_at(p: PropertySet, s: Seq<u8>, i: int, d: int) -> bool decreases s.len(), 4int {
    match rs_sets(s, i, d) { Some(t) => t.len() <= s.len() && ps_is(p, t, d), None => false }
}
/// `p` is the property set at the start of `s`: it has exactly the ids listed there, each with its (last) position and the value encoded at that position
pub open spec fn ps_is(p: PropertySet, s: Seq<u8>, d: int) -> bool decreases s.len(), 3int {
    s.len() >= 2 && match sp_pids(s.skip(2), crate::ext::le16(s) as int) { None => false, Some((ids, _)) => ps_upto(p.m(), s, ids, ids.len() as int, d) }
}
/// the same for a map and the first `n` values
pub open spec fn ps_upto(m: Map<u32, (usize, PropertyValue)>, s: Seq<u8>, ids: Seq<PropertyId>, n: int, d: int) -> bool decreases s.len(), 2int {
    (forall|k: u32| m.contains_key(k) ==> 0 <= (#[trigger] m[k]).0 < n && ids[m[k].0 as int].sid() == k)
    && (forall|k: u32, j: int| m.contains_key(k) && #[trigger] m[k] == m[k] && m[k].0 < j < n ==> (#[trigger] ids[j]).sid() != k)
    && (forall|j: int| 0 <= j < n ==> m.contains_key((#[trigger] ids[j]).sid()))
    && (forall|k: u32| m.contains_key(k) ==> val_at(#[trigger] m[k], s, ids, d))
}
pub open spec fn val_at(iv: (usize, PropertyValue), s: Seq<u8>, ids: Seq<PropertyId>, d: int) -> bool decreases s.len(), 1int {
    match rs_vals(s, iv.0 as int, d) { Some(t) => t.len() < s.len() && val_is(iv.1, ids[iv.0 as int], t, d), None => false }
}
/// two property sets with the same properties, at the same positions, and the same values; the contents of nested sets down to `n` levels
pub open spec fn same_set(a: PropertySet, b: PropertySet, n: nat) -> bool decreases n, 0int {
    (forall|k: u32| #[trigger] a.m().contains_key(k) <==> b.m().contains_key(k)) && (forall|k: u32| #[trigger] a.m().contains_key(k) ==> a.m()[k].0 == b.m()[k].0 && (n == 0 || same_val(a.m()[k].1, b.m()[k].1, (n - 1) as nat)))
}
pub open spec fn same_val(a: PropertyValue, b: PropertyValue, n: nat) -> bool decreases n, 1int {
    match a {
        PropertyValue::Vec(x) => b matches PropertyValue::Vec(y) && x@ == y@,
        PropertyValue::PropertyValues(i, x) => b matches PropertyValue::PropertyValues(j, y) && i == j && x@.len() == y@.len() && (forall|k: int| 0 <= k < x@.len() ==> same_set(#[trigger] x@[k], y@[k], n)),
        PropertyValue::PropertySet(x) => b matches PropertyValue::PropertySet(y) && same_set(x, y, n),
        _ => a == b,
    }
}
/// what a property set decodes to is determined by its bytes
pub proof fn thm_set_unique(a: PropertySet, b: PropertySet, s: Seq<u8>, d: int, n: nat) requires ps_is(a, s, d), ps_is(b, s, d) ensures same_set(a, b, n) decreases n, 0int
{
    let ids = sp_pids(s.skip(2), crate::ext::le16(s) as int).unwrap().0;
    assert forall|k: u32| #[trigger] a.m().contains_key(k) <==> b.m().contains_key(k) by { if a.m().contains_key(k) { assert(ids[a.m()[k].0 as int].sid() == k); } if b.m().contains_key(k) { assert(ids[b.m()[k].0 as int].sid() == k); } }
    assert forall|k: u32| #[trigger] a.m().contains_key(k) implies a.m()[k].0 == b.m()[k].0 && (n == 0 || same_val(a.m()[k].1, b.m()[k].1, (n - 1) as nat)) by {
        let (x, y) = (a.m()[k], b.m()[k]); assert(b.m().contains_key(k));
        if x.0 < y.0 { assert(ids[y.0 as int].sid() != k); } if y.0 < x.0 { assert(ids[x.0 as int].sid() != k); }
        assert(val_at(x, s, ids, d) && val_at(y, s, ids, d));
        if n > 0 { thm_val_unique(x.1, y.1, ids[x.0 as int], rs_vals(s, x.0 as int, d).unwrap(), d, (n - 1) as nat); }
    }
}
pub proof fn thm_val_unique(a: PropertyValue, b: PropertyValue, id: PropertyId, s: Seq<u8>, d: int, n: nat) requires val_is(a, id, s, d), val_is(b, id, s, d) ensures same_val(a, b, n) decreases n, 1int
{
    if id.sty() == 0x10 {
        let (x, y) = (a->PropertyValues_1, b->PropertyValues_1);
        assert forall|k: int| 0 <= k < x@.len() implies same_set(#[trigger] x@[k], y@[k], n) by { assert(set_at(x@[k], s.skip(4).skip(4), k, d + 1) && set_at(y@[k], s.skip(4).skip(4), k, d + 1)); thm_set_unique(x@[k], y@[k], rs_sets(s.skip(4).skip(4), k, d + 1).unwrap(), d + 1, n); }
    } else if id.sty() == 0x11 { thm_set_unique(a->PropertySet_0, b->PropertySet_0, s, d + 1, n); }
}
#fn PropertyValue::to_bool
ensures r == (match *self { PropertyValue::Bool(v) => Some(v), _ => None })
#fn PropertyValue::to_u8
ensures r == (match *self { PropertyValue::U8(v) => Some(v), _ => None })
#fn PropertyValue::to_u16
ensures r == (match *self { PropertyValue::U16(v) => Some(v), _ => None })
#fn PropertyValue::to_u32
ensures r == (match *self { PropertyValue::U32(v) => Some(v), _ => None })
#fn PropertyValue::to_u64
ensures r == (match *self { PropertyValue::U64(v) => Some(v), _ => None })
#fn PropertyValue::to_vec
ensures match r { Some(v) => *self is Vec && v@ == self->Vec_0@, None => !(*self is Vec) }
#fn PropertyValue::to_object_id
ensures r is Some == (*self is ObjectId)
#fn PropertyValue::to_object_ids
ensures r == (match *self { PropertyValue::ObjectIds(v) => Some(v), _ => None })
#fn PropertyValue::to_object_space_ids
ensures r == (match *self { PropertyValue::ObjectSpaceIds(v) => Some(v), _ => None })
#fn PropertyValue::to_property_values
ensures match r { Some((id, v)) => *self is PropertyValues && id == self->PropertyValues_0 && v@ == self->PropertyValues_1@, None => !(*self is PropertyValues) }
#fn PropertyValue::parse_nested
requires depth <= 64
ensures match r { Ok(v) => rs_val(property_id, old(reader).rem(), depth as int) == Some(final(reader).rem()) && val_is(v, property_id, old(reader).rem(), depth as int), Err(_) => rs_val(property_id, old(reader).rem(), depth as int) is None }
decreases old(reader).rem().len(), 2int
#fn PropertyValue::parse_vec
ensures match r { Ok(v) => rs_vec(old(reader).rem()) == Some(final(reader).rem()) && vec_is(v, old(reader).rem()), Err(_) => rs_vec(old(reader).rem()) is None }
#fn PropertyValue::parse_property_values
requires depth <= 64
ensures match r { Ok(v) => rs_pvs(old(reader).rem(), depth as int) == Some(final(reader).rem()) && pvs_is(v, old(reader).rem(), depth as int), Err(_) => rs_pvs(old(reader).rem(), depth as int) is None }
decreases old(reader).rem().len(), 1int
#entry
    let ghost __s0 = reader.rem();
    broadcast use {len_sets, len_ps};
#loop 0
    invariant __s0.len() >= 8, __end0 == crate::ext::le32(__s0), rs_sets(__s0.skip(4).skip(4), __k0 as int, depth + 1) == Some(reader.rem()), __out0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> set_at(#[trigger] __out0@[i], __s0.skip(4).skip(4), i, depth + 1),
#start 0
    proof { if rs_sets(__s0.skip(4).skip(4), __k0 + 1, depth + 1) is None { lemma_sets_mono(__s0.skip(4).skip(4), __k0 + 1, __end0 as int, depth + 1); } }
#fn PropertyId::new
ensures r == pid_of(value)
#fn PropertyId::value
ensures r == self.raw()
#fn PropertyId::id
ensures r == self.sid()
#fn PropertyId::prop_type
ensures r == self.sty()
#fn PropertyId::bool
ensures r == self.sbool()
#fn PropertyId::parse
@reads sp_pid
