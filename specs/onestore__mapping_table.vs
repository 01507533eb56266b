#prelude
use crate::ext::vx_list;
/// the entries for `cid` among the first `n` of `pairs`, each with its place
pub open spec fn ent<T>(pairs: Seq<(CompactId, T)>, cid: CompactId, n: int) -> Seq<(usize, T)> decreases n {
    if n <= 0 { Seq::empty() } else if pairs[n - 1].0 == cid { ent(pairs, cid, n - 1).push(((n - 1) as usize, pairs[n - 1].1)) } else { ent(pairs, cid, n - 1) }
}
/// the first entry with place `index`
pub open spec fn at_place<T>(s: Seq<(usize, T)>, index: usize, n: int) -> Option<T> decreases n {
    if n <= 0 { None } else { match at_place(s, index, n - 1) { Some(x) => Some(x), None => if s[n - 1].0 == index { Some(s[n - 1].1) } else { None } } }
}
/// the value an id stands for: the only entry's, or, where there are several, that of the entry at the same place as the reference
pub open spec fn pick<T>(s: Seq<(usize, T)>, index: usize) -> Option<T> { if s.len() == 1 { Some(s[0].1) } else { at_place(s, index, s.len() as int) } }
pub open spec fn table_is<T>(m: Map<CompactId, Vec<(usize, T)>>, pairs: Seq<(CompactId, T)>, n: int) -> bool { forall|c: CompactId| #[trigger] vx_list(m, c) == ent(pairs, c, n) }
impl MappingTable {
    pub closed spec fn obj(&self, cid: CompactId) -> Seq<(usize, ExGuid)> { vx_list(self.objects@, cid) }
    pub closed spec fn obj_off(&self) -> usize { self.objects_offset }
    pub closed spec fn spc_off(&self) -> usize { self.object_spaces_offset }
    pub closed spec fn spc(&self, cid: CompactId) -> Seq<(usize, CellId)> { vx_list(self.object_spaces@, cid) }
}
pub open spec fn sat(a: usize, b: usize) -> usize { if a + b > usize::MAX { usize::MAX } else { (a + b) as usize } }
/// `t` is the mapping of `s`, used by a property set whose own references stand after `a` and `b` others
pub open spec fn nested_is(t: MappingTable, s: MappingTable, a: usize, b: usize) -> bool {
    &&& forall|c: CompactId| #[trigger] t.obj(c) == s.obj(c)
    &&& forall|c: CompactId| #[trigger] t.spc(c) == s.spc(c)
    &&& t.obj_off() == sat(s.obj_off(), a) && t.spc_off() == sat(s.spc_off(), b)
}
/// `t` maps the references of an object
pub open spec fn mt_is(t: MappingTable, objects: Seq<(CompactId, ExGuid)>, spaces: Seq<(CompactId, CellId)>) -> bool {
    t.obj_off() == 0 && t.spc_off() == 0 && (forall|c: CompactId| #[trigger] t.obj(c) == ent(objects, c, objects.len() as int)) && (forall|c: CompactId| #[trigger] t.spc(c) == ent(spaces, c, spaces.len() as int))
}
pub proof fn lemma_ent<T>(pairs: Seq<(CompactId, T)>, c: CompactId, n: int, i: int)
    requires 0 <= n <= pairs.len(), pairs.len() <= usize::MAX
    ensures ent(pairs, c, n).len() <= n, forall|j: int| 0 <= j < ent(pairs, c, n).len() ==> (#[trigger] ent(pairs, c, n)[j]).0 < n && pairs[ent(pairs, c, n)[j].0 as int] == (c, ent(pairs, c, n)[j].1),
        0 <= i < n && pairs[i].0 == c ==> ent(pairs, c, n).contains((i as usize, pairs[i].1)),
    decreases n
{
    if n > 0 {
        lemma_ent(pairs, c, n - 1, i);
        if 0 <= i < n && pairs[i].0 == c {
            if i < n - 1 { let j = choose|j: int| 0 <= j < ent(pairs, c, n - 1).len() && #[trigger] ent(pairs, c, n - 1)[j] == (i as usize, pairs[i].1); assert(ent(pairs, c, n)[j] == (i as usize, pairs[i].1)); }
            else { assert(ent(pairs, c, n)[ent(pairs, c, n - 1).len() as int] == (i as usize, pairs[i].1)); }
        }
    }
}
pub proof fn lemma_place<T>(s: Seq<(usize, T)>, index: usize, n: int)
    requires 0 <= n <= s.len()
    ensures match at_place(s, index, n) { Some(x) => exists|j: int| 0 <= j < n && #[trigger] s[j] == (index, x), None => forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).0 != index }
    decreases n
{ if n > 0 { lemma_place(s, index, n - 1); if at_place(s, index, n - 1) is Some { let x = at_place(s, index, n - 1).unwrap(); let j = choose|j: int| 0 <= j < n - 1 && #[trigger] s[j] == (index, x); assert(s[j] == (index, x)); } else if s[n - 1].0 == index { assert(s[n - 1] == (index, s[n - 1].1)); } } }
pub proof fn lemma_first<T>(s: Seq<(usize, T)>, index: usize, i: int, n: int)
    requires 0 <= i < n <= s.len(), s[i].0 == index, forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).0 != index
    ensures at_place(s, index, n) == Some(s[i].1)
    decreases n
{ lemma_place(s, index, i); if n - 1 > i { lemma_first(s, index, i, n - 1); } }
/// a reference is resolved to what stands at its own place in the id stream, whatever the ids of the others
pub proof fn thm_mapping_own_place<T>(pairs: Seq<(CompactId, T)>, i: int)
    requires 0 <= i < pairs.len(), pairs.len() <= usize::MAX
    ensures pick(ent(pairs, pairs[i].0, pairs.len() as int), i as usize) == Some(pairs[i].1)
{
    let c = pairs[i].0; let s = ent(pairs, c, pairs.len() as int);
    lemma_ent(pairs, c, pairs.len() as int, i); lemma_place(s, i as usize, s.len() as int);
    let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == (i as usize, pairs[i].1);
    assert(s[k] == (i as usize, pairs[i].1));
    if s.len() != 1 { if at_place(s, i as usize, s.len() as int) is None { assert(s[k].0 != i as usize); } else { let x = at_place(s, i as usize, s.len() as int).unwrap(); let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == (i as usize, x); assert(pairs[s[j].0 as int] == (c, s[j].1)); } }
}
/// an id that is in the table never stands for anything but one of its own entries
pub proof fn thm_mapping_own_id<T>(pairs: Seq<(CompactId, T)>, c: CompactId, index: usize)
    requires pairs.len() <= usize::MAX
    ensures match pick(ent(pairs, c, pairs.len() as int), index) { Some(x) => exists|i: int| 0 <= i < pairs.len() && #[trigger] pairs[i] == (c, x), None => forall|i: int| 0 <= i < pairs.len() && i == index ==> (#[trigger] pairs[i]).0 != c }
{
    let s = ent(pairs, c, pairs.len() as int);
    lemma_ent(pairs, c, pairs.len() as int, index as int); lemma_place(s, index, s.len() as int);
    match pick(s, index) {
        Some(x) => { if s.len() == 1 { assert(pairs[s[0].0 as int] == (c, s[0].1)); } else { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == (index, x); assert(pairs[s[j].0 as int] == (c, s[j].1)); } }
        None => { assert forall|i: int| 0 <= i < pairs.len() && i == index implies (#[trigger] pairs[i]).0 != c by { if pairs[i].0 == c { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == (index, pairs[i].1); assert(s[k].0 != index); } } }
    }
}
#fn MappingTable::from_entries
ensures mt_is(r, objects@, object_spaces@)
#loop 0
    invariant __src0@.len() == objects@.len(), forall|i: int| 0 <= i < objects@.len() ==> #[trigger] __src0@[i] == (i as usize, objects@[i]), table_is(objects_map@, objects@, __k0 as int),
#start 0
    let ghost __m0 = objects_map@; assert(__src0@[__k0 as int] == (__k0 as usize, objects@[__k0 as int]));
#end 0
    proof { assert forall|c: CompactId| #[trigger] vx_list(objects_map@, c) == ent(objects@, c, __k0 as int) by { assert(vx_list(__m0, c) == ent(objects@, c, __k0 - 1)); assert(__m0.contains_key(c) || objects@[__k0 - 1].0 == c || !objects_map@.dom().contains(c)); } }
#loop 1
    invariant __src1@.len() == object_spaces@.len(), forall|i: int| 0 <= i < object_spaces@.len() ==> #[trigger] __src1@[i] == (i as usize, object_spaces@[i]), table_is(object_spaces_map@, object_spaces@, __k1 as int),
#start 1
    let ghost __m1 = object_spaces_map@; assert(__src1@[__k1 as int] == (__k1 as usize, object_spaces@[__k1 as int]));
#end 1
    proof { assert forall|c: CompactId| #[trigger] vx_list(object_spaces_map@, c) == ent(object_spaces@, c, __k1 as int) by { assert(vx_list(__m1, c) == ent(object_spaces@, c, __k1 - 1)); assert(__m1.contains_key(c) || object_spaces@[__k1 - 1].0 == c || !object_spaces_map@.dom().contains(c)); } }
#fn MappingTable::get_object
ensures r == pick(self.obj(cid), sat(index, self.obj_off()))
#fn MappingTable::get_object_space
ensures r == pick(self.spc(cid), sat(index, self.spc_off()))
#fn MappingTable::nested
ensures nested_is(r, *self, objects_offset, object_spaces_offset)
#fn MappingTable::get
ensures r == pick(vx_list(table@, cid), index)
#find 0 x: x.0 == index
#after 0
    proof { let s = entries@; lemma_place(s, index, s.len() as int);
        match __out0 { Some(x) => { let i = choose|i: int| 0 <= i < __src0@.len() && #[trigger] __src0@[i] == x && __src0@[i].0 == index && (forall|j: int| 0 <= j < i ==> __src0@[j].0 != index);
            assert forall|j: int| 0 <= j < i implies (#[trigger] s[j]).0 != index by { assert(__src0@[j].0 != index); } lemma_first(s, index, i, s.len() as int); }
            None => { assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 != index by { assert(__src0@[j].0 != index); } } } }
