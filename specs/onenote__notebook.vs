#prelude
use crate::onestore::object_space::{has_o, ob};
use crate::onestore::revision::at;
use crate::onestore::revision_role::RevisionRole;
use crate::ext::{vx_refs, vx_sorted_as};
broadcast use crate::ext::string_eq;
/// the entries: their ordering ids and names
pub open spec fn pairs(v: Seq<(u32, String)>) -> Seq<(u32, Seq<char>)> { v.map_values(|x: (u32, String)| (x.0, x.1@)) }
/// `e` are the entries below `id`, which are nested less than `n` deep: the one it is or, in order, those of its children
pub open spec fn toc_at(e: Seq<(u32, Seq<char>)>, id: ExGuid, s: ObjectSpace, n: int) -> bool decreases n, 1int {
    n > 0 && has_o(s, id) && toc_container::good(ob(s, id)) && exists|d: toc_container::Data| #[trigger] toc_container::data_is(d, ob(s, id)) && match d.filename {
        Some(f) => d.ordering_id matches Some(k) && e == seq![(k, f@)],
        None => exists|parts: Seq<Seq<(u32, Seq<char>)>>| parts.len() == d.children@.len() && parts_are(parts, d.children@, s, n - 1) && e == #[trigger] parts.flatten(),
    }
}
pub open spec fn parts_are(parts: Seq<Seq<(u32, Seq<char>)>>, ids: Seq<ExGuid>, s: ObjectSpace, n: int) -> bool decreases n, 2int when n >= 0 { parts.len() <= ids.len() && forall|i: int| 0 <= i < parts.len() ==> toc_at(#[trigger] parts[i], ids[i], s, n) }
/// something is missing or malformed below `id`, or entries contain each other or are nested 64 deep; `anc` are those that contain `id`
pub open spec fn toc_bad(id: ExGuid, s: ObjectSpace, anc: Seq<ExGuid>) -> bool decreases 64 - anc.len() {
    anc.len() >= 64 || anc.contains(id) || !has_o(s, id) || !toc_container::good(ob(s, id)) || exists|d: toc_container::Data| #[trigger] toc_container::data_is(d, ob(s, id)) && match d.filename {
        Some(f) => d.ordering_id is None,
        None => exists|i: int| 0 <= i < d.children@.len() && toc_bad(#[trigger] d.children@[i], s, anc.push(id)),
    }
}
pub open spec fn color_is(c: Option<Color>, id: ExGuid, s: ObjectSpace) -> bool { exists|d: toc_container::Data| #[trigger] toc_container::data_is(d, ob(s, id)) && c == d.color }
/// without the entries that repeat the one before
pub open spec fn dedup(v: Seq<Seq<char>>) -> Seq<Seq<char>> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { let r = dedup(v.drop_last()); if v.len() > 1 && v[v.len() - 2] == v.last() { r } else { r.push(v.last()) } }
}
pub proof fn lemma_dedup(v: Seq<Seq<char>>, k: int) requires 0 <= k < v.len() ensures dedup(v.take(k + 1)) == (if k > 0 && v[k - 1] == v[k] { dedup(v.take(k)) } else { dedup(v.take(k)).push(v[k]) })
{ let b = v.take(k + 1); assert(b.drop_last() =~= v.take(k)); assert(b.last() == v[k]); if k > 0 { assert(b[b.len() - 2] == v[k - 1]); } }
pub open spec fn names(v: Seq<(u32, String)>) -> Seq<Seq<char>> { names_of(pairs(v)) }
pub proof fn lemma_names(v: Seq<(u32, String)>, x: (u32, String)) ensures names(v).len() == v.len(), names(v.push(x)) =~= names(v).push(x.1@) {}
/// in the order of their ordering ids, and of the entries where those are the same
pub open spec fn in_order(o: Seq<(u32, Seq<char>)>, e: Seq<(u32, Seq<char>)>) -> bool { exists|p: Seq<int>| #[trigger] vx_sorted_as(o, e, ids_of(e), p) }
pub open spec fn ids_of(e: Seq<(u32, Seq<char>)>) -> Seq<u32> { e.map_values(|x: (u32, Seq<char>)| x.0) }
pub open spec fn names_of(e: Seq<(u32, Seq<char>)>) -> Seq<Seq<char>> { e.map_values(|x: (u32, Seq<char>)| x.1) }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
/// the entries of a table of contents
pub open spec fn toc_is(names: Seq<Seq<char>>, color: Option<Color>, s: ObjectSpace) -> bool {
    at(s.roots@, RevisionRole::DefaultContent) matches Some(id) && color_is(color, id, s)
    && exists|e: Seq<(u32, Seq<char>)>, o: Seq<(u32, Seq<char>)>| toc_at(e, id, s, 64) && #[trigger] in_order(o, e) && names == dedup(names_of(o))
}
pub open spec fn no_toc(s: ObjectSpace) -> bool { match at(s.roots@, RevisionRole::DefaultContent) { Some(id) => toc_bad(id, s, Seq::empty()), None => true } }
pub open spec fn entry_pairs(v: Seq<TocEntry>) -> Seq<Seq<(u32, Seq<char>)>> { v.map_values(|x: TocEntry| pairs(x.entries@)) }
#fn Notebook::entries
ensures r@ == self.entries@
#fn Notebook::color
ensures r == self.color
#fn parse_toc
#attr
    #[verifier::spinoff_prover]
#spec
ensures match r { Ok((v, c)) => toc_is(texts(v@), c, *space), Err(_) => no_toc(*space) }
#entry
    hide(toc_at); hide(toc_bad); hide(toc_container::data_is); hide(color_is); hide(dedup); hide(vx_sorted_as);
#spec
#before let toc =
    let ghost __e = entry.entries@; let ghost mut __t: Seq<(u32, String)> = Seq::empty();
#loop 0
    invariant vx_refs(__src0@, __e), __all0@ == __e, __out0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> __out0@[i] == (#[trigger] __e[i]).0
#start 0
    assert(*__src0@[__k0 as int] == __e[__k0 as int]);
#after 0
    proof { assert(__out0@ =~= ids_of(pairs(__e))); }
#pre 1
    let ghost __s = __src1@;
    proof { __t = __s; reveal(dedup); assert(names(__s).take(0).len() == 0); assert(names(Seq::<(u32, String)>::empty()) =~= Seq::<Seq<char>>::empty()); assert(in_order(pairs(__s), pairs(__e))) by { reveal(vx_sorted_as); let p = choose|p: Seq<int>| #[trigger] vx_sorted_as(__s, __e, ids_of(pairs(__e)), p); assert(vx_sorted_as(pairs(__s), pairs(__e), ids_of(pairs(__e)), p)); } }
#loop 1
    invariant names(__out1@) == dedup(names(__s).take(__k1 as int)), __k1 > 0 ==> __out1@.len() > 0 && __out1@.last().1@ == __s[__k1 - 1].1@
#start 1
    let ghost __o1 = __out1@;
    proof { lemma_dedup(names(__s), __k1 as int); lemma_names(__o1, __s[__k1 as int]); assert(__k1 == 0 ==> names(__s).take(0).len() == 0); }
#end 1
    proof { assert(__same1 == (__k1 > 1 && names(__s)[__k1 - 2] == names(__s)[__k1 - 1])); }
#after 1
    proof { assert(names(__s).take(__s.len() as int) =~= names(__s)); }
#loop 2
    invariant texts(__out2@) == names(__src2@).take(__k2 as int)
#start 2
    let ghost __o2 = __out2@;
    proof { assert(names(__src2@).take(__k2 + 1) =~= names(__src2@).take(__k2 as int).push(__src2@[__k2 as int].1@)); }
#end 2
    proof { assert(texts(__out2@) =~= texts(__o2).push(__out2@.last()@)); }
#pre 2
    proof { assert(names(__src2@).take(0) =~= texts(Seq::<String>::empty())); }
#after 2
    proof { assert(names(__src2@).take(__src2@.len() as int) =~= names(__src2@)); }
#before Ok((toc
    proof { assert(in_order(pairs(__t), pairs(__e))); assert(texts(toc@) == dedup(names(__t))); }
#fn parse_toc_entry
requires old(ancestors)@.len() <= 64
ensures match r { Ok(v) => final(ancestors)@ == old(ancestors)@ && toc_at(pairs(v.entries@), content_id, *space, 64 - old(ancestors)@.len()) && color_is(v.color, content_id, *space), Err(_) => toc_bad(content_id, *space, old(ancestors)@) }
decreases 64 - old(ancestors)@.len()
#entry
    hide(toc_container::good); hide(toc_container::data_is);
    let ghost __anc = ancestors@; let ghost __n = 64 - __anc.len();
#before if let Some(name)
    let ghost __d = toc;
#before ancestors.push(content_id)
    let ghost mut __parts = Seq::<Seq<(u32, Seq<char>)>>::empty();
#before Ok(TocEntry @0
    proof { assert forall|q: Seq<(u32, String)>| q.len() == 1 && q[0] == (ordering_id, name) implies #[trigger] pairs(q) == seq![(ordering_id, name@)] by { assert(pairs(q) =~= seq![(ordering_id, name@)]); } assert(toc_at(seq![(ordering_id, name@)], content_id, *space, __n)); }
#before Ok(TocEntry @1
    proof { assert(__parts.len() == __d.children@.len()); assert(parts_are(__parts, __d.children@, *space, __n - 1)); assert(__d.filename is None); assert(toc_container::data_is(__d, ob(*space, content_id))); assert(pairs(children@) == __parts.flatten()); assert(ancestors@ =~= __anc); assert(toc_at(pairs(children@), content_id, *space, __n)); }
#loop 0
    invariant __src0@ == __d.children@, ancestors@ == __anc.push(content_id), __out0@.len() == __k0, __parts.len() == __k0, parts_are(__parts, __d.children@, *space, __n - 1), entry_pairs(__out0@) == __parts
#start 0
    let ghost __o0 = __out0@;
#end 0
    proof { assert(entry_pairs(__out0@) =~= entry_pairs(__o0).push(pairs(__out0@.last().entries@))); __parts = __parts.push(pairs(__out0@.last().entries@)); }
#loop 1
    invariant pairs(__out1@) == __parts.take(__k1 as int).flatten(), __parts.len() == __src1@.len(), entry_pairs(__src1@) == __parts
#start 1
    let ghost __o1 = __out1@;
    proof { assert(__parts.take(__k1 + 1) =~= __parts.take(__k1 as int).push(__parts[__k1 as int])); __parts.take(__k1 as int).lemma_flatten_push(__parts[__k1 as int]); assert(__src1@[__k1 as int].entries@.len() >= 0); }
#end 1
    proof { assert(pairs(__out1@) =~= pairs(__o1) + __parts[__k1 - 1]); }
#after 1
    proof { assert(__parts.take(__parts.len() as int) =~= __parts); }
#spec
