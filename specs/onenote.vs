#prelude
use crate::ext::*;
use crate::fsshttpb::packaging::{sp_packaging, packed};
use crate::fsshttpb::data_element::storage_index::StorageIndex;
use crate::fsshttpb::data_element::storage_manifest::StorageManifest;
use crate::onestore::{OneStore, store_of, store_is, store_bad};
use crate::onenote::section::{section_is, section_bad};
use crate::onenote::notebook::{toc_is, no_toc, texts};
use crate::property::common::Color;
broadcast use {crate::fsshttpb::packaging::own_packed, crate::onestore::store_found, crate::ext::string_eq, crate::ext::may_open_beside, crate::ext::may_open_below, crate::ext::ax_path_empty};
pub open spec fn section_schema() -> crate::shared::guid::Guid { crate::shared::guid::Guid(uuid_lit(0x1F937CB4_B26F_445F_B9F8_17E20160E461)) }
pub open spec fn toc_schema() -> crate::shared::guid::Guid { crate::shared::guid::Guid(uuid_lit(0xE4DBFD38_E5C7_408B_A8A1_0E7B421E1F5F)) }
pub open spec fn no_store(b: Seq<u8>) -> bool { sp_packaging(b) is None || exists|k: OneStorePackaging| #[trigger] packed(k, b) && store_bad(k) }
/// a section and the bytes it was parsed from
pub open spec fn sect_of(v: Section, b: Seq<u8>, name: Seq<char>) -> bool { exists|s: OneStore| #[trigger] store_of(s, b) && s.schema == section_schema() && section_is(v, s, name) }
/// why there is no section
pub open spec fn sect_err(b: Seq<u8>, e: ErrorKind) -> bool { no_store(b) || exists|s: OneStore| #[trigger] store_of(s, b) && (if s.schema == section_schema() { section_bad(s) } else { e is NotASectionFile }) }
pub open spec fn file_is(v: Section, p: Path) -> bool { fs_bytes(p) matches Some(b) && path_name(p) matches Some(n) && sect_of(v, b, os_lossy(n)) }
pub open spec fn file_err(p: Path, e: ErrorKind) -> bool { path_name(p) is None || (match fs_bytes(p) { Some(b) => sect_err(b, e), None => true }) }
/// the path of the names in a list of components
pub open spec fn joined(c: Seq<Part>) -> Path decreases c.len() {
    if c.len() == 0 { path_empty() } else { match c.last() { Part::Name(o) => path_join(joined(c.drop_last()), str_path(os_str(o).unwrap())), _ => joined(c.drop_last()) } }
}
/// a component of an entry's name: nothing but a plain name that is valid for a file
pub open spec fn part_ok(p: Part) -> bool { match p { Part::Name(o) => os_str(o) matches Some(n) && sanitised(n) == n, Part::Here => true, Part::Other => false } }
pub open spec fn parts_ok(c: Seq<Part>) -> bool { forall|i: int| 0 <= i < c.len() ==> part_ok(#[trigger] c[i]) }
/// the name of an entry: a relative path of plain names, and at least one
pub open spec fn entry_ok(name: Seq<char>) -> bool { !path_absolute(str_path(name)) && parts_ok(path_parts(str_path(name))) && !path_is_empty(joined(path_parts(str_path(name)))) }
/// no path without a name in it is accepted
pub proof fn lemma_no_names(c: Seq<Part>) requires forall|i: int| 0 <= i < c.len() ==> !((#[trigger] c[i]) is Name) ensures joined(c) == path_empty() decreases c.len() { if c.len() > 0 { assert(!(c.last() is Name)); assert forall|i: int| 0 <= i < c.len() - 1 implies !((#[trigger] c.drop_last()[i]) is Name) by { assert(c.drop_last()[i] == c[i]); } lemma_no_names(c.drop_last()); } }
pub proof fn thm_entry_has_a_name(name: Seq<char>) requires entry_ok(name) ensures exists|i: int| 0 <= i < path_parts(str_path(name)).len() && (#[trigger] path_parts(str_path(name))[i]) is Name { if forall|i: int| 0 <= i < path_parts(str_path(name)).len() ==> !((#[trigger] path_parts(str_path(name))[i]) is Name) { lemma_no_names(path_parts(str_path(name))); } }
pub open spec fn at_entry(base: Path, name: Seq<char>) -> Path { path_join(base, joined(path_parts(str_path(name)))) }
pub open spec fn resolves(base: Path, name: Seq<char>) -> bool { entry_ok(name) && contained(base, at_entry(base, name)) }
/// the entries that are there, but for the recycle bin
pub open spec fn kept(base: Path, names: Seq<Seq<char>>) -> Seq<Path> decreases names.len() {
    if names.len() == 0 { Seq::empty() } else { let p = at_entry(base, names.last()); let r = kept(base, names.drop_last()); if fs_exists(p) && !path_ends(p, str_path("OneNote_RecycleBin"@)) { r.push(p) } else { r } }
}
pub open spec fn shown(p: Path) -> bool { fs_exists(p) && !path_ends(p, str_path("OneNote_RecycleBin"@)) }
/// what a table of contents lists, and its color
pub open spec fn lists(ps: Seq<Path>, color: Option<Color>, p: Path) -> bool {
    fs_bytes(p) matches Some(b) && base_of(p) matches Some(base) && exists|s: OneStore, names: Seq<Seq<char>>| #[trigger] store_of(s, b) && s.schema == toc_schema() && #[trigger] toc_is(names, color, s.data_root)
        && (forall|i: int| 0 <= i < names.len() ==> resolves(base, #[trigger] names[i])) && ps == kept(base, names)
}
pub open spec fn is_toc(p: Path) -> bool { path_ext(p) == Some(str_os("onetoc2"@)) }
/// the entries before the `k`th are readable, and no table of contents
pub open spec fn no_toc_before(d: Seq<Option<Path>>, k: int) -> bool { forall|j: int| 0 <= j < k ==> ((#[trigger] d[j]) matches Some(u) && !is_toc(u)) }
/// the table of contents of a directory
pub open spec fn dir_toc(p: Path, t: Path) -> bool { fs_dir(p) matches Some(d) && exists|k: int| 0 <= k < d.len() && #[trigger] d[k] == Some(t) && is_toc(t) && no_toc_before(d, k) }
/// a section or a group of sections, at its path
pub open spec fn entry_is(v: SectionEntry, p: Path) -> bool decreases v {
    match v { SectionEntry::Section(x) => fs_is_file(p) && file_is(x, p), SectionEntry::SectionGroup(g) => !fs_is_file(p) && group_is(g, p) }
}
pub open spec fn group_is(g: SectionGroup, p: Path) -> bool decreases g via group_dec {
    path_name(p) matches Some(n) && g.display_name@ == os_lossy(n)
    && exists|t: Path, ps: Seq<Path>, c: Option<Color>| #[trigger] dir_toc(p, t) && contained(p, t) && #[trigger] lists(ps, c, t) && ps.len() == g.entries@.len() && forall|i: int| 0 <= i < g.entries@.len() ==> entry_is(#[trigger] g.entries@[i], ps[i])
}
#[via_fn] proof fn group_dec(g: SectionGroup, p: Path) { assert forall|i: int| 0 <= i < g.entries@.len() implies decreases_to!(g => #[trigger] g.entries@[i]) by { assert(decreases_to!(g.entries => g.entries[i])); } }
pub open spec fn entries_are(v: Seq<SectionEntry>, ps: Seq<Path>) -> bool { v.len() == ps.len() && forall|i: int| 0 <= i < v.len() ==> entry_is(#[trigger] v[i], ps[i]) }
/// the notebook with the table of contents at `p`
pub open spec fn book_is(v: Notebook, p: Path) -> bool { exists|ps: Seq<Path>| #[trigger] lists(ps, v.color, p) && entries_are(v.entries@, ps) }
/// why there is no notebook; `n`: how many directories further down
pub open spec fn book_err_at(p: Path, e: ErrorKind, n: nat) -> bool decreases n, 1int {
    fs_bytes(p) is None || base_of(p) is None || no_store(fs_bytes(p).unwrap()) || exists|s: OneStore| #[trigger] store_of(s, fs_bytes(p).unwrap()) && (if s.schema != toc_schema() { e is NotATocFile } else {
        no_toc(s.data_root) || exists|names: Seq<Seq<char>>, c: Option<Color>| #[trigger] toc_is(names, c, s.data_root) && exists|i: int| 0 <= i < names.len() && (!resolves(base_of(p).unwrap(), #[trigger] names[i])
            || (shown(at_entry(base_of(p).unwrap(), names[i])) && entry_err_at(at_entry(base_of(p).unwrap(), names[i]), e, n)))
    })
}
pub open spec fn entry_err_at(p: Path, e: ErrorKind, n: nat) -> bool decreases n, 0int { if fs_is_file(p) { file_err(p, e) } else { n > 0 && group_err_at(p, e, (n - 1) as nat) } }
pub open spec fn group_err_at(p: Path, e: ErrorKind, n: nat) -> bool decreases n, 2int {
    path_name(p) is None || match fs_dir(p) { None => true, Some(d) => (no_toc_before(d, d.len() as int) && e is TocFileMissing) || exists|k: int| 0 <= k < d.len() && no_toc_before(d, k) && match #[trigger] d[k] { None => true, Some(t) => is_toc(t) && (!contained(p, t) || book_err_at(t, e, n)) } }
}
pub open spec fn book_err(p: Path, e: ErrorKind) -> bool { book_err_at(p, e, 0) || exists|n: nat| #[trigger] book_err_at(p, e, n) }
pub open spec fn group_err(p: Path, e: ErrorKind) -> bool { group_err_at(p, e, 0) || exists|n: nat| #[trigger] group_err_at(p, e, n) }
/// the paths of the first entries
pub open spec fn resolved(v: Seq<Path>, base: Path, names: Seq<Seq<char>>) -> bool { v.len() <= names.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] at_path(v[i], base, names, i) }
pub open spec fn at_path(p: Path, base: Path, names: Seq<Seq<char>>, i: int) -> bool { p == at_entry(base, names[i]) && resolves(base, names[i]) }
pub open spec fn entry_err(p: Path, e: ErrorKind) -> bool { exists|n: nat| #[trigger] entry_err_at(p, e, n) }
pub proof fn lemma_entry_err(p: Path, e: ErrorKind) requires if fs_is_file(p) { file_err(p, e) } else { group_err(p, e) } ensures entry_err(p, e)
{
    if fs_is_file(p) { assert(entry_err_at(p, e, 0)); }
    else { let n = if group_err_at(p, e, 0) { 0 } else { choose|n: nat| #[trigger] group_err_at(p, e, n) }; assert(entry_err_at(p, e, (n + 1) as nat)); }
}
pub proof fn lemma_book_err(p: Path, e: ErrorKind, s: OneStore, names: Seq<Seq<char>>, c: Option<Color>, i: int)
    requires fs_bytes(p) is Some, base_of(p) is Some, store_of(s, fs_bytes(p).unwrap()), s.schema == toc_schema(), toc_is(names, c, s.data_root), 0 <= i < names.len(), shown(at_entry(base_of(p).unwrap(), names[i])), entry_err(at_entry(base_of(p).unwrap(), names[i]), e)
    ensures book_err(p, e)
{
    let n = choose|n: nat| #[trigger] entry_err_at(at_entry(base_of(p).unwrap(), names[i]), e, n);
    assert(book_err_at(p, e, n));
}
pub proof fn lemma_group_err(p: Path, e: ErrorKind, k: int)
    requires path_name(p) is Some, fs_dir(p) matches Some(d) && 0 <= k < d.len() && no_toc_before(d, k) && (d[k] matches Some(t) && is_toc(t) && book_err(t, e))
    ensures group_err(p, e)
{
    let t = fs_dir(p).unwrap()[k].unwrap(); let n = if book_err_at(t, e, 0) { 0 } else { choose|n: nat| #[trigger] book_err_at(t, e, n) };
    assert(group_err_at(p, e, n));
}
pub proof fn lemma_entries(v: Seq<SectionEntry>, ps: Seq<Path>, x: SectionEntry, p: Path) requires entries_are(v, ps), match x { SectionEntry::Section(y) => fs_is_file(p) && file_is(y, p), SectionEntry::SectionGroup(g) => !fs_is_file(p) && group_is(g, p) } ensures entries_are(v.push(x), ps.push(p))
{ assert(entry_is(x, p)); assert forall|i: int| 0 <= i < v.len() + 1 implies entry_is(#[trigger] v.push(x)[i], ps.push(p)[i]) by { if i < v.len() { assert(entry_is(v[i], ps[i])); } } }
pub proof fn lemma_kept(base: Path, names: Seq<Seq<char>>, k: int) requires 0 <= k < names.len() ensures kept(base, names.take(k + 1)) == (if shown(at_entry(base, names[k])) { kept(base, names.take(k)).push(at_entry(base, names[k])) } else { kept(base, names.take(k)) })
{ assert(names.take(k + 1).drop_last() =~= names.take(k)); assert(names.take(k + 1).last() == names[k]); }
#fn Parser::read
ensures match r { Ok(v) => fs_bytes(file.p) == Some(v@), Err(_) => fs_bytes(file.p) is None }
#fn Parser::parse_section_buffer
#attr
    #[verifier::spinoff_prover]
#spec
#entry
    hide(sp_packaging); hide(store_is); hide(store_bad); hide(section_is); hide(section_bad); hide(crate::fsshttpb::packaging::own_indexes);
#spec
ensures match r { Ok(v) => sect_of(v, data@, os_lossy(path_os(*file_name))), Err(e) => sect_err(data@, e.kind) }
#fn Parser::parse_section
#attr
    #[verifier::spinoff_prover]
#spec
#entry
    hide(sp_packaging); hide(store_is); hide(store_bad); hide(section_is); hide(section_bad); hide(crate::fsshttpb::packaging::own_indexes);
#spec
requires may_open(*path)
ensures match r { Ok(v) => file_is(v, *path), Err(e) => file_err(*path, e.kind) }
#fn Parser::parse_notebook
#entry
    hide(sp_packaging); hide(store_is); hide(store_bad); hide(section_is); hide(section_bad); hide(crate::fsshttpb::packaging::own_indexes); hide(toc_is); hide(no_toc); hide(entry_is); hide(entry_err_at); hide(file_is); hide(file_err); hide(joined);
#attr
    #[verifier::spinoff_prover]
    #[verifier::exec_allows_no_decreases_clause]
#spec
requires may_open(*path)
ensures match r { Ok(v) => book_is(v, *path), Err(e) => book_err(*path, e.kind) }
#before let entries =
    let ghost __names = entries@; let ghost __t = texts(entries@);
#loop 0
    invariant vx_refs(__src0@, __names), __out0@.len() == __k0, resolved(__out0@, *base_dir, __t)
#start 0
    proof { assert(__t[__k0 as int] == __names[__k0 as int]@); assert(*__src0@[__k0 as int] == __names[__k0 as int]); }
#loop 1
    invariant resolved(__src1@, *base_dir, __t), __src1@.len() == __t.len(), entries_are(__out1@, kept(*base_dir, __t.take(__k1 as int)))
#start 1
    proof { lemma_kept(*base_dir, __t, __k1 as int); assert(at_path(__src1@[__k1 as int], *base_dir, __t, __k1 as int)); }
#before match __m2
    proof { if __m2 is Err { lemma_entry_err(__src1@[__k1 - 1], __m2->Err_0.kind); lemma_book_err(*path, __m2->Err_0.kind, store, __t, color, __k1 - 1); } else { lemma_entries(__out1@, kept(*base_dir, __t.take(__k1 - 1)), __m2->Ok_0, __src1@[__k1 - 1]); } }
#pre 1
    proof { assert forall|i: int| 0 <= i < __t.len() implies resolves(*base_dir, #[trigger] __t[i]) by { assert(at_path(__src1@[i], *base_dir, __t, i)); } assert(entries_are(Seq::empty(), kept(*base_dir, __t.take(0)))); }
#after 1
    proof { assert(__t.take(__t.len() as int) =~= __t); assert(store_of(store, fs_bytes(*path).unwrap())); assert(base_of(*path) == Some(*base_dir)); assert(store.schema == toc_schema()); assert(toc_is(__t, color, store.data_root)); assert(lists(kept(*base_dir, __t), color, *path)); }
#fn Parser::parse_section_group
#entry
    hide(book_err_at); hide(lists); hide(book_err);
#attr
    #[verifier::spinoff_prover]
    #[verifier::exec_allows_no_decreases_clause]
#spec
requires may_open(*path)
ensures match r { Ok(v) => group_is(v, *path), Err(e) => group_err(*path, e.kind) }
#loop 0
    invariant fs_dir(*path) is Some, fs_dir(*path).unwrap() == __src0@.map_values(|e: std::result::Result<DirEntry, IoError>| entry_path(e)), no_toc_before(fs_dir(*path).unwrap(), __k0 as int)
#start 0
    proof { assert(fs_dir(*path).unwrap()[__k0 as int] == entry_path(__src0@[__k0 as int])); }
#before return(match self.parse_notebook
    proof { assert(dir_toc(*path, entry.p)); assert forall|e: ErrorKind| #[trigger] book_err(entry.p, e) implies group_err(*path, e) by { lemma_group_err(*path, e, __k0 - 1); } }
#fn resolve_entry_path
ensures match r { Ok(p) => p == at_entry(*base_dir, entry@) && resolves(*base_dir, entry@), Err(_) => !resolves(*base_dir, entry@) }
#entry
    let ghost __c = path_parts(str_path(entry@));
#loop 0
    invariant __c == __src0@.map_values(|c: Component<'_>| part_of(c)), sanitized == joined(__c.take(__k0 as int)), forall|i: int| 0 <= i < __k0 ==> part_ok(#[trigger] __c[i])
#start 0
    proof { assert(__c[__k0 as int] == part_of(__src0@[__k0 as int])); assert(__c.take(__k0 + 1).drop_last() =~= __c.take(__k0 as int)); assert(__c.take(__k0 + 1).last() == __c[__k0 as int]); }
#after 0
    proof { assert(__c.take(__c.len() as int) =~= __c); }
#fn ensure_contained
ensures r is Ok <==> contained(*base_dir, *candidate)
