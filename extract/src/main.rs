//! extract: pulls the real functions out of /repo/src and emits one Verus crate with the contracts
//! from the spec directory spliced in.  See DESIGN.md for the list of rewrites.
//!
//! usage: extract <repo/src> <specdir> <job> <out.rs> <out.map>
//! job lines:  verify <pattern>      functions whose body is verified
//!             demote <fn id>        emitted contract-only (body dropped)
mod kind;
mod print;
mod tx;

use kind::*;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path as FPath, PathBuf};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;
use tx::*;

#[derive(Default, Clone)]
struct FnSpec {
    ret: Option<String>,
    spec: String,
    attrs: String,
    loops: BTreeMap<usize, LoopSpec>,
    entry: String,
    tailp: String,
    before: Vec<(String, String)>,
    map_hints: BTreeSet<usize>,
    trusted: bool,
    skip: bool,
    used: bool,
}
#[derive(Default, Clone)]
struct LoopSpec { inv: String, start: String, end: String, after: String, pre: String }

#[derive(Default)]
struct ModSpec { lean: bool, prelude: String, broadcast: Vec<String>, fns: BTreeMap<String, FnSpec>, drop_items: BTreeSet<String>, replace: String }

fn parse_spec(s: &str) -> ModSpec {
    let mut m = ModSpec::default();
    // sections: "#prelude", "#fn NAME [-> ret] [trusted]", "#attr", "#loop N", "#start N", "#end N", "#after N", "#entry", "#before TEXT", "#maphint N", "#drop NAME"
    let mut cur_fn: Option<String> = None;
    let mut sec = String::from("none");
    let mut secn = 0usize;
    let mut before_txt = String::new();
    let mut opens = 0usize;
    for line in s.lines() {
        if line.starts_with("//#") { continue; }
        if let Some(h) = line.strip_prefix('#').filter(|h| !h.starts_with('[') && !h.starts_with('!')) {
            let mut w = h.split_whitespace();
            let kw = w.next().unwrap_or("");
            let rest: Vec<&str> = w.collect();
            match kw {
                "lean" => m.lean = true,
                "prelude" => { sec = "prelude".into(); cur_fn = None; }
                "fn" => {
                    let name = rest[0].to_string();
                    let mut f = FnSpec::default();
                    let mut i = 1;
                    while i < rest.len() {
                        match rest[i] { "->" => { f.ret = Some(rest[i + 1].into()); i += 1; } "trusted" => f.trusted = true, "skip" => f.skip = true, _ => {} }
                        i += 1;
                    }
                    if m.fns.contains_key(&name) { panic!("duplicate spec {}", name); }
                    m.fns.insert(name.clone(), f);
                    cur_fn = Some(name);
                    sec = "spec".into();
                }
                "drop" => { m.drop_items.insert(rest[0].into()); sec = "none".into(); }
                "maphint" => { let n: usize = rest[0].parse().unwrap(); m.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap().map_hints.insert(n); }
                "attr" => sec = "attr".into(),
                "entry" => sec = "entry".into(),
                "tail" => sec = "tail".into(),
                "spec" => sec = "spec".into(),
                // "#find N x: PRED" - the loop of an iterator `find`: the first element satisfying PRED, or none
                "find" => {
                    sec = "none".into();
                    let n: usize = rest[0].parse().unwrap();
                    let t = h["find".len()..].trim(); let t = t[t.find(char::is_whitespace).unwrap()..].trim();
                    let (x, p) = t.split_once(':').expect("#find N x: PRED");
                    // substitute the element for x (the first occurrence is the trigger)
                    let pr = |e: &str| {
                        let (mut o, mut first, mut w) = (String::from("("), true, String::new());
                        for c in p.trim().chars().chain(" ".chars()) {
                            if c.is_alphanumeric() || c == '_' { w.push(c); continue; }
                            if w == x.trim() { if first { o.push_str(&format!("(#[trigger] {})", e)); first = false; } else { o.push_str(e); } } else { o.push_str(&w); }
                            w.clear(); o.push(c);
                        }
                        o.push(')'); o
                    };
                    let at = pr(&format!("__src{}@[__i]", n)); let atj = pr(&format!("__src{}@[__j]", n)); let at0 = at.replace("#[trigger] ", "");
                    m.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap().loops.entry(n).or_default().inv = format!(
                        "invariant_except_break __out{n} is None, forall|__i: int| 0 <= __i < __k{n} ==> !{at},\ninvariant __k{n} <= __src{n}.len(),\nensures match __out{n} {{ Some(__x) => exists|__i: int| 0 <= __i < __src{n}@.len() && #[trigger] __src{n}@[__i] == __x && {at0} && (forall|__j: int| 0 <= __j < __i ==> !{atj}), None => forall|__i: int| 0 <= __i < __src{n}@.len() ==> !{at} }},\n");
                }
                "loop" | "start" | "end" | "after" | "pre" => { sec = kw.into(); secn = rest[0].parse().unwrap(); }
                "before" => { sec = "before".into(); before_txt = h["before".len()..].trim().to_string(); m.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap().before.push((before_txt.clone(), String::new())); }
                _ => panic!("unknown section {}", line),
            }
            continue;
        }
        let mut l = format!("{}\n", line);
        // sugar: "? PAT <- EXPR" in a column-0 function = match EXPR { None => None, Some(PAT) => { .. up to the closing "}" in column 0
        if let Some(r) = line.trim_start().strip_prefix("? ") {
            let (pat, e) = r.split_once("<-").expect("? PAT <- EXPR");
            l = format!("match {} {{ None => None, Some({}) => {{\n", e.trim(), pat.trim());
            opens += 1;
        } else if line == "}" && opens > 0 { l = format!("{}}}\n", "}} ".repeat(opens)); opens = 0; }
        // sugar: "@reads SPEC [VIEW]": on success the value (seen as VIEW of v) and the rest are what SPEC says of the unread bytes; on failure SPEC is None
        if let Some(r) = line.strip_prefix("@reads ") {
            let (sp, view) = r.trim().split_once(' ').unwrap_or((r.trim(), "v"));
            l = format!("ensures match r {{ Ok(v) => {sp}(old(reader).rem()) == Some(({view}, final(reader).rem())), Err(_) => {sp}(old(reader).rem()) is None }}\n");
        }
        if sec == "prelude" {
            if let Some(b) = l.strip_prefix("broadcast use ") { m.broadcast.push(b.trim().trim_end_matches(';').trim().trim_start_matches('{').trim_end_matches('}').trim().to_string()); }
            else { m.prelude.push_str(&l); }
            continue;
        }
        if let Some(n) = &cur_fn {
            let f = m.fns.get_mut(n).unwrap();
            match sec.as_str() {
                "spec" => f.spec.push_str(&l),
                "attr" => f.attrs.push_str(&l),
                "entry" => f.entry.push_str(&l),
                "tail" => f.tailp.push_str(&l),
                "loop" => f.loops.entry(secn).or_default().inv.push_str(&l),
                "start" => f.loops.entry(secn).or_default().start.push_str(&l),
                "end" => f.loops.entry(secn).or_default().end.push_str(&l),
                "pre" => f.loops.entry(secn).or_default().pre.push_str(&l),
                "after" => f.loops.entry(secn).or_default().after.push_str(&l),
                "before" => f.before.last_mut().unwrap().1.push_str(&l),
                _ => {}
            }
        }
    }
    let _ = before_txt;
    m
}

#[derive(Clone)]
struct FnInfo {
    module: String,
    owner: Option<String>,       // type name
    trait_name: Option<String>,
    key: String,                 // key inside the module's spec file
    id: String,
    sig: Signature,
    block: Block,
    impl_generics: Option<Generics>,
    impl_self: Option<Type>,
    impl_trait: Option<Path>,
}

struct Module { path: String, items: Vec<Item>, spec: ModSpec }

fn cfg_drop(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            if s == "cfg(test)" || s.starts_with("cfg(feature") || s.contains("kani") || s.contains("onenote_verif") { return true; }
        }
        if a.path().is_ident("test") { return true; }
    }
    false
}

fn load(file: &FPath, dir: &FPath, path: &str, specdir: &FPath, out: &mut Vec<Module>) {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
    let f = parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
    let spec = spec_for(path, specdir);
    let mut items = vec![];
    let mut subs = vec![];
    for it in f.items {
        let attrs: &[Attribute] = match &it {
            Item::Mod(m) => &m.attrs, Item::Fn(m) => &m.attrs, Item::Impl(m) => &m.attrs, Item::Use(m) => &m.attrs,
            Item::Struct(m) => &m.attrs, Item::Enum(m) => &m.attrs, Item::Const(m) => &m.attrs, Item::Type(m) => &m.attrs, Item::Trait(m) => &m.attrs,
            Item::Macro(m) => &m.attrs, _ => &[],
        };
        if cfg_drop(attrs) { continue; }
        if let Item::Mod(m) = &it {
            match &m.content {
                None => subs.push(m.ident.to_string()),
                Some((_, its)) => { let p = if path.is_empty() { m.ident.to_string() } else { format!("{}::{}", path, m.ident) }; load_inline(&p, its, specdir, out); }
            }
            continue;
        }
        items.push(it);
    }
    out.push(Module { path: path.to_string(), items, spec });
    for s in subs {
        if s == "macros" || (path.is_empty() && s == "bin") { continue; }
        let f1 = dir.join(format!("{}.rs", s));
        let p = if path.is_empty() { s.clone() } else { format!("{}::{}", path, s) };
        if f1.exists() { load(&f1, &dir.join(&s), &p, specdir, out); }
        else { let d = dir.join(&s); load(&d.join("mod.rs"), &d, &p, specdir, out); }
    }
}

fn spec_for(path: &str, specdir: &FPath) -> ModSpec {
    let specf = specdir.join(if path.is_empty() { "lib.vs".to_string() } else { format!("{}.vs", path.replace("::", "__")) });
    std::fs::read_to_string(&specf).map(|s| parse_spec(&s)).unwrap_or_default()
}

fn load_inline(path: &str, its: &[Item], specdir: &FPath, out: &mut Vec<Module>) {
    let spec = spec_for(path, specdir);
    let mut items = vec![];
    for it in its {
        let attrs: &[Attribute] = match it { Item::Mod(m) => &m.attrs, Item::Fn(m) => &m.attrs, Item::Impl(m) => &m.attrs, Item::Use(m) => &m.attrs, Item::Struct(m) => &m.attrs, Item::Enum(m) => &m.attrs, _ => &[] };
        if cfg_drop(attrs) { continue; }
        if let Item::Mod(m) = it { if let Some((_, c)) = &m.content { load_inline(&format!("{}::{}", path, m.ident), c, specdir, out); } continue; }
        items.push(it.clone());
    }
    out.push(Module { path: path.to_string(), items, spec });
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        Type::Slice(s) => format!("[{}]", type_name(&s.elem)),
        t => t.to_token_stream().to_string(),
    }
}

struct Idents(BTreeSet<String>, Vec<Vec<String>>, BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { self.0.insert(m.method.to_string()); visit::visit_expr_method_call(self, m); }
    fn visit_path(&mut self, p: &'a Path) {
        self.1.push(p.segments.iter().map(|s| s.ident.to_string()).collect());
        visit::visit_path(self, p);
    }
}

const STD_METHODS: &[&str] = &["get", "iter", "into_iter", "len", "map", "push", "insert", "first", "last", "contains", "contains_key", "unwrap", "into", "clone", "and_then",
    "ok_or_else", "ok_or", "filter", "find", "position", "next", "take", "skip", "collect", "extend", "to_vec", "as_slice", "is_none", "is_some", "is_empty", "fmt", "eq", "hash", "from", "default", "values"];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (src, specdir, job, out, outmap) = (PathBuf::from(&args[1]), PathBuf::from(&args[2]), &args[3], &args[4], &args[5]);
    let mut mods = vec![];
    load(&src.join("lib.rs"), &src, "", &specdir, &mut mods);
    let jobt = std::fs::read_to_string(job).unwrap();
    let mut verify: Vec<String> = vec![];
    let mut demote: BTreeSet<String> = BTreeSet::new();
    let mut nospec: BTreeSet<String> = BTreeSet::new();
    for l in jobt.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.as_slice() { ["verify", p] => verify.push(p.to_string()), ["demote", p] => { demote.insert(p.to_string()); } ["nospec", p] => { nospec.insert(p.to_string()); } ["vacuity"] => { VACUITY.store(true, std::sync::atomic::Ordering::Relaxed); } ["vacuity", "requires"] => { VACUITY.store(true, std::sync::atomic::Ordering::Relaxed); VACUITY_REQ.store(true, std::sync::atomic::Ordering::Relaxed); } _ => {} }
    }

    // ---- tables
    let mut t = Tables::default();
    for m in &mods { for it in &m.items { if let Item::Type(a) = it { if a.ident != "Result" && a.ident != "Reader" { let (n, ty) = (a.ident.to_string(), (*a.ty).clone()); kind::ALIASES.with(|x| { x.borrow_mut().insert(n, ty); }); } } } }
    let mut fns: Vec<FnInfo> = vec![];
    let mut structs: BTreeMap<String, usize> = BTreeMap::new();
    for m in &mods {
        for it in &m.items {
            match it {
                Item::Fn(f) => {
                    let key = f.sig.ident.to_string();
                    fns.push(FnInfo { module: m.path.clone(), owner: None, trait_name: None, id: format!("{}::{}", m.path, key), key, sig: f.sig.clone(), block: (*f.block).clone(), impl_generics: None, impl_self: None, impl_trait: None });
                }
                Item::Impl(im) => {
                    let tn = type_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            if cfg_drop(&f.attrs) { continue; }
                            let key = match &tr { None => format!("{}::{}", tn, f.sig.ident), Some(tr) => format!("<{}:{}>::{}", tr, tn, f.sig.ident) };
                            fns.push(FnInfo { module: m.path.clone(), owner: Some(tn.clone()), trait_name: tr.clone(), id: format!("{}::{}", m.path, key), key, sig: f.sig.clone(), block: f.block.clone(), impl_generics: Some(im.generics.clone()), impl_self: Some((*im.self_ty).clone()), impl_trait: im.trait_.as_ref().map(|(_, p, _)| p.clone()) });
                        }
                    }
                }
                Item::Struct(s) => {
                    *structs.entry(s.ident.to_string()).or_default() += 1;
                    for (i, f) in s.fields.iter().enumerate() {
                        let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                        let k = kind_ty(&f.ty);
                        t.qfields.insert(format!("{}.{}", s.ident, n), k.clone());
                        match t.fields.get(&n) { None => { t.fields.insert(n, Some(k)); } Some(Some(o)) if *o == k => {} _ => { t.fields.insert(n, None); } }
                    }
                }
                _ => {}
            }
        }
    }
    // ambiguous struct names (Data): their qualified fields are unreliable when they differ
    let dup: BTreeSet<String> = structs.iter().filter(|(_, n)| **n > 1).map(|(k, _)| k.clone()).collect();
    if !dup.is_empty() {
        let mut seen: HashMap<String, K> = HashMap::new();
        let mut bad: BTreeSet<String> = BTreeSet::new();
        for m in &mods { for it in &m.items { if let Item::Struct(s) = it { if dup.contains(&s.ident.to_string()) {
            for (i, f) in s.fields.iter().enumerate() {
                let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                let k = kind_ty(&f.ty); let key = format!("{}.{}", s.ident, n);
                match seen.get(&key) { Some(o) if *o != k => { bad.insert(key); } _ => { seen.insert(key, k); } }
            } } } } }
        for b in bad { t.qfields.remove(&b); }
    }
    t.qfns.insert("Uuid::parse_str".into(), K::Res(Box::new(K::Ty("Uuid".into()))));
    for m in &mods { for it in &m.items { if let Item::Enum(e) = it { if e.variants.iter().all(|v| v.fields.is_empty()) && e.variants.iter().any(|v| v.discriminant.is_some()) { t.enums.insert(e.ident.to_string()); } } } }
    let mut fnptr: BTreeMap<String, usize> = BTreeMap::new();
    for f in &fns {
        let rk = match &f.sig.output { ReturnType::Default => K::Unk, ReturnType::Type(_, ty) => { let k = kind_ty(ty); if k == K::Ty("Self".into()) { K::Ty(f.owner.clone().unwrap_or_default()) } else { k } } };
        let n = f.sig.ident.to_string();
        if let Some(o) = &f.owner { t.qfns.insert(format!("{}::{}", o.trim_start_matches('&'), n), rk.clone()); }
        else {
            let lastm = f.module.rsplit("::").next().unwrap_or("").to_string();
            t.qfns.insert(format!("{}::{}", lastm, n), rk.clone());
        }
        match t.fns.get(&n) { None => { t.fns.insert(n.clone(), Some(rk)); } Some(Some(o)) if *o == rk => {} _ => { t.fns.insert(n.clone(), None); } }
        for (i, a) in f.sig.inputs.iter().enumerate() {
            if let FnArg::Typed(p) = a {
                if let Type::BareFn(_) = &*p.ty { fnptr.insert(format!("{}::{}", f.owner.clone().unwrap_or_default(), n), i - if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) { 1 } else { 0 }); }
            }
        }
    }

    // ---- which functions
    let spec_of = |f: &FnInfo| -> Option<&FnSpec> { mods.iter().find(|m| m.path == f.module).and_then(|m| m.spec.fns.get(&f.key)).filter(|_| !nospec.contains(&f.id)) };
    let matches_pat = |id: &str| verify.iter().any(|p| if let Some(pre) = p.strip_suffix('*') { id.starts_with(pre) } else { id == p });
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Mode { Verify, Stub, Auto }
    let mut mode: BTreeMap<usize, Mode> = BTreeMap::new();
    let mut todo: Vec<usize> = vec![];
    for (i, f) in fns.iter().enumerate() {
        let sp = spec_of(f);
        if f.trait_name.as_deref().map_or(false, |t| matches!(t, "Debug" | "Display" | "LowerHex")) { continue; }
        if matches_pat(&f.id) && sp.map_or(true, |s| !s.skip) && !f.module.is_empty() && f.module != "errors" {
            let m = if demote.contains(&f.id) || nospec.contains(&f.id) || sp.map_or(false, |s| s.trusted) { Mode::Stub } else { Mode::Verify };
            mode.insert(i, m);
            if m == Mode::Verify { todo.push(i); }
        }
    }
    while let Some(i) = todo.pop() {
        let f = &fns[i];
        let mut ids = Idents(Default::default(), vec![], Default::default());
        { let mut b = f.block.clone(); Pre { n: 0 }.visit_block_mut(&mut b); ids.visit_block(&b); }
        if let Some(m) = mods.iter().find(|m| m.path == f.module) {
            for it in &m.items { if let Item::Use(u) = it {
                let mut l = vec![]; flatten_use(&u.tree, vec![], &mut l);
                for (q, n) in l { if q.last() != Some(&n) && n != "_" { for p in ids.1.iter_mut() { if p[0] == n { let mut r = q.clone(); r.extend(p[1..].iter().cloned()); *p = r; } } } }
            } }
        }
        for (j, g) in fns.iter().enumerate() {
            if mode.contains_key(&j) { continue; }
            if g.trait_name.as_deref().map_or(false, |t| matches!(t, "Debug" | "Display" | "LowerHex" | "From")) { continue; }
            if g.module == "errors" { continue; }
            let n = g.sig.ident.to_string();
            let has_self = matches!(g.sig.inputs.first(), Some(FnArg::Receiver(_)));
            let spec = spec_of(g);
            let mut hit = false;
            if has_self && ids.0.contains(&n) { hit = spec.is_some() || !STD_METHODS.contains(&n.as_str()); }
            for p in &ids.1 {
                if p.last() != Some(&n) { continue; }
                if p.len() == 1 { if g.owner.is_none() && (g.module == f.module || imports(&mods, &f.module, &n, &g.module)) { hit = true; } }
                else {
                    let q = &p[p.len() - 2];
                    let q = if q == "Self" { f.owner.clone().unwrap_or_default() } else { q.clone() };
                    match &g.owner { Some(o) => if *o == q { hit = true; }, None => if g.module.rsplit("::").next() == Some(q.as_str()) { hit = true; } }
                }
            }
            if hit && spec.map_or(false, |s| s.skip) { hit = false; }
            if hit {
                let m = if spec.is_some() || demote.contains(&g.id) || nospec.contains(&g.id) { Mode::Stub } else { Mode::Auto };
                mode.insert(j, m);
                if m == Mode::Auto { todo.push(j); }
            }
        }
    }

    // ---- emit functions (fn-pointer instances after the first pass)
    let mut text: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut notes: Vec<String> = vec![];
    let mut instances: BTreeSet<(String, String)> = BTreeSet::new();
    let mut info_lines: Vec<String> = vec![];
    let order: Vec<usize> = mode.keys().cloned().collect();
    for &i in &order {
        let f = &fns[i];
        let k = format!("{}::{}", f.owner.clone().unwrap_or_default(), f.sig.ident);
        if fnptr.contains_key(&k) { continue; }
        let (s, inst) = emit_fn(f, mode[&i] == Mode::Stub, spec_of(f), &t, &fnptr, &mut notes, None, &mut info_lines, mode[&i] == Mode::Auto);
        instances.extend(inst);
        text.entry(i).or_default().push(s);
    }
    for &i in &order {
        let f = &fns[i];
        let k = format!("{}::{}", f.owner.clone().unwrap_or_default(), f.sig.ident);
        if !fnptr.contains_key(&k) { continue; }
        for (_, arg) in instances.iter().filter(|(q, _)| *q == k) {
            let tag = arg.rsplit("::").next().unwrap().trim().to_string();
            let mk = format!("{}__{}", f.key, tag);
            let sp = mods.iter().find(|m| m.path == f.module).and_then(|m| m.spec.fns.get(&mk));
            let (s, _) = emit_fn(f, mode[&i] == Mode::Stub, sp, &t, &fnptr, &mut notes, Some((fnptr[&k], arg.clone(), tag)), &mut info_lines, mode[&i] == Mode::Auto && sp.is_none());
            text.entry(i).or_default().push(s);
        }
    }

    // ---- emitted names per module, for use filtering
    let mut names: HashMap<String, BTreeSet<String>> = HashMap::new();
    let ext_text = std::fs::read_to_string(specdir.join("ext.rs")).unwrap();
    for l in ext_text.lines() {
        let w: Vec<&str> = l.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
        if w.len() >= 3 && w[0] == "pub" && matches!(w[1], "struct" | "enum" | "trait" | "fn" | "const" | "type") { names.entry("ext".into()).or_default().insert(w[2].trim_end_matches(':').to_string()); }
    }
    for m in &mods {
        let e = names.entry(m.path.clone()).or_default();
        for it in &m.items {
            match it {
                Item::Struct(s) => { e.insert(s.ident.to_string()); }
                Item::Enum(s) => { e.insert(s.ident.to_string()); }
                Item::Type(s) => { e.insert(s.ident.to_string()); }
                Item::Const(s) => { e.insert(s.ident.to_string()); }
                Item::Trait(s) => { e.insert(s.ident.to_string()); }
                _ => {}
            }
        }
        for d in &m.spec.drop_items { e.remove(d); }
        let (parent, last) = match m.path.rsplit_once("::") { Some((p, l)) => (p.to_string(), l.to_string()), None => (String::new(), m.path.clone()) };
        if !last.is_empty() { names.entry(parent).or_default().insert(last); }
    }
    for &i in text.keys() { let f = &fns[i]; if f.owner.is_none() { names.entry(f.module.clone()).or_default().insert(f.sig.ident.to_string()); } }
    // re-exports (one round of fixpoint is enough for this crate; do three)
    for _ in 0..3 {
        let snap = names.clone();
        for m in &mods {
            for it in &m.items {
                if let Item::Use(u) = it {
                    if matches!(u.vis, Visibility::Inherited) { continue; }
                    let mut leaves = vec![]; flatten_use(&u.tree, vec![], &mut leaves);
                    for (p, n) in leaves { if p.first().map_or(false, |x| x == "crate") {
                        let mp = p[1..p.len() - 1].join("::");
                        if snap.get(&mp).map_or(false, |s| s.contains(p.last().unwrap())) { names.entry(m.path.clone()).or_default().insert(n.clone()); }
                    } }
                }
            }
        }
    }

    // ---- write
    let mut o = String::new();
    o.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, non_snake_case, unreachable_code, unused_assignments)]\nuse vstd::prelude::*;\n");
    o.push_str(&std::fs::read_to_string(specdir.join("ext.rs")).unwrap());
    o.push_str("\nverus! {\n");
    let mut keys: Vec<String> = vec![];
    emit_mod("", &mods, &names, &fns, &text, &mut o, &mut keys, &dup);
    o.push_str("pub mod vxkeys { use vstd::prelude::*; use vstd::std_specs::hash::*;\n");
    for (i, k) in keys.iter().enumerate() { o.push_str(&format!("pub broadcast axiom fn key_{}() ensures #[trigger] obeys_key_model::<{}>();\n", i, k)); }
    o.push_str("pub broadcast axiom fn key_pair<A, B>() ensures obeys_key_model::<A>() && obeys_key_model::<B>() ==> #[trigger] obeys_key_model::<(A, B)>();\n");
    o.push_str("pub broadcast group keys { ");
    for i in 0..keys.len() { o.push_str(&format!("key_{}, ", i)); }
    o.push_str("key_pair }\n}\n");
    o.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(out, &o).unwrap();

    // ---- map: line ranges of every emitted function
    let mut mp = String::new();
    let mut cur: Option<(String, usize)> = None;
    for (ln, l) in o.lines().enumerate() {
        if let Some(x) = l.trim().strip_prefix("/*@FN ") { cur = Some((x.trim_end_matches("*/").trim().to_string(), ln + 1)); }
        if l.trim() == "/*@END*/" { if let Some((n, s)) = cur.take() { mp.push_str(&format!("fn {} {} {}\n", n, s, ln + 1)); } }
    }
    for l in info_lines { mp.push_str(&l); mp.push('\n'); }
    for n in notes { mp.push_str(&format!("note {}\n", n)); }
    // spec'd functions that no longer exist
    for m in &mods { for (k, _) in &m.spec.fns {
        let id = format!("{}::{}", m.path, k);
        let base = k.split("__").next().unwrap();
        if !fns.iter().any(|f| f.module == m.path && (f.key == *k || f.key == base)) { mp.push_str(&format!("lost {}\n", id)); }
    } }
    std::fs::write(outmap, mp).unwrap();
}

fn imports(mods: &[Module], module: &str, name: &str, target: &str) -> bool {
    let m = match mods.iter().find(|m| m.path == module) { Some(m) => m, None => return false };
    for it in &m.items {
        if let Item::Use(u) = it {
            let mut l = vec![]; flatten_use(&u.tree, vec![], &mut l);
            for (p, n) in l { if n == name && p.first().map_or(false, |x| x == "crate") && p[1..p.len() - 1].join("::") == target { return true; } }
        }
    }
    false
}

fn flatten_use(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => { let mut q = pre; q.push(p.ident.to_string()); flatten_use(&p.tree, q, out) }
        UseTree::Name(n) => { let mut q = pre; let nm = n.ident.to_string(); if nm == "self" { let l = q.last().unwrap().clone(); out.push((q, l)); } else { q.push(nm.clone()); out.push((q, nm)); } }
        UseTree::Rename(n) => { let mut q = pre; q.push(n.ident.to_string()); out.push((q, n.rename.to_string())) }
        UseTree::Glob(_) => { let mut q = pre; q.push("*".into()); out.push((q, "*".into())) }
        UseTree::Group(g) => for x in &g.items { flatten_use(x, pre.clone(), out) },
    }
}

fn strip_vis_generics(g: &Generics) -> Generics { g.clone() }

/// type parameters bounded by Iterator/IntoIterator become Vec<Item>
/// emit `assert(false)` at the start of every verified body: a body where that is accepted has contradictory preconditions
static VACUITY_REQ: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static VACUITY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct Subst { map: HashMap<String, Type> }
impl VisitMut for Subst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t { if let Some(i) = p.path.get_ident() { if let Some(r) = self.map.get(&i.to_string()) { *t = r.clone(); return; } } }
        if let Type::ImplTrait(_) = t {
            if let Some(it) = iter_item(t) { let mut it = it; self.visit_type_mut(&mut it); *t = parse_quote!(Vec<#it>); return; }
        }
        visit_mut::visit_type_mut(self, t);
        // &str -> &String-like view type
    }
}
fn bounds_item<'a>(b: impl Iterator<Item = &'a TypeParamBound>) -> Option<Type> {
    for b in b {
        if let TypeParamBound::Trait(tb) = b {
            let s = tb.path.segments.last().unwrap();
            if matches!(s.ident.to_string().as_str(), "Iterator" | "IntoIterator" | "ExactSizeIterator" | "DoubleEndedIterator") {
                if let PathArguments::AngleBracketed(a) = &s.arguments { for g in &a.args { if let GenericArgument::AssocType(at) = g { return Some(at.ty.clone()); } } }
            }
        }
    }
    None
}
fn iter_item(t: &Type) -> Option<Type> { if let Type::ImplTrait(i) = t { bounds_item(i.bounds.iter()) } else { None } }

fn emit_fn(f: &FnInfo, stub: bool, spec: Option<&FnSpec>, t: &Tables, fnptr: &BTreeMap<String, usize>, notes: &mut Vec<String>, inst: Option<(usize, String, String)>, info: &mut Vec<String>, auto: bool) -> (String, Vec<(String, String)>) {
    let empty = FnSpec::default();
    let sp = spec.unwrap_or(&empty);
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    let mut id = f.id.clone();
    // generic iterator params
    let mut sub = Subst { map: HashMap::new() };
    let mut keep = vec![];
    for p in sig.generics.params.iter() {
        if let GenericParam::Type(tp) = p { if let Some(it) = bounds_item(tp.bounds.iter()) { sub.map.insert(tp.ident.to_string(), parse_quote!(Vec<#it>)); continue; } }
        keep.push(p.clone());
    }
    sig.generics.params = keep.into_iter().collect();
    sub.visit_signature_mut(&mut sig);
    if let Some((i, arg, tag)) = &inst {
        let off = if matches!(sig.inputs.first(), Some(FnArg::Receiver(_))) { 1 } else { 0 };
        let mut ins: Vec<FnArg> = sig.inputs.iter().cloned().collect();
        let p = ins.remove(i + off);
        sig.inputs = ins.into_iter().collect();
        let pn = if let FnArg::Typed(p) = p { p.pat.to_token_stream().to_string() } else { String::new() };
        struct R(String, Expr);
        impl VisitMut for R { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Path(p) = e { if p.path.is_ident(&self.0) { *e = self.1.clone(); return; } } visit_mut::visit_expr_mut(self, e); } }
        let ae: Expr = parse_str(arg).unwrap();
        R(pn, ae).visit_block_mut(&mut block);
        sig.ident = format_ident!("{}__{}", sig.ident, tag);
        id = format!("{}__{}", id, tag);
    }
    // body
    let mut env: Env = Env::new();
    if let Some(o) = &f.owner { env.insert("Self".into(), K::Ty(o.clone())); env.insert("self".into(), K::Ty(o.clone())); }
    for a in sig.inputs.iter() { if let FnArg::Typed(p) = a { bind(&p.pat, &kind_ty(&p.ty), &mut env); } }
    for (n, ty) in &sub.map { let _ = (n, ty); }
    for a in f.sig.inputs.iter() { if let FnArg::Typed(p) = a { if let Type::Path(tp) = &*p.ty { if let Some(i) = tp.path.get_ident() { if sub.map.contains_key(&i.to_string()) { bind(&p.pat, &K::Iter(Box::new(K::Unk)), &mut env); } } }
        if iter_item(&p.ty).is_some() { bind(&p.pat, &kind_ty(&p.ty), &mut env); } } }
    let mut insts = vec![];
    let mut body_s = String::new();
    let mut nloops = 0;
    let mut callees: BTreeSet<String> = BTreeSet::new();
    // a function without a precondition cannot have a contradictory one
    let mut stub = stub || VACUITY_REQ.load(std::sync::atomic::Ordering::Relaxed) && !auto && spec.is_some_and(|x| !x.spec.contains("requires"));
    if !stub {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut block = block.clone();
        Pre { n: 0 }.visit_block_mut(&mut block);
        let mut tx = Tx { t, self_ty: f.owner.clone(), loops: 0, uniq: 0, map_hints: sp.map_hints.clone(), fnptr, instances: vec![], notes: Default::default(), closure_forbid: false, refs: Default::default(), ref_params: f.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(p) if matches!(&*p.ty, Type::Reference(_)) => Some(p.pat.to_token_stream().to_string()), _ => None }).collect(), ret_kind: match &sig.output { ReturnType::Type(_, t) => kind_ty(t), _ => K::Unk } };
        let tail_res = matches!(tx.ret_kind, K::Res(_));
        let mut b = tx.block(&block, &env, tail_res);
        tx::SlicePats(0).visit_block_mut(&mut b);
        insts = tx.instances.clone();
        nloops = tx.loops;
        for n in tx.notes.iter() { notes.push(format!("{} {}", id, n)); }
        body_s = print::print(b.to_token_stream());
        let mut ids = Idents(Default::default(), vec![], Default::default());
        ids.visit_block(&b);
        callees = ids.0.clone();
        for p in ids.1 { if let Some(l) = p.last() { callees.insert(l.clone()); } }
        }));
        if r.is_err() { stub = true; notes.push(format!("{} UNSUPPORTED extraction failed", id)); }
    }
    // splice
    let mut shape = String::new();
    for n in 0..nloops { shape.push(if body_s.contains(&format!("vmark_inv!({}, range);", n)) { 'r' } else if body_s.contains(&format!("vmark_inv!({}, vec);", n)) { 'v' } else { 'w' }); }
    let lost_anchor = std::cell::Cell::new(false);
    let vac = VACUITY.load(std::sync::atomic::Ordering::Relaxed) && !auto && spec.is_some();
    let re_splice = |body: String| -> String {
        let mut s = body;
        for n in 0..nloops {
            let ls = sp.loops.get(&n).cloned().unwrap_or_default();
            for kind in ["", ", range", ", vec"] {
                let mark = format!("vmark_inv!({}{});", n, kind);
                if let Some(p) = s.find(&mark) {
                    // back up to the opening brace
                    let br = s[..p].rfind('{').unwrap();
                    let mut auto_inv = String::new();
                    let mut has_dec = ls.inv.contains("decreases");
                    match kind {
                        ", range" => { auto_inv = format!("__beg{0} <= __k{0}, __k{0} <= __end{0} || __k{0} == __beg{0},", n); }
                        ", vec" => { auto_inv = format!("__k{0} <= __src{0}.len(),", n); }
                        _ => {}
                    }
                    let mut inv = ls.inv.clone();
                    let mut dec = String::new();
                    if let Some(q) = inv.find("decreases") { dec = inv[q..].to_string(); inv.truncate(q); }
                    // invariant_except_break / ensures sections may be given explicitly
                    let mut clause = String::new();
                    let inv_t = inv.trim();
                    if inv_t.starts_with("invariant_except_break") || inv_t.starts_with("ensures") || inv_t.starts_with("invariant") {
                        clause.push_str(&format!(" {}\n", inv_t.replacen("invariant ", &format!("invariant {} ", auto_inv), 1)));
                    } else if !(inv_t.is_empty() && auto_inv.is_empty()) {
                        clause.push_str(&format!(" invariant {} {}\n", auto_inv, inv_t));
                    }
                    if !has_dec { match kind { ", range" => { dec = format!("decreases __end{0} - __k{0}", n); has_dec = true; } ", vec" => { dec = format!("decreases __src{0}.len() - __k{0}", n); has_dec = true; } _ => {} } }
                    let _ = has_dec;
                    clause.push_str(&format!(" {}\n", dec));
                    let mut ns = s[..br].to_string();
                    ns.push_str(&clause);
                    ns.push_str("{\n");
                    ns.push_str(&ls.start);
                    ns.push_str(&s[p + mark.len()..]);
                    s = ns;
                }
            }
            s = s.replace(&format!("vmark_end!({});", n), &ls.end);
            s = s.replace(&format!("vmark_after!({});", n), &ls.after);
            s = s.replace(&format!("vmark_pre!({});", n), &ls.pre);
        }
        for (pat, txt) in &sp.before {
            // insert before the (first) line containing the text
            let (pat, nth) = match pat.rsplit_once(" @") { Some((p, n)) if n.parse::<usize>().is_ok() => (p.to_string(), n.parse::<usize>().unwrap()), _ => (pat.clone(), 0) };
            let mut o = String::new();
            let mut c = 0; let mut done = false;
            for l in s.lines() {
                if !done && l.replace(' ', "").contains(&pat.replace(' ', "")) { if c == nth { o.push_str(txt); done = true; } c += 1; }
                o.push_str(l); o.push('\n');
            }
            if !done { lost_anchor.set(true); }
            s = o;
        }
        if !sp.entry.is_empty() { let p = s.find('{').unwrap(); s.insert_str(p + 1, &format!("\n{}{}", sp.entry, if vac { "\nproof { assert(false); }\n" } else { "" })); } else if vac { let p = s.find('{').unwrap(); s.insert_str(p + 1, "\nproof { assert(false); }\n"); }
        s
    };
    let body_s = if stub { "{ unimplemented!() }".to_string() } else { re_splice(body_s) };
    // signature
    let mut s = String::new();
    s.push_str(&format!("/*@FN {}*/\n", id));
    info.push(format!("info {} {} loops={} specloops={} shape={}{} callees={}", id, if stub { "stub" } else if auto { "auto" } else if spec.is_some() { "verify" } else { "nospec" }, nloops, sp.loops.keys().max().map(|x| x + 1).unwrap_or(0), if shape.is_empty() { "-" } else { &shape }, if lost_anchor.get() { "!" } else { "" }, callees.into_iter().collect::<Vec<_>>().join(",")));
    if stub { s.push_str("#[verifier::external_body]\n"); } else { s.push_str("#[verifier::loop_isolation(false)]\n"); if spec.map_or(false, |f| f.loops.values().any(|l| l.inv.contains("ensures") || l.inv.contains("invariant_except_break"))) { s.push_str("#[verifier::allow_complex_invariants]\n"); } }
    for l in sp.attrs.lines() { if !stub || !l.contains("rlimit") && !l.contains("spinoff") && !l.contains("decreases") { s.push_str(l); s.push('\n'); } }
    let vis = if f.trait_name.is_some() { "" } else { "pub " };
    let name = &sig.ident;
    let (ig, _, wc) = sig.generics.split_for_impl();
    let ins = sig.inputs.iter().map(|a| match a { FnArg::Typed(p) if matches!(&*p.pat, Pat::Wild(_)) => { let ty = &p.ty; quote!(_w: #ty) } a => quote!(#a) });
    let igs = print::print(quote!(#ig));
    let inss = print::print(quote!(#(#ins),*));
    s.push_str(&format!("{}fn {}{}({})", vis, name, igs, inss));
    match &sig.output {
        ReturnType::Default => {}
        ReturnType::Type(_, ty) => { s.push_str(&format!(" -> ({}: {})", sp.ret.clone().unwrap_or("r".into()), print::print(quote!(#ty)))); }
    }
    s.push_str(&print::print(quote!(#wc)));
    s.push('\n');
    let mut st = sp.spec.clone();
    if stub { if let Some(q) = st.find("decreases") { st.truncate(q); } }
    s.push_str(&st);
    s.push_str(&body_s);
    s.push_str("\n/*@END*/\n");
    (s, insts)
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut d = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| { d.insert(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
        }
    }
    d
}

fn emit_mod(path: &str, mods: &[Module], names: &HashMap<String, BTreeSet<String>>, fns: &[FnInfo], text: &BTreeMap<usize, Vec<String>>, o: &mut String, keys: &mut Vec<String>, dup: &BTreeSet<String>) {
    let m = mods.iter().find(|m| m.path == path).unwrap();
    if path != "" {
        let last = path.rsplit("::").next().unwrap();
        o.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\n#[allow(unused_imports)] use crate::ext::{{VxIter as _, VxMap as _, VxExtend as _, VxEntry as _, VxEntryPush as _, VxSlice as _, VxText as _, VxHas as _}};\n", last));
        o.push_str(&format!("broadcast use {{vstd::std_specs::hash::group_hash_axioms, crate::vxkeys::keys, crate::ext::group_ext{}{}}};\n", if m.spec.lean { "" } else { ", crate::ext::adv_is_skip" }, m.spec.broadcast.iter().map(|b| format!(", {}", b)).collect::<String>()));
    }
    if path == "" { o.push_str("broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::vxkeys::keys};\n"); }
    for it in &m.items {
        match it {
            Item::Use(u) => {
                if path == "" { continue; }
                let mut l = vec![]; flatten_use(&u.tree, vec![], &mut l);
                for (p, n) in l {
                    if let Some(q) = map_use(&p, path, names) {
                        if q.last().unwrap() == &n || n == "*" { o.push_str(&format!("pub use {};\n", q.join("::"))); } else { o.push_str(&format!("pub use {} as {};\n", q.join("::"), n)); }
                    }
                }
            }
            Item::Type(ty) => { if m.spec.drop_items.contains(&ty.ident.to_string()) { continue; } let mut ty = ty.clone(); ty.attrs.clear(); ty.vis = parse_quote!(pub); o.push_str(&print::print(ty.to_token_stream())); o.push('\n'); }
            Item::Const(c) => {
                if m.spec.drop_items.contains(&c.ident.to_string()) { continue; }
                let mut c = c.clone(); c.attrs.clear(); c.vis = parse_quote!(pub); Pre { n: 0 }.visit_expr_mut(&mut c.expr); o.push_str(&print::print(c.to_token_stream())); o.push('\n'); }
            Item::Struct(s) => {
                if m.spec.drop_items.contains(&s.ident.to_string()) { continue; }
                let d = derives(&s.attrs);
                let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); errtype(path, &mut f.ty); }
                if path == "errors" {
                    if s.ident == "Error" { s = parse_quote!(pub struct Error { pub kind: ErrorKind }); }
                }
                emit_type(path, &s.ident.to_string(), &s.generics, &d, s.to_token_stream(), o, keys, dup);
            }
            Item::Enum(s) => {
                if m.spec.drop_items.contains(&s.ident.to_string()) { continue; }
                let d = derives(&s.attrs);
                let mut s = s.clone(); s.attrs.retain(|a| a.path().is_ident("repr")); s.vis = parse_quote!(pub);
                let mut discs: Vec<(String, Option<Expr>)> = vec![];
                let mut fieldless = true;
                let dflt = s.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).map(|v| v.ident.clone());
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() { f.attrs.clear(); if path == "errors" { f.ty = parse_quote!(crate::ext::Msg); } }
                    if !v.fields.is_empty() { fieldless = false; }
                    discs.push((v.ident.to_string(), v.discriminant.as_ref().map(|x| x.1.clone())));
                }
                if fieldless { for v in s.variants.iter_mut() { v.discriminant = None; } s.attrs.clear(); }
                let mut d = d;
                if fieldless { d.insert("Copy".into()); d.insert("Clone".into()); }
                emit_type(path, &s.ident.to_string(), &s.generics, &d, s.to_token_stream(), o, keys, dup);
                if let Some(v) = dflt { let n = &s.ident; o.push_str(&print::print(quote!(impl crate::ext::VxDefault for #n { open spec fn vx_is_default(&self) -> bool { *self == #n::#v } fn vx_default() -> (r: #n) { #n::#v } }))); o.push('\n'); }
                if fieldless && discs.iter().any(|d| d.1.is_some()) || d.contains("Primitive") { emit_prim(&s.ident.to_string(), &discs, o); }
            }
            Item::Trait(tr) => {
                if m.spec.drop_items.contains(&tr.ident.to_string()) { continue; }
                let mut tr = tr.clone(); tr.attrs.clear(); tr.vis = parse_quote!(pub);
                o.push_str(&print::print(tr.to_token_stream())); o.push('\n');
            }
            _ => {}
        }
    }
    if path == "errors" {
        o.push_str("impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: ErrorKind) -> Error { Error { kind: k } } }\n");
        o.push_str("impl From<ErrorKind> for Error { fn from(kind: ErrorKind) -> (r: Error) { Error { kind } } }\n");
        o.push_str("impl From<crate::ext::IoError> for Error { #[verifier::external_body] fn from(e: crate::ext::IoError) -> (r: Error) { unimplemented!() } }\n");
        o.push_str("impl From<crate::ext::Utf16Error> for Error { #[verifier::external_body] fn from(e: crate::ext::Utf16Error) -> (r: Error) { unimplemented!() } }\n");
    }
    o.push_str(&format!("/*@FN prelude:{}*/\n", path));
    o.push_str(&m.spec.prelude);
    o.push_str("\n/*@END*/\n");
    // functions grouped by impl
    for (i, f) in fns.iter().enumerate() {
        if f.module != path { continue; }
        let Some(ts) = text.get(&i) else { continue };
        for tx in ts {
            match &f.owner {
                None => o.push_str(tx),
                Some(_) => {
                    let g = strip_vis_generics(f.impl_generics.as_ref().unwrap());
                    let (ig, _, wc) = g.split_for_impl();
                    let st = f.impl_self.as_ref().unwrap();
                    match &f.impl_trait {
                        None => o.push_str(&print::print(quote!(impl #ig #st #wc))),
                        Some(tr) => o.push_str(&print::print(quote!(impl #ig #tr for #st #wc))),
                    }
                    o.push_str(" {\n"); o.push_str(tx); o.push_str("}\n");
                }
            }
        }
    }
    // children
    let mut kids: Vec<&str> = mods.iter().filter(|c| c.path != "" && match c.path.rsplit_once("::") { Some((p, _)) => p == path, None => path == "" }).map(|c| c.path.as_str()).collect();
    kids.sort();
    for k in kids { emit_mod(k, mods, names, fns, text, o, keys, dup); }
    if path != "" { o.push_str("}\n"); }
}

fn errtype(path: &str, _t: &mut Type) { let _ = path; }

fn ext_use(p: &[String], names: &HashMap<String, BTreeSet<String>>) -> Option<Vec<String>> {
    let l = p.last().unwrap();
    if names.get("ext").map_or(false, |s| s.contains(l)) { Some(vec!["crate".into(), "ext".into(), l.clone()]) } else { None }
}

fn map_use(p: &[String], here: &str, names: &HashMap<String, BTreeSet<String>>) -> Option<Vec<String>> {
    let root = p[0].as_str();
    match root {
        "crate" => {
            let mp = p[1..p.len() - 1].join("::");
            let last = p.last().unwrap();
            if last == "*" { return Some(p.to_vec()); }
            if names.get(&mp).map_or(false, |s| s.contains(last)) { Some(p.to_vec()) } else { None }
        }
        "self" | "super" => {
            let base: Vec<String> = if root == "self" { here.split("::").map(|s| s.to_string()).collect() } else { let mut v: Vec<String> = here.split("::").map(|s| s.to_string()).collect(); v.pop(); v };
            let mut q = vec!["crate".to_string()]; q.extend(base); q.extend(p[1..].iter().cloned());
            map_use(&q, here, names)
        }
        "std" | "core" => {
            match p.get(1).map(|s| s.as_str()) {
                Some("collections") => Some(p.to_vec()),
                Some("borrow") | Some("fmt") | Some("error") | Some("backtrace") => None,
                Some("path") | Some("ffi") | Some("char") | Some("fs") | Some("io") => ext_use(p, names),
                _ => None,
            }
        }
        "bytes" | "uuid" | "widestring" | "sanitise_file_name" | "encoding_rs" => ext_use(p, names),
        "itertools" | "num_traits" | "enum_primitive_derive" | "thiserror" => None,
        _ => { let last = p.last().unwrap(); let mp = format!("{}{}{}", here, if p.len() > 1 { "::" } else { "" }, p[..p.len() - 1].join("::")); if names.get(&mp).map_or(false, |s| s.contains(last)) { Some(p.to_vec()) } else { None } }
    }
}

fn emit_type(path: &str, name: &str, g: &Generics, d: &BTreeSet<String>, toks: TokenStream, o: &mut String, keys: &mut Vec<String>, _dup: &BTreeSet<String>) {
    let mut ds = vec![];
    let copy = d.contains("Copy");
    if copy { ds.push("Clone"); ds.push("Copy"); }
    if d.contains("Hash") { ds.push("Hash"); }
    if d.contains("Eq") { ds.push("Eq"); }
    if !ds.is_empty() { o.push_str(&format!("#[derive({})]\n", ds.join(", "))); }
    o.push_str(&print::print(toks));
    o.push('\n');
    let (ig, tg, wc) = g.split_for_impl();
    let idn = Ident::new(name, Span::call_site());
    if d.contains("PartialEq") {
        o.push_str(&print::print(quote!(impl #ig vstd::std_specs::cmp::PartialEqSpecImpl for #idn #tg #wc { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } })));
        o.push_str(&format!("\n{} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n", print::print(quote!(impl #ig PartialEq for #idn #tg #wc))));
    }
    if d.contains("Clone") && !copy {
        o.push_str(&format!("{} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n", print::print(quote!(impl #ig Clone for #idn #tg #wc))));
    }
    if d.contains("Hash") && g.params.is_empty() { keys.push(if path.is_empty() { format!("crate::{}", name) } else { format!("crate::{}::{}", path, name) }); }
}

fn emit_prim(name: &str, discs: &[(String, Option<Expr>)], o: &mut String) {
    let mut vals: Vec<(String, String)> = vec![];
    let mut next: i128 = 0;
    for (v, e) in discs {
        let val = match e {
            Some(Expr::Lit(ExprLit { lit: Lit::Int(i), .. })) => i.base10_parse::<i128>().unwrap_or(next),
            Some(_) => { o.push_str("vx_unsupported_discriminant!();"); next }
            None => next,
        };
        vals.push((v.clone(), val.to_string()));
        next = val + 1;
    }
    o.push_str(&format!("impl {} {{\npub open spec fn vx_disc(self) -> int {{ match self {{ ", name));
    for (v, x) in &vals { o.push_str(&format!("{}::{} => {}, ", name, v, x)); }
    o.push_str("} }\npub open spec fn vx_of(n: int) -> Option<Self> { ");
    for (v, x) in &vals { o.push_str(&format!("if n == {} {{ Some({}::{}) }} else ", x, name, v)); }
    o.push_str("{ None } }\n");
    for ty in ["u8", "u16", "u32", "u64"] {
        o.push_str(&format!("#[verifier::external_body] pub fn from_{0}(n: {0}) -> (r: Option<Self>) ensures r == Self::vx_of(n as int) {{ unimplemented!() }}\n", ty));
        o.push_str(&format!("#[verifier::external_body] pub fn to_{0}(&self) -> (r: Option<{0}>) ensures r == (if 0 <= self.vx_disc() <= {0}::MAX {{ Some(self.vx_disc() as {0}) }} else {{ None }}) {{ unimplemented!() }}\n", ty));
        if vals.iter().all(|(_, x)| x.parse::<i128>().map_or(false, |x| x >= 0 && x <= match ty { "u8" => 0xff, "u16" => 0xffff, "u32" => 0xffff_ffff, _ => u64::MAX as i128 })) {
            o.push_str(&format!("#[verifier::external_body] pub fn vx_as_{0}(self) -> (r: {0}) ensures r == self.vx_disc() {{ unimplemented!() }}\n", ty));
        }
    }
    o.push_str("}\n");
}
