//! A light kind inference: just enough to tell Option, Result and iterator receivers apart.
use std::collections::HashMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Iter(Box<K>),
    Coll(Box<K>),
    Opt(Box<K>),
    Res(Box<K>),
    Tup(Vec<K>),
    Map,
    Ty(String),
    Unk,
}

#[derive(Default)]
pub struct Tables {
    /// `name` -> return kind (all functions of that name agree)
    pub fns: HashMap<String, Option<K>>,
    /// `Owner::name` -> return kind
    pub qfns: HashMap<String, K>,
    pub fields: HashMap<String, Option<K>>,
    pub qfields: HashMap<String, K>,
    /// fieldless enums with explicit discriminants
    pub enums: std::collections::BTreeSet<String>,
}

thread_local! { pub static ALIASES: std::cell::RefCell<HashMap<String, Type>> = Default::default(); }

pub fn kind_ty(t: &Type) -> K {
    match t {
        Type::Reference(r) => kind_ty(&r.elem),
        Type::Paren(p) => kind_ty(&p.elem),
        Type::Slice(s) => K::Coll(Box::new(kind_ty(&s.elem))),
        Type::Array(s) => K::Coll(Box::new(kind_ty(&s.elem))),
        Type::Tuple(t) => K::Tup(t.elems.iter().map(kind_ty).collect()),
        Type::ImplTrait(i) => {
            for b in &i.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let s = tb.path.segments.last().unwrap();
                    if s.ident == "Iterator" || s.ident == "IntoIterator" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            for g in &a.args {
                                if let GenericArgument::AssocType(at) = g {
                                    return K::Iter(Box::new(kind_ty(&at.ty)));
                                }
                            }
                        }
                        return K::Iter(Box::new(K::Unk));
                    }
                }
            }
            K::Unk
        }
        Type::Path(p) => {
            let s = match p.path.segments.last() { Some(s) => s, None => return K::Unk };
            let arg = |n: usize| -> K {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    let mut i = 0;
                    for g in &a.args {
                        if let GenericArgument::Type(t) = g {
                            if i == n { return kind_ty(t); }
                            i += 1;
                        }
                    }
                }
                K::Unk
            };
            match s.ident.to_string().as_str() {
                "Option" => K::Opt(Box::new(arg(0))),
                "Result" => K::Res(Box::new(arg(0))),
                "Vec" => K::Coll(Box::new(arg(0))),
                "HashMap" | "BTreeMap" | "HashSet" | "BTreeSet" => K::Map,
                "Box" | "Rc" => arg(0),
                o => match ALIASES.with(|a| a.borrow().get(o).cloned()) { Some(t) => kind_ty(&t), None => K::Ty(o.to_string()) },
            }
        }
        _ => K::Unk,
    }
}

pub type Env = HashMap<String, K>;

pub fn is_iter_source(m: &str) -> bool {
    matches!(m, "iter" | "into_iter" | "values" | "keys" | "chunks_exact" | "chars" | "values_with_index" | "chunks" | "into_values" | "drain")
}
pub fn is_iter_adaptor(m: &str) -> bool {
    matches!(m, "map" | "filter" | "filter_map" | "flat_map" | "flatten" | "skip" | "take" | "enumerate" | "zip" | "copied" | "cloned" | "chain" | "rev" | "sorted_by_key" | "sorted" | "dedup_by" | "inspect" | "take_while")
}

impl Tables {
    pub fn closure_kind(&self, f: &Expr, arg: K, env: &Env) -> K {
        match f {
            Expr::Closure(c) => {
                let mut e = env.clone();
                if let Some(p) = c.inputs.first() { bind(p, &arg, &mut e); }
                self.kind(&c.body, &e)
            }
            Expr::Path(p) => {
                let s = p.path.segments.last().unwrap().ident.to_string();
                if s == "Some" { return K::Opt(Box::new(arg)); }
                if s == "Ok" { return K::Res(Box::new(arg)); }
                self.path_call_kind(&p.path, env)
            }
            _ => K::Unk,
        }
    }

    pub fn path_call_kind(&self, p: &Path, env: &Env) -> K {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last().unwrap().clone();
        if segs.len() >= 2 {
            let mut owner = segs[segs.len() - 2].clone();
            if owner == "Self" { if let Some(K::Ty(t)) = env.get("Self") { owner = t.clone(); } }
            if let Some(k) = self.qfns.get(&format!("{}::{}", owner, name)) { return k.clone(); }
        }
        if name == "Some" { return K::Opt(Box::new(K::Unk)); }
        if name == "Ok" || name == "Err" { return K::Res(Box::new(K::Unk)); }
        match self.fns.get(&name) {
            Some(Some(k)) => k.clone(),
            _ => if name.chars().next().map_or(false, |c| c.is_uppercase()) { K::Ty(name) } else { K::Unk },
        }
    }

    pub fn kind(&self, e: &Expr, env: &Env) -> K {
        match e {
            Expr::Paren(p) => self.kind(&p.expr, env),
            Expr::Group(p) => self.kind(&p.expr, env),
            Expr::Reference(r) => self.kind(&r.expr, env),
            Expr::Unary(u) => match u.op { UnOp::Deref(_) => self.kind(&u.expr, env), _ => K::Unk },
            Expr::Range(_) => K::Iter(Box::new(K::Unk)),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(k) = env.get(&i.to_string()) { return k.clone(); }
                }
                if p.path.segments.last().map_or(false, |s| s.ident == "None") { return K::Opt(Box::new(K::Unk)); }
                K::Unk
            }
            Expr::Field(f) => {
                let n = match &f.member { Member::Named(i) => i.to_string(), Member::Unnamed(i) => i.index.to_string() };
                let base = self.kind(&f.base, env);
                match &base {
                    K::Tup(v) => { if let Ok(i) = n.parse::<usize>() { if i < v.len() { return v[i].clone(); } } }
                    K::Ty(t) => { if let Some(k) = self.qfields.get(&format!("{}.{}", t, n)) { return k.clone(); } }
                    _ => {}
                }
                match self.fields.get(&n) { Some(Some(k)) => k.clone(), _ => K::Unk }
            }
            Expr::Try(t) => match self.kind(&t.expr, env) { K::Opt(k) | K::Res(k) => *k, _ => K::Unk },
            Expr::Tuple(t) => K::Tup(t.elems.iter().map(|e| self.kind(e, env)).collect()),
            Expr::Struct(s) => K::Ty(s.path.segments.last().unwrap().ident.to_string()),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let a0 = || c.args.first().map(|a| self.kind(a, env)).unwrap_or(K::Unk);
                    if n == "Some" { return K::Opt(Box::new(a0())); }
                    if n == "Ok" { return K::Res(Box::new(a0())); }
                    if n == "decode_utf16" { return K::Iter(Box::new(K::Res(Box::new(K::Unk)))); }
                    return self.path_call_kind(&p.path, env);
                }
                K::Unk
            }
            Expr::Block(b) => self.block_kind(&b.block, env),
            Expr::If(i) => {
                let k = self.block_kind(&i.then_branch, env);
                if k != K::Unk { return k; }
                if let Some((_, e)) = &i.else_branch { return self.kind(e, env); }
                K::Unk
            }
            Expr::Match(m) => {
                for a in &m.arms {
                    let mut e2 = env.clone();
                    let sk = self.kind(&m.expr, env);
                    bind(&a.pat, &sk, &mut e2);
                    let k = self.kind(&a.body, &e2);
                    if k != K::Unk { return k; }
                }
                K::Unk
            }
            Expr::Macro(m) => if m.mac.path.is_ident("vec") { K::Coll(Box::new(K::Unk)) } else { K::Unk },
            Expr::Cast(c) => kind_ty(&c.ty),
            Expr::Index(_) => K::Unk,
            Expr::MethodCall(m) => self.method_kind(m, env),
            _ => K::Unk,
        }
    }

    pub fn block_kind(&self, b: &Block, env: &Env) -> K {
        let mut e = env.clone();
        for s in &b.stmts {
            match s {
                Stmt::Local(l) => {
                    let k = self.local_kind(l, &e);
                    let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
                    bind(p, &k, &mut e);
                }
                Stmt::Expr(x, None) => return self.kind(x, &e),
                _ => {}
            }
        }
        K::Unk
    }

    pub fn local_kind(&self, l: &Local, env: &Env) -> K {
        if let Pat::Type(t) = &l.pat {
            let k = kind_ty(&t.ty);
            if k != K::Unk { return k; }
        }
        l.init.as_ref().map(|i| self.kind(&i.expr, env)).unwrap_or(K::Unk)
    }

    pub fn method_kind(&self, m: &ExprMethodCall, env: &Env) -> K {
        let r = self.kind(&m.receiver, env);
        let n = m.method.to_string();
        let a0 = m.args.first();
        match (&r, n.as_str()) {
            (K::Opt(k), "map") => return K::Opt(Box::new(a0.map(|a| self.closure_kind(a, (**k).clone(), env)).unwrap_or(K::Unk))),
            (K::Opt(k), "and_then") => return match a0.map(|a| self.closure_kind(a, (**k).clone(), env)) { Some(K::Opt(k)) => K::Opt(k), _ => K::Opt(Box::new(K::Unk)) },
            (K::Opt(_), "or_else" | "filter" | "copied" | "cloned" | "as_ref" | "as_deref" | "take" | "or" | "inspect" | "as_mut") => return r,
            (K::Opt(k), "ok_or" | "ok_or_else") => return K::Res(k.clone()),
            (K::Opt(k), "unwrap" | "unwrap_or" | "unwrap_or_else" | "unwrap_or_default" | "expect") => return (**k).clone(),
            (K::Opt(k), "transpose") => return match &**k { K::Res(k2) => K::Res(Box::new(K::Opt(k2.clone()))), _ => K::Res(Box::new(K::Opt(Box::new(K::Unk)))) },
            (K::Opt(k), "flatten") => return match &**k { K::Opt(k2) => K::Opt(k2.clone()), _ => K::Opt(Box::new(K::Unk)) },
            (K::Opt(k), "zip") => {
                let o = a0.map(|a| self.kind(a, env)).unwrap_or(K::Unk);
                let o = match o { K::Opt(k) => *k, _ => K::Unk };
                return K::Opt(Box::new(K::Tup(vec![(**k).clone(), o])));
            }
            (K::Res(k), "map") => return K::Res(Box::new(a0.map(|a| self.closure_kind(a, (**k).clone(), env)).unwrap_or(K::Unk))),
            (K::Res(k), "and_then") => return match a0.map(|a| self.closure_kind(a, (**k).clone(), env)) { Some(K::Res(k)) => K::Res(k), _ => K::Res(Box::new(K::Unk)) },
            (K::Res(_), "map_err" | "or_else") => return r,
            (K::Res(k), "unwrap" | "unwrap_or" | "unwrap_or_else" | "unwrap_or_default" | "expect") => return (**k).clone(),
            (K::Res(k), "ok") => return K::Opt(k.clone()),
            (K::Res(k), "transpose") => return match &**k { K::Opt(k2) => K::Opt(Box::new(K::Res(k2.clone()))), _ => K::Unk },
            (K::Coll(k), "first" | "last" | "get" | "pop" | "iter_next") => return K::Opt(k.clone()),
            (K::Coll(_), "as_slice" | "to_vec" | "clone") => return r,
            (K::Coll(k), "iter" | "into_iter") => return K::Iter(k.clone()),
            (K::Coll(k), "chunks_exact") => return K::Iter(Box::new(K::Coll(k.clone()))),
            (K::Map, "get" | "remove" | "insert") => return K::Opt(Box::new(K::Unk)),
            (K::Map, "iter" | "values" | "keys") => return K::Iter(Box::new(K::Unk)),
            (K::Iter(k), _) => {
                match n.as_str() {
                    "map" => return K::Iter(Box::new(a0.map(|a| self.closure_kind(a, (**k).clone(), env)).unwrap_or(K::Unk))),
                    "enumerate" => return K::Iter(Box::new(K::Tup(vec![K::Unk, (**k).clone()]))),
                    "zip" => {
                        let o = a0.map(|a| self.kind(a, env)).unwrap_or(K::Unk);
                        let o = match o { K::Iter(k) | K::Coll(k) => *k, _ => K::Unk };
                        return K::Iter(Box::new(K::Tup(vec![(**k).clone(), o])));
                    }
                    "flatten" => return match &**k { K::Opt(k) | K::Coll(k) | K::Iter(k) => K::Iter(k.clone()), _ => K::Iter(Box::new(K::Unk)) },
                    "flat_map" | "filter_map" => return match a0.map(|a| self.closure_kind(a, (**k).clone(), env)) { Some(K::Opt(k) | K::Coll(k) | K::Iter(k)) => K::Iter(k), _ => K::Iter(Box::new(K::Unk)) },
                    "collect_vec" => return K::Coll(k.clone()),
                    "collect" => {
                        if let Some(tf) = &m.turbofish {
                            if let Some(GenericArgument::Type(t)) = tf.args.first() {
                                let c = kind_ty(t);
                                let fill = |c: &K, el: K| -> K { match c { K::Coll(_) => K::Coll(Box::new(el)), K::Map => K::Map, _ => K::Unk } };
                                return match &c {
                                    K::Res(i) => { let el = match &**k { K::Res(e) => (**e).clone(), _ => K::Unk }; K::Res(Box::new(fill(i, el))) }
                                    c => fill(c, (**k).clone()),
                                };
                            }
                        }
                        return K::Coll(k.clone());
                    }
                    "next" | "find" | "last" | "nth" | "max" | "min" => return K::Opt(k.clone()),
                    "position" => return K::Opt(Box::new(K::Unk)),
                    x if is_iter_adaptor(x) => return r,
                    "into_iter" | "iter" => return r,
                    _ => {}
                }
            }
            (K::Ty(t), _) => if let Some(k) = self.qfns.get(&format!("{}::{}", t, n)) { return k.clone(); },
            _ => {}
        }
        match n.as_str() {
            "clone" | "to_owned" | "as_ref" | "unwrap_or" | "unwrap_or_else" => return r,
            "into" => return K::Unk,
            "ok_or" | "ok_or_else" | "map_err" => return K::Res(Box::new(K::Unk)),
            "first" | "last" | "next" | "find" | "position" | "checked_add" | "checked_sub" | "checked_mul" | "nth" | "pop" | "strip_prefix" | "strip_suffix" => return K::Opt(Box::new(K::Unk)),
            x if x.starts_with("try_get_") => return K::Res(Box::new(K::Unk)),
            x if is_iter_source(x) => return K::Iter(Box::new(K::Unk)),
            _ => {}
        }
        match self.fns.get(&n) { Some(Some(k)) => k.clone(), _ => {
            if n == "get" { return K::Opt(Box::new(K::Unk)); }
            K::Unk } }
    }
}

pub fn bind(p: &Pat, k: &K, env: &mut Env) {
    match p {
        Pat::Ident(i) => {
            env.insert(i.ident.to_string(), k.clone());
            if let Some((_, s)) = &i.subpat { bind(s, k, env); }
        }
        Pat::Type(t) => { let k2 = kind_ty(&t.ty); bind(&t.pat, if k2 == K::Unk { k } else { &k2 }, env) }
        Pat::Reference(r) => bind(&r.pat, k, env),
        Pat::Paren(r) => bind(&r.pat, k, env),
        Pat::Tuple(t) => {
            for (i, e) in t.elems.iter().enumerate() {
                let kk = match k { K::Tup(v) if i < v.len() => v[i].clone(), _ => K::Unk };
                bind(e, &kk, env);
            }
        }
        Pat::TupleStruct(t) => {
            let n = t.path.segments.last().unwrap().ident.to_string();
            let inner = match (n.as_str(), k) {
                ("Some", K::Opt(k)) => (**k).clone(),
                ("Ok", K::Res(k)) => (**k).clone(),
                _ => K::Unk,
            };
            if t.elems.len() == 1 { bind(&t.elems[0], &inner, env) } else { for e in &t.elems { bind(e, &K::Unk, env) } }
        }
        Pat::Struct(s) => for f in &s.fields { bind(&f.pat, &K::Unk, env) },
        Pat::Or(o) => for c in &o.cases { bind(c, k, env) },
        _ => {}
    }
}
