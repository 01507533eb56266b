//! The mechanical rewrites applied to function bodies (each is the definition of the std
//! combinator it replaces, or drops an error message).
use crate::kind::*;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Tx<'t> {
    pub t: &'t Tables,
    pub self_ty: Option<String>,
    pub loops: usize,
    pub uniq: usize,
    pub map_hints: BTreeSet<usize>,
    /// fn-pointer parameter positions, by `Owner::name`
    pub fnptr: &'t BTreeMap<String, usize>,
    pub instances: Vec<(String, String)>,
    pub notes: BTreeSet<String>,
    /// may `?`/`return` inside the closure currently inlined be read as the function's own?
    pub closure_forbid: bool,
    pub ret_kind: K,
    /// parameters of reference type / loop variables that are references to primitive integers
    pub ref_params: BTreeSet<String>,
    pub refs: BTreeSet<String>,
}

#[derive(Clone)]
struct Step { m: ExprMethodCall }

fn is_str_msg(e: &Expr) -> bool { let _ = e; true }

/// Pre-pass: error payloads become `crate::ext::Msg`, closure `_` patterns get names, vec![] etc.
pub struct Pre { pub n: usize }
impl VisitMut for Pre {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 2 && segs[0] == "ErrorKind" && segs[1] != "from" {
                    let f = c.func.clone();
                    if c.args.iter().all(is_str_msg) {
                        let n = c.args.len();
                        let a = (0..n).map(|_| quote!(crate::ext::Msg));
                        *e = parse_quote!(#f(#(#a),*));
                        return;
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.last().map_or(false, |s| s == "new") && segs.len() >= 2 && segs[segs.len() - 2] == "PathBuf" && c.args.is_empty() { *c.func = parse_quote!(crate::ext::vx_path_buf); }
                if segs.len() == 2 && segs[1] == "from_le_bytes" {
                    let f = format_ident!("vx_{}_from_le_bytes", segs[0]);
                    *c.func = parse_quote!(crate::ext::#f);
                }
            }
        }
        if let Expr::Struct(s) = e {
            if s.path.segments.first().map_or(false, |s| s.ident == "ErrorKind") && s.path.segments.len() == 2 {
                for f in s.fields.iter_mut() { f.expr = parse_quote!(crate::ext::Msg); f.colon_token = Some(Default::default()); }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let mut repl: Option<Expr> = None;
        // &a[..n], &a[n..], &a[m..n]
        if let Expr::Reference(ExprReference { mutability: None, expr, .. }) = e {
            if let Expr::Index(ix) = &**expr {
                if let Expr::Range(ExprRange { start, end, limits: RangeLimits::HalfOpen(_), .. }) = &*ix.index {
                    let b = &ix.expr;
                    repl = match (start, end) {
                        (None, Some(n)) => Some(parse_quote!(#b.vx_sub(0, #n))),
                        (Some(m), None) => Some(parse_quote!(#b.vx_from(#m))),
                        (Some(m), Some(n)) => Some(parse_quote!(#b.vx_sub(#m, #n))),
                        _ => None,
                    };
                }
            }
        }
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            match name.as_str() {
                "vec" => { if m.mac.tokens.is_empty() { repl = Some(parse_quote!(Vec::new())); } }
                "format" => { repl = Some(parse_quote!(crate::ext::vx_format())); }
                "matches" => {
                    struct M(Expr, Pat, Option<Expr>);
                    impl parse::Parse for M {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let e = i.parse()?; i.parse::<Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                            let _ = i.parse::<Option<Token![,]>>()?;
                            Ok(M(e, p, g))
                        }
                    }
                    if let Ok(M(x, p, g)) = parse2::<M>(m.mac.tokens.clone()) {
                        repl = Some(match g { None => parse_quote!(match #x { #p => true, _ => false }), Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }) });
                    }
                }
                "guid" => {
                    if let Ok(l) = parse2::<LitStr>(m.mac.tokens.clone()) {
                        if let Some(v) = guid_value(&l.value()) { repl = Some(guid_expr(v)); }
                    }
                }
                "exguid" => {
                    if let Some((g, n)) = exguid_parts(m.mac.tokens.clone()) {
                        let ge = guid_expr(g);
                        repl = Some(parse_quote!(crate::fsshttpb::data::exguid::ExGuid::from_guid(#ge, #n)));
                    }
                }
                _ => {}
            }
        }
        if let Some(r) = repl { *e = r; }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        let mut repl: Option<Pat> = None;
        if let Pat::Macro(m) = p {
            let _ = m;
            repl = None;
        }
        if let Some(r) = repl { *p = r; }
    }
}

pub fn guid_value(s: &str) -> Option<u128> {
    let h: String = s.chars().filter(|c| *c != '-' && *c != '{' && *c != '}').collect();
    if h.len() != 32 { return None; }
    u128::from_str_radix(&h, 16).ok()
}
pub fn guid_expr(v: u128) -> Expr {
    let l = LitInt::new(&format!("0x{:032x}u128", v), Span::call_site());
    parse_quote!(crate::shared::guid::Guid(crate::ext::Uuid::vx_lit(#l)))
}
pub fn exguid_parts(ts: TokenStream) -> Option<(u128, LitInt)> {
    // ({{$guid:tt}, $n:literal})
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = ts.into_iter().collect();
    let inner: Vec<T> = match v.first()? { T::Group(g) => g.stream().into_iter().collect(), _ => return None };
    let g = match inner.first()? { T::Group(g) => g.stream(), _ => return None };
    let n = match inner.last()? { T::Literal(l) => LitInt::new(&l.to_string(), Span::call_site()), _ => return None };
    let g: Vec<T> = g.into_iter().collect();
    let g = match g.first()? { T::Group(g) => g.stream(), t => TokenStream::from(t.clone()) };
    let l: LitStr = parse2(g).ok()?;
    Some((guid_value(&l.value())?, n))
}

/// Does the block/expr contain `?` or `return` outside nested closures?
fn has_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Try(_) | Expr::Return(_) => self.0 = true,
                Expr::Closure(_) => {}
                _ => visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}
fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e { Expr::Return(_) => self.0 = true, Expr::Closure(_) => {}, _ => visit::visit_expr(self, e) }
        }
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// Structured elimination of `return X` in a closure body: `if c { ..; return X } rest` becomes
/// `if c { ..; X } else { rest }`.
fn elim_block(b: &Block) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter().enumerate() {
        let e = match s { Stmt::Expr(e, _) => e, s => { if stmt_has_return(s) { return None; } out.push(s.clone()); continue; } };
        if let Expr::Return(r) = e {
            let x = r.expr.clone()?;
            out.push(Stmt::Expr(*x, None));
            return Some(Block { brace_token: b.brace_token, stmts: out });
        }
        if !has_return(e) { out.push(s.clone()); continue; }
        if i == n - 1 { let x = elim_expr(e)?; out.push(Stmt::Expr(x, None)); return Some(Block { brace_token: b.brace_token, stmts: out }); }
        // `if c { diverges }` followed by the rest
        if let Expr::If(f) = e {
            if f.else_branch.is_none() && diverges(&f.then_branch) {
                let then = elim_block(&f.then_branch)?;
                let rest = elim_block(&Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() })?;
                let c = &f.cond;
                out.push(Stmt::Expr(parse_quote!(if #c #then else #rest), None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
        }
        return None;
    }
    Some(Block { brace_token: b.brace_token, stmts: out })
}
fn stmt_has_return(s: &Stmt) -> bool {
    match s { Stmt::Local(l) => l.init.as_ref().map_or(false, |i| has_return(&i.expr) || i.diverge.is_some()), _ => false }
}
fn strip_deref(e: &Expr) -> &Expr { match e { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => strip_deref(&u.expr), Expr::Paren(p) => strip_deref(&p.expr), e => e } }
fn strip_ref_deref(e: &Expr) -> &Expr { match e { Expr::Reference(r) => strip_ref_deref(&r.expr), Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => strip_ref_deref(&u.expr), Expr::Paren(p) => strip_ref_deref(&p.expr), Expr::MethodCall(m) if m.method == "as_slice" && m.args.is_empty() => strip_ref_deref(&m.receiver), e => e } }
fn diverges(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) }
fn elim_expr(e: &Expr) -> Option<Expr> {
    if !has_return(e) { return Some(e.clone()); }
    match e {
        Expr::Block(b) => { let b2 = elim_block(&b.block)?; Some(parse_quote!(#b2)) }
        Expr::If(f) => {
            let t = elim_block(&f.then_branch)?;
            let c = &f.cond;
            let (_, el) = f.else_branch.as_ref()?;
            let el = elim_expr(el)?;
            Some(parse_quote!(if #c #t else #el))
        }
        Expr::Match(m) => {
            let mut m2 = m.clone();
            for a in m2.arms.iter_mut() { let x = elim_expr(&a.body)?; a.body = Box::new(x); a.comma = Some(Default::default()); }
            Some(Expr::Match(m2))
        }
        Expr::Return(r) => r.expr.as_ref().map(|x| (**x).clone()),
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Sink { Vec, Map, ResVec, ResMap }

impl<'t> Tx<'t> {
    fn id(&mut self, p: &str) -> Ident { self.uniq += 1; format_ident!("__{}{}", p, self.uniq) }
    fn env0(&self, env: &Env) -> Env { env.clone() }

    pub fn block(&mut self, b: &Block, env: &Env, tail: bool) -> Block {
        let mut env = self.env0(env);
        let refs0 = self.refs.clone();
        let mut out = vec![];
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    let k = self.t.local_kind(l, &env);
                    let mut l2 = l.clone();
                    if let Some(init) = &mut l2.init {
                        let hint = if let Pat::Type(t) = &l.pat { kind_ty(&t.ty) } else { K::Unk };
                        init.expr = Box::new(self.expr_h(&init.expr, &env, false, &hint));
                        if let Some((_, d)) = &mut init.diverge { *d = Box::new(self.expr(d, &env, false)); }
                    }
                    let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
                    if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        self.refs.remove(&i.ident.to_string());
                        if is_int_kind(&k) && is_ref_chain(&init.expr) { self.refs.insert(i.ident.to_string()); }
                    }
                    bind(p, &k, &mut env);
                    out.push(Stmt::Local(l2));
                }
                Stmt::Expr(e, semi) => {
                    let is_tail = tail && i == n - 1 && semi.is_none();
                    let x = self.expr(e, &env, is_tail);
                    out.push(Stmt::Expr(x, *semi));
                }
                s => out.push(s.clone()),
            }
        }
        self.refs = refs0;
        Block { brace_token: b.brace_token, stmts: out }
    }

    pub fn expr(&mut self, e: &Expr, env: &Env, tail: bool) -> Expr { self.expr_h(e, env, tail, &K::Unk) }

    fn expr_h(&mut self, e: &Expr, env: &Env, tail: bool, hint: &K) -> Expr {
        match e {
            Expr::MethodCall(_) => { let rk = self.ret_kind.clone(); self.chain(e, env, tail, false, if tail && *hint == K::Unk { &rk } else { hint }) }
            Expr::Try(t) => {
                if let Expr::MethodCall(_) = &*t.expr { return self.chain(&t.expr, env, false, true, hint); }
                let x = self.expr(&t.expr, env, false);
                parse_quote!(#x?)
            }
            // the numeric value of a fieldless enum; Verus gets its discriminants as a spec function
            Expr::Cast(c) if match (self.t.kind(strip_deref(&c.expr), env), &*c.ty) { (K::Ty(n), Type::Path(_)) => self.t.enums.contains(&n) || (n == "Self" && self.self_ty.as_ref().map_or(false, |s| self.t.enums.contains(s))), _ => false } => {
                let ty = &c.ty;
                let m = format_ident!("vx_as_{}", quote!(#ty).to_string());
                let x = self.expr(&c.expr, env, false);
                parse_quote!((#x).#m())
            }
            Expr::Paren(p) => { let x = self.expr_h(&p.expr, env, false, hint); parse_quote!((#x)) }
            Expr::Block(b) => { let b2 = self.block(&b.block, env, tail); Expr::Block(ExprBlock { attrs: vec![], label: b.label.clone(), block: b2 }) }
            Expr::If(f) => {
                let mut env2 = env.clone();
                let c = self.cond(&f.cond, env, &mut env2);
                let t = self.block(&f.then_branch, &env2, tail);
                match &f.else_branch {
                    None => parse_quote!(if #c #t),
                    Some((_, el)) => { let el = self.expr(el, env, tail); let el = as_else(el); parse_quote!(if #c #t else #el) }
                }
            }
            Expr::Match(m) => {
                let k = self.t.kind(&m.expr, env);
                let s = self.expr(&m.expr, env, false);
                let mut arms: Vec<Arm> = vec![];
                for a in &m.arms {
                    let mut env2 = env.clone();
                    bind(&a.pat, &k, &mut env2);
                    let mut a2 = a.clone();
                    a2.attrs.clear();
                    if let Some((_, g)) = &mut a2.guard { *g = Box::new(self.expr(g, &env2, false)); }
                    a2.body = Box::new(self.expr(&a.body, &env2, tail));
                    a2.comma = Some(Default::default());
                    arms.push(a2);
                }
                parse_quote!(match #s { #(#arms)* })
            }
            Expr::While(w) => {
                let n = self.loops; self.loops += 1;
                let mut env2 = env.clone();
                let c = self.cond(&w.cond, env, &mut env2);
                let b = self.block(&w.body, &env2, false);
                let st = semi(&b.stmts);
                let ln = LitInt::new(&n.to_string(), Span::call_site());
                parse_quote!({ vmark_pre!(#ln); while #c { vmark_inv!(#ln); #(#st)* vmark_end!(#ln); } vmark_after!(#ln); })
            }
            Expr::Loop(w) => {
                let n = self.loops; self.loops += 1;
                let b = self.block(&w.body, env, false);
                let st = semi(&b.stmts);
                let ln = LitInt::new(&n.to_string(), Span::call_site());
                parse_quote!({ vmark_pre!(#ln); loop { vmark_inv!(#ln); #(#st)* vmark_end!(#ln); } vmark_after!(#ln); })
            }
            Expr::ForLoop(f) => self.for_loop(f, env),
            Expr::Closure(c) => {
                self.notes.insert("closure left in place".into());
                let mut c2 = c.clone();
                let mut n = 0usize;
                for p in c2.inputs.iter_mut() { if let Pat::Wild(_) = p { let i = format_ident!("__w{}", n); n += 1; *p = parse_quote!(#i); } }
                let old = self.closure_forbid;
                let b = self.expr(&c.body, env, false);
                self.closure_forbid = old;
                c2.body = Box::new(b);
                Expr::Closure(c2)
            }
            Expr::Call(c) => self.call(c, env),
            Expr::Return(r) => {
                match &r.expr {
                    Some(x) => { let x = self.expr(x, env, !self.closure_forbid); parse_quote!(return #x) }
                    None => e.clone(),
                }
            }
            Expr::Binary(b) if !self.refs.is_empty() && matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_))
                && [&b.left, &b.right].iter().any(|x| matches!(&***x, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())))) => {
                let mut side = |x: &Expr| -> Expr {
                    if let Expr::Path(p) = x { if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())) { return parse_quote!((*#x)); } }
                    self.expr(x, env, false)
                };
                let (l, r) = (side(&b.left), side(&b.right));
                Expr::Binary(ExprBinary { attrs: vec![], left: Box::new(l), op: b.op, right: Box::new(r) })
            }
            Expr::Cast(c) if matches!(&*c.ty, Type::Path(p) if p.path.is_ident("f32")) => { let x = self.expr(&c.expr, env, false); parse_quote!(crate::ext::VxF32::vx_f32(#x)) }
            // Verus knows nothing about the type of an f32 read from a field: read it through a function
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) && [&b.left, &b.right].iter().any(|x| matches!(&***x, Expr::Field(_)) && matches!(self.t.kind(x, env), K::Ty(t) if t == "f32")) => {
                let mut side = |x: &Expr| -> Expr {
                    let f = matches!(x, Expr::Field(_)) && matches!(self.t.kind(x, env), K::Ty(t) if t == "f32");
                    let x = self.expr(x, env, false);
                    if f { parse_quote!(crate::ext::vx_f(#x)) } else { x }
                };
                let (l, r) = (side(&b.left), side(&b.right));
                Expr::Binary(ExprBinary { attrs: vec![], left: Box::new(l), op: b.op, right: Box::new(r) })
            }
            Expr::Let(_) => { let mut env2 = env.clone(); self.cond(e, env, &mut env2) }
            _ => {
                let mut e2 = e.clone();
                struct Ch<'a, 'b, 't>(&'a mut Tx<'t>, &'b Env);
                impl<'a, 'b, 't> VisitMut for Ch<'a, 'b, 't> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) { *e = self.0.expr(e, self.1, false); }
                    fn visit_block_mut(&mut self, b: &mut Block) { *b = self.0.block(b, self.1, false); }
                }
                match &mut e2 {
                    Expr::Struct(s) => {
                        let owner = s.path.segments.last().unwrap().ident.to_string();
                        let owner = if owner == "Self" { self.self_ty.clone().unwrap_or(owner) } else { owner };
                        for f in s.fields.iter_mut() {
                            let fname = match &f.member { Member::Named(i) => i.to_string(), Member::Unnamed(i) => i.index.to_string() };
                            let k = self.t.qfields.get(&format!("{}.{}", owner, fname)).cloned().unwrap_or(K::Unk);
                            let short = f.colon_token.is_none();
                            if !short { f.expr = self.expr_h(&f.expr, env, false, &k); }
                        }
                        if let Some(r) = &mut s.rest { **r = self.expr(r, env, false); }
                    }
                    _ => visit_mut::visit_expr_mut(&mut Ch(self, env), &mut e2),
                }
                e2
            }
        }
    }

    fn cond(&mut self, c: &Expr, env: &Env, env2: &mut Env) -> Expr {
        match c {
            Expr::Let(l) => {
                let k = self.t.kind(&l.expr, env2);
                let x = self.expr(&l.expr, &env2.clone(), false);
                bind(&l.pat, &k, env2);
                let p = &l.pat;
                if let Pat::Slice(ps) = &**p {
                    // a slice pattern without a rest: a tuple of references, when the length fits
                    if ps.elems.iter().all(|e| !matches!(e, Pat::Rest(_))) && ps.elems.len() <= 3 {
                        let f = format_ident!("vx_slice{}", ps.elems.len());
                        let b = strip_ref_deref(&x);
                        let es = ps.elems.iter();
                        return parse_quote!(let Some((#(#es,)*)) = #b.#f());
                    }
                }
                parse_quote!(let #p = #x)
            }
            Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
                let l = self.cond(&b.left, env, env2);
                let r = self.cond(&b.right, env, env2);
                Expr::Binary(ExprBinary { attrs: vec![], left: Box::new(l), op: b.op, right: Box::new(r) })
            }
            c => self.expr(c, &env2.clone(), false),
        }
    }

    fn call(&mut self, c: &ExprCall, env: &Env) -> Expr {
        let mut args: Vec<Expr> = vec![];
        let mut func = (*c.func).clone();
        let mut fp: Option<usize> = None;
        if let Expr::Path(p) = &func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let name = segs.last().unwrap().clone();
            let owner = if segs.len() >= 2 {
                let o = segs[segs.len() - 2].clone();
                if o == "Self" { self.self_ty.clone().unwrap_or(o) } else { o }
            } else { String::new() };
            let key = format!("{}::{}", owner, name);
            let keys = [key.clone(), format!("::{}", name)];
            for k in &keys {
                if let Some(i) = self.fnptr.get(k) {
                    if let Some(Expr::Path(ap)) = c.args.iter().nth(*i) {
                        let an = ap.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>();
                        let tag = an.last().unwrap().clone();
                        self.instances.push((k.clone(), quote!(#ap).to_string()));
                        fp = Some(*i);
                        let mut p2 = p.clone();
                        let l = p2.path.segments.last_mut().unwrap();
                        l.ident = format_ident!("{}__{}", name, tag);
                        func = Expr::Path(p2);
                        break;
                    }
                }
            }
        } else {
            func = self.expr(&func, env, false);
        }
        for (i, a) in c.args.iter().enumerate() {
            if Some(i) == fp { continue; }
            args.push(self.expr(a, env, false));
        }
        parse_quote!(#func(#(#args),*))
    }

    // ---- loops -------------------------------------------------------------------------

    fn range_parts(e: &Expr) -> Option<(Expr, Expr, bool)> {
        match e {
            Expr::Paren(p) => Self::range_parts(&p.expr),
            Expr::Range(r) => {
                let a = r.start.as_ref()?; let b = r.end.as_ref()?;
                Some(((**a).clone(), (**b).clone(), matches!(r.limits, RangeLimits::Closed(_))))
            }
            _ => None,
        }
    }

    fn mk_loop(&mut self, n: usize, src: Src, pat: Option<&Pat>, item: &Ident, body: TokenStream, pre: TokenStream, fin: TokenStream) -> TokenStream {
        let ln = LitInt::new(&n.to_string(), Span::call_site());
        let k = format_ident!("__k{}", n);
        let bindp = match pat { Some(Pat::Wild(_)) | None => quote!(), Some(p) => quote!(let #p = #item;) };
        match src {
            Src::Range(a, b) => {
                let beg = format_ident!("__beg{}", n);
                let end = format_ident!("__end{}", n);
                quote! {
                    let #end = #b;
                    let #beg = #a;
                    let mut #k = #beg;
                    #pre
                    vmark_pre!(#ln);
                    while #k < #end {
                        vmark_inv!(#ln, range);
                        let #item = #k;
                        #bindp
                        #k = #k + 1;
                        #body
                        vmark_end!(#ln);
                    }
                    vmark_after!(#ln);
                    #fin
                }
            }
            Src::Vec(s) => {
                let src = format_ident!("__src{}", n);
                quote! {
                    let #src = #s;
                    let mut #k: usize = 0;
                    #pre
                    vmark_pre!(#ln);
                    while #k < #src.len() {
                        vmark_inv!(#ln, vec);
                        let #item = crate::ext::vx_get(&#src, #k);
                        #bindp
                        #k = #k + 1;
                        #body
                        vmark_end!(#ln);
                    }
                    vmark_after!(#ln);
                    #fin
                }
            }
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop, env: &Env) -> Expr {
        let k = self.t.kind(&f.expr, env);
        let mut env2 = env.clone();
        let ik = match &k { K::Iter(k) | K::Coll(k) => (**k).clone(), _ => K::Unk };
        bind(&f.pat, &ik, &mut env2);
        if let Some((a, b, incl)) = Self::range_parts(&f.expr) {
            let n = self.loops; self.loops += 1;
            let item = format_ident!("__it{}", n);
            let a = self.expr(&a, env, false);
            let b = self.expr(&b, env, false);
            let b = if incl { quote!((#b) + 1) } else { quote!(#b) };
            let body = self.block(&f.body, &env2, false);
            let st = semi(&body.stmts);
            let l = self.mk_loop(n, Src::Range(quote!(#a), b), Some(&f.pat), &item, quote!(#(#st)*), quote!(), quote!());
            return parse_quote!({ #l });
        }
        let src = match &f.expr.as_ref() {
            Expr::Reference(r) => { let x = self.expr(&r.expr, env, false); quote!((#x).vx_iter()) }
            Expr::MethodCall(_) => { let x = self.chain(&f.expr, env, false, false, &K::Unk); quote!(#x) }
            x => {
                let v = self.expr(x, env, false);
                match k { K::Iter(_) => quote!(#v), K::Coll(_) => quote!(crate::ext::VxInto::vx_into(#v)), K::Map if matches!(x, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.ref_params.contains(&i.to_string()))) => quote!(#v.vx_iter()), _ => quote!(crate::ext::VxInto::vx_into(#v)) }
            }
        };
        let n = self.loops; self.loops += 1;
        let item = format_ident!("__it{}", n);
        let by_ref = match &*f.expr { Expr::Reference(_) => true, Expr::MethodCall(m) => m.method == "iter", Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.ref_params.contains(&i.to_string())), _ => false };
        let rname = match &*f.pat { Pat::Ident(i) if by_ref && is_int_kind(&ik) => Some(i.ident.to_string()), _ => None };
        if let Some(r) = &rname { self.refs.insert(r.clone()); }
        let body = self.block(&f.body, &env2, false);
        if let Some(r) = &rname { self.refs.remove(r); }
        let st = semi(&body.stmts);
        let l = self.mk_loop(n, Src::Vec(src), Some(&f.pat), &item, quote!(#(#st)*), quote!(), quote!());
        parse_quote!({ #l })
    }

    // ---- applying closures ---------------------------------------------------------------

    fn apply(&mut self, f: &Expr, arg: TokenStream, argk: &K, env: &Env, exits_ok: bool) -> TokenStream {
        match f {
            Expr::Closure(c) => {
                let mut env2 = env.clone();
                let mut lets = quote!();
                if let Some(p) = c.inputs.first() {
                    bind(p, argk, &mut env2);
                    if !matches!(p, Pat::Wild(_)) {
                        let p2 = match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                        lets = quote!(let #p2 = #arg;);
                    } 
                }
                let mut body = (*c.body).clone();
                if has_return(&body) {
                    match elim_expr(&body) { Some(b) => body = b, None => { self.notes.insert("UNSUPPORTED return in closure".into()); } }
                }
                if has_exit(&body) && !exits_ok { self.notes.insert("UNSUPPORTED ? in closure".into()); lets = quote!(vx_unsupported_exit_in_closure; #lets); }
                let old = self.closure_forbid;
                self.closure_forbid = !exits_ok;
                let b = self.expr(&body, &env2, false);
                self.closure_forbid = old;
                quote!({ #lets #b })
            }
            Expr::Path(_) => {
                let call: Expr = parse_quote!(#f(#arg));
                if let Expr::Call(c) = &call { let x = self.call_noargs(c); quote!(#x) } else { quote!(#call) }
            }
            other => quote!((#other)(#arg)),
        }
    }
    /// the same for two arguments of the same kind
    fn apply2(&mut self, f: &Expr, a: TokenStream, b: TokenStream, argk: &K, env: &Env) -> TokenStream {
        match f {
            Expr::Closure(c) if c.inputs.len() == 2 => {
                let mut env2 = env.clone();
                let mut lets = quote!();
                for (p, x) in c.inputs.iter().zip([a, b]) {
                    bind(p, argk, &mut env2);
                    if !matches!(p, Pat::Wild(_)) { let p2 = match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }; lets = quote!(#lets let #p2 = #x;); }
                }
                let body = (*c.body).clone();
                if has_return(&body) || has_exit(&body) { self.notes.insert("UNSUPPORTED exit in closure".into()); lets = quote!(vx_unsupported_exit_in_closure; #lets); }
                let old = self.closure_forbid;
                self.closure_forbid = true;
                let b = self.expr(&body, &env2, false);
                self.closure_forbid = old;
                quote!({ #lets #b })
            }
            other => quote!((#other)(#a, #b)),
        }
    }
    fn call_noargs(&mut self, c: &ExprCall) -> Expr { Expr::Call(c.clone()) }
    fn apply0(&mut self, f: &Expr, env: &Env) -> TokenStream {
        match f {
            Expr::Closure(c) => {
                if has_exit(&c.body) { self.notes.insert("UNSUPPORTED ? in closure".into()); }
                let old = self.closure_forbid; self.closure_forbid = true;
                let b = self.expr(&c.body, env, false);
                self.closure_forbid = old;
                quote!(#b)
            }
            f => quote!(#f()),
        }
    }

    // ---- method chains ---------------------------------------------------------------------

    /// `tried`: the chain is the operand of `?` (the returned expression includes it).
    fn chain(&mut self, e: &Expr, env: &Env, tail: bool, tried: bool, hint: &K) -> Expr {
        let mut steps: Vec<Step> = vec![];
        let mut base = e.clone();
        while let Expr::MethodCall(m) = base { steps.push(Step { m: m.clone() }); base = *m.receiver; }
        steps.reverse();
        let mut cur: Expr = match &base { Expr::Range(_) | Expr::Paren(_) if Self::range_parts(&base).is_some() => base.clone(), b => self.expr(b, env, false) };
        let mut kind = self.t.kind(&base, env);
        let mut i = 0;
        let mut ate_try = false;
        while i < steps.len() {
            let m = steps[i].m.clone();
            let name = m.method.to_string();
            let last = i == steps.len() - 1;
            if name == "entry" && m.args.len() == 1 && i + 1 < steps.len() {
                let n1 = steps[i + 1].m.method.to_string();
                let k = self.expr(&m.args[0], env, false);
                if i + 2 < steps.len() && steps[i + 2].m.method == "push" && matches!(n1.as_str(), "or_default" | "or_insert_with" | "or_insert") {
                    let v = self.expr(&steps[i + 2].m.args[0], env, false);
                    cur = parse_quote!(#cur.vx_entry_push(#k, #v)); kind = K::Unk; i += 3; continue;
                }
                if n1 == "or_insert" { let v = self.expr(&steps[i + 1].m.args[0], env, false); cur = parse_quote!(#cur.vx_entry_or_insert(#k, #v)); kind = K::Unk; i += 2; continue; }
            }
            let next_kind = self.t.kind(&Expr::MethodCall(m.clone()), env);
            let starts = is_iter_source(&name) && !matches!(kind, K::Opt(_) | K::Res(_));
            if starts || matches!(kind, K::Iter(_)) {
                // stream: gather up to and including the sink
                let mut j = i;
                let mut sink: Option<usize> = None;
                while j < steps.len() {
                    let nm = steps[j].m.method.to_string();
                    let is_src = j == i && starts;
                    if !is_src && !is_iter_adaptor(&nm) && !(nm == "into_iter" || nm == "iter") {
                        sink = Some(j); break;
                    }
                    j += 1;
                }
                let upto = sink.unwrap_or(steps.len() - 1);
                let is_last = upto == steps.len() - 1;
                let res_mode_early = is_last && (tried || tail);
                let (x, ate) = self.stream(cur, &kind, starts, &steps[i..=upto], sink.is_some(), env, res_mode_early, if is_last { hint } else { &K::Unk });
                cur = x;
                if ate && is_last { if tried { ate_try = true; } else { cur = parse_quote!(Ok(#cur)); } }
                kind = self.t.kind(&Expr::MethodCall(steps[upto].m.clone()), env);
                i = upto + 1;
                continue;
            }
            cur = self.method(cur, &kind, &m, env, last && tail);
            kind = next_kind;
            i += 1;
        }
        if tried && !ate_try { parse_quote!(#cur?) } else { cur }
    }

    fn method(&mut self, cur: Expr, k: &K, m: &ExprMethodCall, env: &Env, _tail: bool) -> Expr {
        let name = m.method.to_string();
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        match (k, name.as_str()) {
            (K::Opt(ik), "map") => { let f = self.apply(&a[0], quote!(__o), ik, env, false); parse_quote!(match #cur { Some(__o) => Some(#f), None => None }) }
            (K::Opt(ik), "and_then") => { let f = self.apply(&a[0], quote!(__o), ik, env, false); parse_quote!(match #cur { Some(__o) => #f, None => None }) }
            (K::Opt(ik), "filter") => { let f = self.apply(&a[0], quote!(&__o), ik, env, false); parse_quote!(match #cur { Some(__o) => if #f { Some(__o) } else { None }, None => None }) }
            (K::Opt(ik), "is_some_and") => { let f = self.apply(&a[0], quote!(__o), ik, env, false); parse_quote!(match #cur { Some(__o) => #f, None => false }) }
            (K::Opt(ik), "is_none_or") => { let f = self.apply(&a[0], quote!(__o), ik, env, false); parse_quote!(match #cur { Some(__o) => #f, None => true }) }
            (K::Opt(ik), "map_or") => { let d = self.expr(&a[0], env, false); let f = self.apply(&a[1], quote!(__o), ik, env, false); parse_quote!(match #cur { Some(__o) => #f, None => #d }) }
            (K::Opt(_), "or_else") => { let f = self.apply0(&a[0], env); parse_quote!(match #cur { Some(__o) => Some(__o), None => #f }) }
            (K::Opt(_), "or") => { let f = self.expr(&a[0], env, false); parse_quote!(match #cur { Some(__o) => Some(__o), None => #f }) }
            (_, "ok_or_else") => { let f = self.apply0(&a[0], env); parse_quote!((match #cur { Some(__o) => Ok(__o), None => Err(#f) })) }
            (_, "ok_or") => { let f = self.expr(&a[0], env, false); parse_quote!((match #cur { Some(__o) => Ok(__o), None => Err(#f) })) }
            (K::Opt(_), "unwrap_or_else") => { let f = self.apply0(&a[0], env); parse_quote!(match #cur { Some(__o) => __o, None => #f }) }
            (K::Opt(_), "unwrap_or") => { let f = self.expr(&a[0], env, false); parse_quote!(match #cur { Some(__o) => __o, None => #f }) }
            (K::Opt(_) | K::Unk, "unwrap_or_default") => parse_quote!(match #cur { Some(__o) => __o, None => crate::ext::VxDefault::vx_default() }),
            (K::Opt(_), "zip") => { let b = self.expr(&a[0], env, false); parse_quote!(match (#cur, #b) { (Some(__o), Some(__p)) => Some((__o, __p)), _ => None }) }
            (K::Opt(ik), "flatten") if matches!(**ik, K::Opt(_) | K::Unk) => parse_quote!(match #cur { Some(__o) => __o, None => None }),
            (K::Opt(_), "transpose") => parse_quote!((match #cur { None => Ok(None), Some(Ok(__o)) => Ok(Some(__o)), Some(Err(__e)) => Err(__e) })),
            (K::Opt(_), "copied") => parse_quote!(match #cur { Some(__o) => Some(*__o), None => None }),
            (K::Opt(_), "cloned") => parse_quote!(match #cur { Some(__o) => Some(crate::ext::vx_clone(__o)), None => None }),
            (K::Opt(_), "as_ref") => parse_quote!(match &#cur { Some(__o) => Some(__o), None => None }),
            (K::Res(ik), "map") => { let f = self.apply(&a[0], quote!(__o), ik, env, false); parse_quote!((match #cur { Ok(__o) => Ok(#f), Err(__e) => Err(__e) })) }
            (K::Res(ik), "and_then") => { let f = self.apply(&a[0], quote!(__o), ik, env, false); parse_quote!((match #cur { Ok(__o) => #f, Err(__e) => Err(__e) })) }
            (_, "map_err") => { let f = self.apply(&a[0], quote!(__e), &K::Unk, env, false); parse_quote!((match #cur { Ok(__o) => Ok(__o), Err(__e) => Err(#f) })) }
            (K::Res(_), "unwrap_or") => { let f = self.expr(&a[0], env, false); parse_quote!(match #cur { Ok(__o) => __o, Err(_) => #f }) }
            (K::Res(ik), "unwrap_or_else") => { let f = self.apply(&a[0], quote!(__e), ik, env, false); parse_quote!(match #cur { Ok(__o) => __o, Err(__e) => #f }) }
            (K::Res(_), "unwrap_or_default") => parse_quote!(match #cur { Ok(__o) => __o, Err(_) => crate::ext::VxDefault::vx_default() }),
            (K::Res(_), "ok") => parse_quote!(match #cur { Ok(__o) => Some(__o), Err(_) => None }),
            (_, "extend") if a.len() == 1 => {
                let x = self.to_vec_src(&a[0], env);
                parse_quote!(#cur.vx_extend(#x))
            }
            (K::Opt(_) , "clone") => parse_quote!(crate::ext::vx_clone(&#cur)),
            (_, "strip_suffix") if a.len() == 1 => { let x = self.expr(&a[0], env, false); parse_quote!(#cur.vx_strip_suffix(#x)) }
            (_, "replace") if a.len() == 2 => { let (x, y) = (self.expr(&a[0], env, false), self.expr(&a[1], env, false)); parse_quote!(crate::ext::VxText::vx_replace(&#cur, #x, #y)) }
            (_, "to_le_bytes") if a.is_empty() => parse_quote!(crate::ext::VxToLe::vx_to_le_bytes(#cur)),
            (_, "to_owned" | "clone") if a.is_empty() => parse_quote!(crate::ext::vx_clone(&#cur)),
            (_, "as_deref") if a.is_empty() => parse_quote!(crate::ext::VxAsDeref::vx_as_deref(&#cur)),
            (K::Coll(_), "contains") if a.len() == 1 => { let x = self.expr(&a[0], env, false); parse_quote!(#cur.vx_has(#x)) }
            (K::Unk | K::Ty(_), "max" | "min") if a.len() == 1 => { let x = self.expr(&a[0], env, false); let f = format_ident!("vx_{}imum", name); parse_quote!(crate::ext::VxNum::#f(#cur, #x)) }
            (K::Coll(_), "to_vec") => parse_quote!(crate::ext::vx_to_vec(&#cur)),
            _ => {
                let args: Vec<Expr> = a.iter().map(|x| self.expr(x, env, false)).collect();
                let meth = &m.method;
                let tf = &m.turbofish;
                parse_quote!(#cur.#meth #tf(#(#args),*))
            }
        }
    }

    fn to_vec_src(&mut self, e: &Expr, env: &Env) -> TokenStream {
        // an argument that is IntoIterator, as a Vec of items
        match e {
            Expr::Reference(r) => { let x = self.expr(&r.expr, env, false); quote!((#x).vx_iter()) }
            _ => {
                let k = self.t.kind(e, env);
                let x = self.expr(e, env, false);
                match k { K::Iter(_) => quote!(#x), _ => quote!(crate::ext::VxInto::vx_into(#x)) }
            }
        }
    }

    fn stream(&mut self, base: Expr, bk: &K, starts: bool, steps: &[Step], has_sink: bool, env: &Env, early: bool, hint: &K) -> (Expr, bool) {
        let mut idx = 0;
        // source
        let mut range: Option<(Expr, Expr)> = None;
        let mut hoist = quote!();
        let mut src: TokenStream;
        let mut ik: K = match bk { K::Iter(k) | K::Coll(k) => (**k).clone(), _ => K::Unk };
        if starts {
            let m = &steps[0].m;
            let name = m.method.to_string();
            let args: Vec<Expr> = m.args.iter().map(|x| self.expr(x, env, false)).collect();
            src = match name.as_str() {
                "iter" => quote!(#base.vx_iter()),
                "into_iter" => match (bk, &base) {
                    (K::Iter(_), _) => quote!(#base),
                    (_, Expr::Reference(r)) => { let x = &r.expr; quote!((#x).vx_iter()) }
                    _ => quote!(crate::ext::VxInto::vx_into(#base)),
                },
                "values" if *bk == K::Map => quote!(#base.vx_values()),
                "keys" if *bk == K::Map => quote!(#base.vx_keys()),
                "values" | "keys" | "values_with_index" => { let mm = &m.method; quote!(#base.#mm()) }
                "chars" => quote!((#base).vx_chars()),
                "chunks_exact" => {
                    let a = &args[0];
                    if matches!(base, Expr::MethodCall(_) | Expr::Call(_) | Expr::Block(_)) { let h = self.id("base"); hoist = quote!(let #h = #base;); quote!(crate::ext::vx_chunks_exact(&#h, #a)) }
                    else { quote!(crate::ext::vx_chunks_exact(&#base, #a)) }
                }
                _ => { let mm = &m.method; quote!(#base.#mm(#(#args),*)) }
            };
            if let K::Iter(k) = self.t.kind(&Expr::MethodCall(m.clone()), env) { ik = *k; }
            idx = 1;
        } else if let Some((a, b, incl)) = Self::range_parts(&base) {
            let a = self.expr(&a, env, false);
            let b = self.expr(&b, env, false);
            src = quote!();
            range = Some((a, if incl { parse_quote!((#b) + 1) } else { b }));
        } else {
            src = quote!(#base);
        }
        // eager closure-free adaptors
        let nsteps = steps.len();
        let sink_at = if has_sink { nsteps - 1 } else { nsteps };
        // sorting and removing repetitions need everything that comes before
        if range.is_none() {
            if let Some(h) = (idx..sink_at).find(|&h| is_whole(&steps[h].m.method.to_string())) {
                if (idx..h).any(|j| !is_eager(&steps[j].m.method.to_string())) {
                    let k = self.t.kind(&Expr::MethodCall(steps[h - 1].m.clone()), env);
                    let (pre, _) = self.stream(base.clone(), bk, starts, &steps[..h], false, env, false, &K::Unk);
                    return self.stream(pre, &k, false, &steps[h..], has_sink, env, early, hint);
                }
            }
        }
        while idx < sink_at && range.is_none() {
            let m = &steps[idx].m;
            let a: Vec<Expr> = m.args.iter().cloned().collect();
            match m.method.to_string().as_str() {
                "skip" => { let n = self.expr(&a[0], env, false); src = quote!(crate::ext::vx_skip(#src, #n)); }
                "take" => { let n = self.expr(&a[0], env, false); src = quote!(crate::ext::vx_take(#src, #n)); }
                "enumerate" => src = quote!(crate::ext::vx_enumerate(#src)),
                "zip" => { let o = self.to_vec_src(&a[0], env); src = quote!(crate::ext::vx_zip(#src, #o)); }
                "chain" => { let o = self.to_vec_src(&a[0], env); src = quote!(crate::ext::vx_chain(#src, #o)); }
                "copied" | "cloned" => src = quote!(crate::ext::vx_copied(#src)),
                "rev" => src = quote!(crate::ext::vx_rev(#src)),
                "flatten" => src = quote!(crate::ext::VxFlatten::vx_flatten(#src)),
                "sorted_by_key" => {
                    let n = self.loops; self.loops += 1;
                    let (item, out, all) = (format_ident!("__it{}", n), format_ident!("__out{}", n), format_ident!("__all{}", n));
                    let f = self.apply(&a[0], quote!(#item), &ik, env, false);
                    let l = self.mk_loop(n, Src::Vec(quote!(#all.vx_iter())), None, &item, quote!(#out.push(#f);), quote!(let mut #out = Vec::new();), quote!(crate::ext::vx_sort_by_keys(#all, #out)));
                    src = quote!({ let #all = #src; #l });
                }
                "sorted" => src = quote!(crate::ext::vx_sorted(#src)),
                "dedup_by" => {
                    let n = self.loops; self.loops += 1;
                    let (item, out, last, same) = (format_ident!("__it{}", n), format_ident!("__out{}", n), format_ident!("__last{}", n), format_ident!("__same{}", n));
                    let f = self.apply2(&a[0], quote!(#last), quote!(&#item), &ik, env);
                    src = self.mk_loop(n, Src::Vec(src), None, &item, quote!(let #same = match #out.last() { Some(#last) => #f, None => false }; if !#same { #out.push(#item); }), quote!(let mut #out = Vec::new();), quote!(#out));
                    src = quote!({ #src });
                }
                "into_iter" | "iter" => {}
                _ => break,
            }
            if let K::Iter(k) = self.t.kind(&Expr::MethodCall(m.clone()), env) { ik = *k; }
            idx += 1;
        }
        let sink_m = if has_sink { Some(steps[nsteps - 1].m.clone()) } else { None };
        let sink_name = sink_m.as_ref().map(|m| m.method.to_string()).unwrap_or("collect_vec".into());
        // no loop needed
        if idx == sink_at && range.is_none() {
            match sink_name.as_str() {
                "collect_vec" => return (parse_quote!(#src), false),
                "next" => return (parse_quote!(crate::ext::vx_next(#src)), false),
                "last" => return (parse_quote!(crate::ext::vx_last(#src)), false),
                "nth" => { let a = self.expr(&sink_m.unwrap().args[0], env, false); return (parse_quote!(crate::ext::vx_nth(#src, #a)), false); }
                "count" => return (parse_quote!(crate::ext::vx_count(#src)), false),
                "min" => return (parse_quote!(crate::ext::vx_min_of(#src)), false),
                "max" => return (parse_quote!(crate::ext::vx_max_of(#src)), false),
                "sum" => return (parse_quote!(crate::ext::vx_sum_of(#src)), false),
                "collect" => {
                    if self.sink_of(sink_m.as_ref().unwrap(), &ik, hint) == Sink::Vec { return (parse_quote!(#src), false); }
                }
                _ => {}
            }
        }
        let n = self.loops; self.loops += 1;
        let item = format_ident!("__it{}", n);
        let out = format_ident!("__out{}", n);
        let loop_steps: Vec<Step> = steps[idx..sink_at].to_vec();
        // element kind at the sink
        let sink_item_kind = if sink_at > 0 {
            match self.t.kind(&Expr::MethodCall(steps[sink_at - 1].m.clone()), env) { K::Iter(k) => *k, _ => ik.clone() }
        } else { ik.clone() };
        let mut pre;
        let fin;
        let mut ate = false;
        let mut sink_kind = None;
        match sink_name.as_str() {
            "collect_vec" => { pre = quote!(let mut #out = Vec::new();); fin = quote!(#out); sink_kind = Some(Sink::Vec); }
            "collect" => {
                let s = if self.map_hints.contains(&n) {
                    match self.sink_of(sink_m.as_ref().unwrap(), &sink_item_kind, hint) { Sink::ResVec | Sink::ResMap => Sink::ResMap, _ => Sink::Map }
                } else { self.sink_of(sink_m.as_ref().unwrap(), &sink_item_kind, hint) };
                sink_kind = Some(s);
                pre = match s { Sink::Vec | Sink::ResVec => quote!(let mut #out = Vec::new();), _ => quote!(let mut #out = std::collections::HashMap::new();) };
                if matches!(s, Sink::ResVec | Sink::ResMap) {
                    if early { fin = quote!(#out); ate = true; }
                    else { fin = quote!(match __err { Some(__e) => Err(__e), None => Ok(#out) }); pre = quote!(#pre let mut __err: Option<crate::errors::Error> = None;); }
                } else { fin = quote!(#out); }
            }
            "sum" | "min" | "max" => {
                // materialise, then the closure-free sink
                pre = quote!(let mut #out = Vec::new(););
                let f = format_ident!("vx_{}_of", sink_name);
                fin = quote!(crate::ext::#f(#out));
                sink_kind = Some(Sink::Vec);
            }
            "count" => { pre = quote!(let mut #out: usize = 0;); fin = quote!(#out); }
            "find" | "position" | "next" | "find_map" => { pre = quote!(let mut #out = None;); fin = quote!(#out); }
            "any" => { pre = quote!(let mut #out = false;); fin = quote!(#out); }
            "all" => { pre = quote!(let mut #out = true;); fin = quote!(#out); }
            "for_each" => { pre = quote!(); fin = quote!(); }
            other => {
                // unknown sink: materialise, then call the method on the Vec
                self.notes.insert(format!("unknown sink {}", other));
                pre = quote!(let mut #out = Vec::new(););
                let mm = &sink_m.as_ref().unwrap().method;
                let args: Vec<Expr> = sink_m.as_ref().unwrap().args.iter().map(|x| self.expr(x, env, false)).collect();
                fin = quote!(#out.#mm(#(#args),*));
                sink_kind = Some(Sink::Vec);
            }
        }
        let flag = sink_kind.map_or(false, |s| matches!(s, Sink::ResVec | Sink::ResMap)) && !ate;
        let body = self.emit(&loop_steps, 0, quote!(#item), ik.clone(), env, n, &sink_name, sink_kind, sink_m.as_ref(), ate);
        let srcv = match range { Some((a, b)) => Src::Range(quote!(#a), quote!(#b)), None => Src::Vec(src) };
        let l = self.mk_loop(n, srcv, None, &item, if flag { quote!(if __err.is_none() { #body }) } else { body }, pre, fin);
        (parse_quote!({ #hoist #l }), ate)
    }

    fn sink_of(&self, m: &ExprMethodCall, item: &K, hint: &K) -> Sink {
        let mut k = K::Unk;
        if let Some(tf) = &m.turbofish { if let Some(GenericArgument::Type(t)) = tf.args.first() { k = kind_ty(t); } }
        if k == K::Unk { k = hint.clone(); }
        match k {
            K::Res(i) => match *i { K::Map => Sink::ResMap, K::Coll(_) => Sink::ResVec, _ => match hint { K::Map => Sink::ResMap, K::Res(h) if **h == K::Map => Sink::ResMap, _ => Sink::ResVec } },
            K::Map => Sink::Map,
            K::Coll(_) => Sink::Vec,
            _ => { let _ = item; Sink::Vec }
        }
    }

    fn emit(&mut self, steps: &[Step], i: usize, item: TokenStream, ik: K, env: &Env, n: usize, sink: &str, sk: Option<Sink>, sink_m: Option<&ExprMethodCall>, early: bool) -> TokenStream {
        let out = format_ident!("__out{}", n);
        let k = format_ident!("__k{}", n);
        if i == steps.len() {
            return match sink {
                "collect" | "collect_vec" => match sk.unwrap() {
                    Sink::Vec => quote!(#out.push(#item);),
                    Sink::Map => { let kv = self.id("kv"); quote!(let #kv = #item; #out.insert(#kv.0, #kv.1);) }
                    Sink::ResVec if early => quote!(match #item { Ok(__x) => { #out.push(__x); } Err(__e) => { return Err(__e); } }),
                    Sink::ResMap if early => quote!(match #item { Ok(__x) => { #out.insert(__x.0, __x.1); } Err(__e) => { return Err(__e); } }),
                    Sink::ResVec => quote!(match #item { Ok(__x) => { #out.push(__x); } Err(__e) => { __err = Some(__e); } }),
                    Sink::ResMap => quote!(match #item { Ok(__x) => { #out.insert(__x.0, __x.1); } Err(__e) => { __err = Some(__e); } }),
                },
                "count" => quote!(#out = #out + 1;),
                "next" => quote!(#out = Some(#item); break;),
                "find" => { let f = self.apply(&sink_m.unwrap().args[0], quote!(&#item), &ik, env, false); quote!(if #f { #out = Some(#item); break; }) }
                "find_map" => { let f = self.apply(&sink_m.unwrap().args[0], quote!(#item), &ik, env, false); quote!(#out = #f; if #out.is_some() { break; }) }
                "position" => { let f = self.apply(&sink_m.unwrap().args[0], quote!(#item), &ik, env, false); quote!(if #f { #out = Some(#k - 1); break; }) }
                "any" => { let f = self.apply(&sink_m.unwrap().args[0], quote!(#item), &ik, env, false); quote!(if #f { #out = true; break; }) }
                "all" => { let f = self.apply(&sink_m.unwrap().args[0], quote!(#item), &ik, env, false); quote!(if !#f { #out = false; break; }) }
                "for_each" => { let f = self.apply(&sink_m.unwrap().args[0], quote!(#item), &ik, env, false); quote!(#f;) }
                _ => quote!(#out.push(#item);),
            };
        }
        let m = steps[i].m.clone();
        let nk = match self.t.kind(&Expr::MethodCall(m.clone()), env) { K::Iter(k) => *k, _ => K::Unk };
        let name = m.method.to_string();
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        match name.as_str() {
            "map" => {
                // `?`/`Err` in the last map before an early-exit Result collect is the function's own exit
                let exits_ok = early && i == steps.len() - 1;
                let v = self.id("m");
                let f = self.apply(&a[0], item, &ik, env, exits_ok);
                let rest = self.emit(steps, i + 1, quote!(#v), nk, env, n, sink, sk, sink_m, early);
                quote!(let #v = #f; #rest)
            }
            "filter" => {
                let f = self.apply(&a[0], quote!(&#item), &ik, env, false);
                let rest = self.emit(steps, i + 1, item, ik, env, n, sink, sk, sink_m, early);
                quote!(if #f { #rest })
            }
            "filter_map" | "flat_map" => {
                let v = self.id("m");
                let f = self.apply(&a[0], item, &ik, env, false);
                let rest = self.emit(steps, i + 1, quote!(#v), nk, env, n, sink, sk, sink_m, early);
                if name == "flat_map" && i + 1 == steps.len() && matches!(sink, "collect" | "collect_vec") && matches!(sk, Some(Sink::Vec)) && matches!(self.t.closure_kind(&a[0], ik.clone(), env), K::Coll(_)) { return quote!(crate::ext::vx_append(&mut #out, #f);); }
                if name == "flat_map" { return quote!(match crate::ext::VxOpt::vx_opt(#f) { Some(#v) => { #rest } None => {} }); }
                quote!(match #f { Some(#v) => { #rest } None => {} })
            }
            "flatten" => {
                let v = self.id("m");
                let rest = self.emit(steps, i + 1, quote!(#v), nk, env, n, sink, sk, sink_m, early);
                quote!(match #item { Some(#v) => { #rest } None => {} })
            }
            "enumerate" => {
                let v = self.id("m");
                let rest = self.emit(steps, i + 1, quote!(#v), nk, env, n, sink, sk, sink_m, early);
                if steps[..i].iter().any(|s| s.m.method != "map") { self.notes.insert("UNSUPPORTED enumerate".into()); return quote!(vx_unsupported_enumerate;); }
                quote!(let #v = (#k - 1, #item); #rest)
            }
            "copied" | "cloned" => {
                let v = self.id("m");
                let rest = self.emit(steps, i + 1, quote!(#v), nk, env, n, sink, sk, sink_m, early);
                quote!(let #v = crate::ext::vx_clone(#item); #rest)
            }
            o => { self.notes.insert(format!("UNSUPPORTED adaptor {}", o)); let w = format_ident!("vx_unsupported_{}", o); quote!(#w;) }
        }
    }
}

fn is_whole(m: &str) -> bool { matches!(m, "sorted_by_key" | "sorted" | "dedup_by") }
fn is_eager(m: &str) -> bool { is_whole(m) || matches!(m, "skip" | "take" | "enumerate" | "zip" | "chain" | "copied" | "cloned" | "rev" | "flatten" | "into_iter" | "iter") }

/// `let [a, b] = e;` (an array of Copy items): one `let` per item
pub struct SlicePats(pub usize);
impl VisitMut for SlicePats {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Slice(ps), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() && ps.elems.iter().all(|e| matches!(e, Pat::Ident(_) | Pat::Wild(_))) {
                        let t = format_ident!("__arr{}", self.0);
                        self.0 += 1;
                        let e = &init.expr;
                        out.push(parse_quote!(let #t = #e;));
                        for (i, p) in ps.elems.iter().enumerate() { let n = LitInt::new(&i.to_string(), Span::call_site()); if !matches!(p, Pat::Wild(_)) { out.push(parse_quote!(let #p = #t[#n];)); } }
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
}

fn semi(v: &[Stmt]) -> Vec<Stmt> {
    let mut v = v.to_vec();
    if let Some(Stmt::Expr(_, s)) = v.last_mut() { if s.is_none() { *s = Some(Default::default()); } }
    v
}
fn is_int_kind(k: &K) -> bool { matches!(k, K::Ty(t) if matches!(t.as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i64" | "i32" | "i8" | "i16" | "u128")) }
/// `….first().ok_or(..)?` and the like: a reference to an element
fn is_ref_chain(e: &Expr) -> bool {
    match e {
        Expr::Try(t) => is_ref_chain(&t.expr),
        Expr::Paren(t) => is_ref_chain(&t.expr),
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "ok_or" | "ok_or_else" | "unwrap" | "expect" | "unwrap_or" => is_ref_chain(&m.receiver),
            "first" | "last" | "get" | "next" => true,
            _ => false,
        },
        _ => false,
    }
}

enum Src { Range(TokenStream, TokenStream), Vec(TokenStream) }

fn as_else(e: Expr) -> Expr {
    match e { Expr::Block(_) | Expr::If(_) => e, o => parse_quote!({ #o }) }
}
