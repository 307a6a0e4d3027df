//! The rewriting of one function / type (rules T1.. in DESIGN.md).
use crate::source::{attrs_on, cfg_if_branch, norm, FoundFn, FoundTy, Repo};
use crate::{Cfg, FnSpec};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Ident, Pat, Stmt};

pub struct Emitted {
    pub header: String,
    pub body: Option<String>,
    pub nloops: usize,
    pub unknown: Vec<String>,
    pub inlined: Vec<String>,
    pub dropped: usize,
    pub unsupported: Vec<String>,
    pub hash: String,
}

const LOG_ROOTS: &[&str] = &["log_event", "log_event_cb", "update_ticks"];
/// constructors of these are never effects, whatever their name
const STD_TYPES: &[&str] = &["Vec", "VecDeque", "HashMap", "HashSet", "FxHashMap", "FxHashSet", "String", "Box", "Time"];
const DROP_MACROS: &[&str] = &["println", "eprintln", "print", "eprint", "dbg", "trace", "debug"];

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

// ---------------------------------------------------------------- paths and types

fn is_prim(s: &str) -> bool {
    matches!(
        s,
        "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "bool" | "f32" | "f64"
    )
}

struct Paths<'a> {
    cfg: &'a Cfg,
}

impl Paths<'_> {
    fn full(p: &syn::Path) -> String {
        p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
    }
    fn fix(&self, p: &mut syn::Path) {
        let full = Self::full(p);
        for (a, b) in &self.cfg.pathmap {
            let hit = full == *a || (a.ends_with("::*") && full.starts_with(&a[..a.len() - 1]));
            if hit {
                let args = p.segments.last().unwrap().arguments.clone();
                if let Some(base) = b.strip_suffix("::*") {
                    let last = p.segments.last().unwrap().ident.clone();
                    let b: syn::Path = syn::parse_str(base).unwrap();
                    *p = parse_quote!(#b::#last);
                } else {
                    *p = syn::parse_str(b).unwrap();
                }
                p.segments.last_mut().unwrap().arguments = args;
                return;
            }
        }
        if p.segments.len() > 1 {
            let k = p
                .segments
                .iter()
                .position(|s| {
                    let n = s.ident.to_string();
                    n.starts_with(char::is_uppercase) || is_prim(&n)
                })
                .unwrap_or(p.segments.len() - 1);
            if k > 0 {
                p.segments = p.segments.iter().skip(k).cloned().collect();
                p.leading_colon = None;
            }
        }
    }
}

impl VisitMut for Paths<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        self.fix(p);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(_) | syn::Type::BareFn(_) = t {
            let n = norm(&*t);
            for (a, b) in &self.cfg.typemap {
                if a.contains('<') && n == a.replace(' ', "") {
                    *t = syn::parse_str(b).unwrap();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::TraitObject(o) = t {
            if let Some(syn::TypeParamBound::Trait(b)) = o.bounds.first() {
                let id = format_ident!("Dyn{}", b.path.segments.last().unwrap().ident);
                *t = parse_quote!(#id);
                return;
            }
        }
        if let syn::Type::Path(p) = t {
            let last = p.path.segments.last().unwrap().clone();
            let name = last.ident.to_string();
            if self.cfg.erase.contains(&name) {
                if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                    if let Some(syn::GenericArgument::Type(inner)) =
                        a.args.iter().find(|a| matches!(a, syn::GenericArgument::Type(_)))
                    {
                        *t = inner.clone();
                        return;
                    }
                }
            }
            for (a, b) in &self.cfg.typemap {
                if *a == name {
                    *t = syn::parse_str(b).unwrap();
                    return;
                }
            }
        }
    }
    fn visit_macro_mut(&mut self, _: &mut syn::Macro) {}
}

pub fn emit_type(t: &FoundTy, cfg: &Cfg, opts: &[String]) -> Result<String, String> {
    let mut paths = Paths { cfg };
    let derive_names = |attrs: &[syn::Attribute]| -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                if let syn::Meta::List(l) = &a.meta {
                    for p in l.tokens.to_string().split(',') {
                        s.insert(p.trim().rsplit("::").next().unwrap().trim().to_string());
                    }
                }
            }
        }
        s
    };
    let mut out = String::new();
    let (name, generics, body, derives, ctxattr) = match t {
        FoundTy::Struct(s) => {
            let mut s = s.clone();
            let d = derive_names(&s.attrs);
            let ctx = s.attrs.iter().any(|a| {
                a.path().segments.last().is_some_and(|x| x.ident == "context_internal" || x.ident == "context_macro")
            });
            s.attrs.clear();
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
            if ctx {
                if let syn::Fields::Named(n) = &mut s.fields {
                    let f: syn::FieldsNamed = parse_quote!({ pub context_info: ContextInfo });
                    n.named.push(f.named.into_iter().next().unwrap());
                }
            }
            s.vis = parse_quote!(pub);
            strip_bounds(&mut s.generics, opts);
            paths.visit_item_struct_mut(&mut s);
            (s.ident.to_string(), s.generics.clone(), s.to_token_stream().to_string(), d, ctx)
        }
        FoundTy::Enum(e) => {
            let mut e = e.clone();
            let d = derive_names(&e.attrs);
            e.attrs.clear();
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
                // enum_dispatch's shorthand: a bare type name is a variant holding that type
            }
            e.vis = parse_quote!(pub);
            strip_bounds(&mut e.generics, opts);
            paths.visit_item_enum_mut(&mut e);
            (e.ident.to_string(), e.generics.clone(), e.to_token_stream().to_string(), d, false)
        }
    };
    let _ = ctxattr;
    if derives.contains("Copy") && !opts.iter().any(|o| o == "noderive") {
        out.push_str("#[derive(Clone, Copy)]\n");
    }
    out.push_str(&body);
    out.push('\n');
    if derives.contains("Clone") && !derives.contains("Copy") && !opts.iter().any(|o| o == "noderive") {
        let (ig, ty, wc) = generics.split_for_impl();
        // derive(Clone): a field-by-field copy
        out.push_str(&format!(
            "impl {} {}{} {} {{ \n#[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n",
            ig.to_token_stream(),
            name,
            ty.to_token_stream(),
            wc.to_token_stream()
        ));
    }
    Ok(out)
}

fn strip_bounds(g: &mut syn::Generics, opts: &[String]) {
    let keep: Vec<&str> = opts
        .iter()
        .filter_map(|o| o.strip_prefix("generics="))
        .flat_map(|s| s.split(','))
        .collect();
    let bound: Option<&str> = opts.iter().find_map(|o| o.strip_prefix("bound="));
    g.where_clause = None;
    let mut ps = syn::punctuated::Punctuated::new();
    for p in g.params.iter() {
        let mut p = p.clone();
        if matches!(p, syn::GenericParam::Lifetime(_)) && !keep.is_empty() {
            continue;
        }
        if let syn::GenericParam::Type(t) = &mut p {
            if !keep.is_empty() && !keep.contains(&t.ident.to_string().as_str()) {
                continue;
            }
            t.bounds.clear();
            t.colon_token = None;
            t.default = None;
            if let Some(b) = bound {
                match b.split_once(':') {
                    Some((n, b)) if t.ident == n => t.bounds.push(syn::parse_str(b).unwrap()),
                    Some(_) => {}
                    None => t.bounds.push(syn::parse_str(b).unwrap()),
                }
            }
        }
        ps.push(p);
    }
    g.params = ps;
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
}

// ---------------------------------------------------------------- small visitors

struct HasEscape(bool);
impl<'ast> Visit<'ast> for HasEscape {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

struct Rename {
    from: String,
    to: Ident,
}
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if *i == self.from {
            *i = self.to.clone();
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        // `S { x }` keeps the field's name
        if f.colon_token.is_none() {
            if let syn::Member::Named(n) = &f.member {
                if *n == self.from {
                    let m = n.clone();
                    let to = self.to.clone();
                    *f = parse_quote!(#m: #to);
                    return;
                }
            }
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            if let syn::Member::Named(n) = &f.member {
                if *n == self.from {
                    let m = n.clone();
                    let to = self.to.clone();
                    let p: Pat = parse_quote!(#to);
                    f.member = syn::Member::Named(m);
                    f.colon_token = Some(Default::default());
                    *f.pat = p;
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, &mut f.pat);
    }
    fn visit_expr_field_mut(&mut self, f: &mut syn::ExprField) {
        self.visit_expr_mut(&mut f.base);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
    fn visit_expr_struct_mut(&mut self, s: &mut syn::ExprStruct) {
        for f in s.fields.iter_mut() {
            self.visit_field_value_mut(f);
        }
        if let Some(r) = &mut s.rest {
            self.visit_expr_mut(r);
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() == 1 {
            visit_mut::visit_path_mut(self, p);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        fn go(ts: proc_macro2::TokenStream, from: &str, to: &Ident) -> proc_macro2::TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == from => proc_macro2::TokenTree::Ident(to.clone()),
                    proc_macro2::TokenTree::Group(g) => {
                        proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), from, to)))
                    }
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), &self.from, &self.to);
    }
}

fn pat_ident(p: &Pat) -> Option<Ident> {
    match p {
        Pat::Ident(i) => Some(i.ident.clone()),
        Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

fn root_call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => root_call_name(&m.receiver),
        Expr::Try(t) => root_call_name(&t.expr),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
            _ => None,
        },
        _ => None,
    }
}

// ---------------------------------------------------------------- inlining of helpers without a contract

struct Inliner<'a> {
    cfg: &'a Cfg,
    repo: &'a Repo,
    inlined: Vec<String>,
    unknown: Vec<String>,
    depth: usize,
}

impl Inliner<'_> {
    fn candidate(&self, name: &str) -> Option<FoundFn> {
        if self.cfg.contracts.contains(name) || self.cfg.shims.contains(name) || self.depth > 4 || LOG_ROOTS.contains(&name) {
            return None;
        }
        let f = self.repo.unique_fn(None, name)?;
        let mut h = HasEscape(false);
        h.visit_block(f.body.as_ref().unwrap());
        if h.0 {
            return None;
        }
        Some(f)
    }
    fn build(&mut self, f: &FoundFn, args: Vec<Expr>) -> Option<Expr> {
        let mut lets: Vec<Stmt> = vec![];
        let pats: Vec<Pat> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Typed(t) => Some((*t.pat).clone()),
                _ => None,
            })
            .collect();
        if pats.len() != args.len() {
            return None;
        }
        for (i, (p, a)) in pats.iter().zip(&args).enumerate() {
            // an argument that is the same plain variable needs no let
            if let (Some(pi), Expr::Path(ap)) = (pat_ident(p), a) {
                if ap.path.is_ident(&pi) {
                    continue;
                }
            }
            let tmp = format_ident!("vx_arg{}_{}", i, self.inlined.len());
            lets.push(parse_quote!(let #tmp = #a;));
        }
        for (i, (p, a)) in pats.iter().zip(&args).enumerate() {
            if let (Some(pi), Expr::Path(ap)) = (pat_ident(p), a) {
                if ap.path.is_ident(&pi) {
                    continue;
                }
            }
            let tmp = format_ident!("vx_arg{}_{}", i, self.inlined.len());
            lets.push(parse_quote!(let #p = #tmp;));
        }
        let body = f.body.clone().unwrap();
        let stmts = body.stmts;
        let e: Expr = parse_quote!({ #(#lets)* #(#stmts)* });
        Some(e)
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut repl = None;
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let on_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                if on_self {
                    if let Some(f) = self.candidate(&name) {
                        if f.sig.receiver().is_some_and(|r| r.reference.is_some()) {
                            repl = self.build(&f, m.args.iter().cloned().collect());
                            if repl.is_some() {
                                self.inlined.push(name);
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    if name.starts_with(char::is_lowercase) {
                        if let Some(f) = self.candidate(&name) {
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            let ok = match f.sig.receiver() {
                                None => true,
                                Some(_) => {
                                    let first = if args.is_empty() { None } else { Some(args.remove(0)) };
                                    matches!(first, Some(Expr::Path(p)) if p.path.is_ident("self"))
                                }
                            };
                            if ok {
                                repl = self.build(&f, args);
                                if repl.is_some() {
                                    self.inlined.push(name);
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some(r) = repl {
            *e = r;
            self.depth += 1;
            visit_mut::visit_expr_mut(self, e);
            self.depth -= 1;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- match guards
/// does `q` match everything `p` does, binding only what `p` binds at the same place?
fn subsumes(q: &Pat, p: &Pat) -> bool {
    match (q, p) {
        (Pat::Paren(a), b) => subsumes(&a.pat, b),
        (a, Pat::Paren(b)) => subsumes(a, &b.pat),
        (Pat::Wild(_), _) => true,
        (Pat::Or(o), p) => o.cases.iter().any(|c| subsumes(c, p)),
        (Pat::Ident(a), Pat::Ident(b)) => a.ident == b.ident && a.by_ref.is_some() == b.by_ref.is_some() && a.subpat.is_none() && b.subpat.is_none(),
        (a, Pat::Ident(b)) if b.subpat.is_some() => subsumes(a, &b.subpat.as_ref().unwrap().1),
        (Pat::TupleStruct(a), Pat::TupleStruct(b)) => {
            norm(&a.path) == norm(&b.path) && a.elems.len() == b.elems.len()
                && a.elems.iter().zip(&b.elems).all(|(x, y)| !matches!(x, Pat::Rest(_)) && subsumes(x, y) || norm(x) == norm(y))
        }
        (Pat::Tuple(a), Pat::Tuple(b)) => a.elems.len() == b.elems.len() && a.elems.iter().zip(&b.elems).all(|(x, y)| subsumes(x, y)),
        (Pat::Reference(a), Pat::Reference(b)) => subsumes(&a.pat, &b.pat),
        _ => norm(q) == norm(p),
    }
}
/// can no value match both? (different constructors somewhere)
fn disjoint(a: &Pat, b: &Pat) -> bool {
    fn path_of(p: &Pat) -> Option<String> {
        match p {
            Pat::TupleStruct(t) => t.path.segments.last().map(|s| s.ident.to_string()),
            Pat::Path(t) => t.path.segments.last().map(|s| s.ident.to_string()),
            Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().starts_with(|c: char| c.is_uppercase()) => Some(i.ident.to_string()),
            _ => None,
        }
    }
    match (a, b) {
        (Pat::Paren(x), y) | (y, Pat::Paren(x)) => disjoint(&x.pat, y),
        (Pat::Or(o), y) | (y, Pat::Or(o)) => o.cases.iter().all(|c| disjoint(c, y)),
        (Pat::Ident(i), y) | (y, Pat::Ident(i)) if i.subpat.is_some() => disjoint(&i.subpat.as_ref().unwrap().1, y),
        (Pat::Reference(x), Pat::Reference(y)) => disjoint(&x.pat, &y.pat),
        (Pat::Tuple(x), Pat::Tuple(y)) => x.elems.len() == y.elems.len() && x.elems.iter().zip(&y.elems).any(|(x, y)| disjoint(x, y)),
        _ => match (path_of(a), path_of(b)) {
            (Some(x), Some(y)) if x != y => true,
            (Some(_), Some(_)) => match (a, b) {
                (Pat::TupleStruct(x), Pat::TupleStruct(y)) => x.elems.len() == y.elems.len() && x.elems.iter().zip(&y.elems).any(|(x, y)| disjoint(x, y)),
                _ => false,
            },
            _ => false,
        },
    }
}
/// `P if g => A, .., Q => B` becomes `P => if g { A } else { B }, .., Q => B` when Q covers P and nothing between
/// overlaps it (the verifier mishandles mutable references after guarded arms).
fn merge_guards(m: &mut syn::ExprMatch) {
    let mut i = m.arms.len();
    while i > 0 {
        i -= 1;
        if m.arms[i].guard.is_none() || matches!(m.arms[i].pat, Pat::Or(_)) {
            continue;
        }
        let mut j = i + 1;
        while j < m.arms.len() && disjoint(&m.arms[j].pat, &m.arms[i].pat) {
            j += 1;
        }
        if j >= m.arms.len() || m.arms[j].guard.is_some() || !subsumes(&m.arms[j].pat, &m.arms[i].pat) {
            continue;
        }
        let other = m.arms[j].body.clone();
        if norm(&other).contains("loop") || norm(&other).contains("while") || norm(&other).contains("for ") {
            continue;
        }
        let (_, g) = m.arms[i].guard.take().unwrap();
        let a = m.arms[i].body.clone();
        m.arms[i].body = parse_quote!({ if #g { #a } else { #other } });
    }
}
// ---------------------------------------------------------------- constants and lock guards

/// `Self::NAME` / `NAME` of a constant of the repository is replaced by its defining expression.
struct ConstInline<'a> {
    repo: &'a Repo,
}
impl VisitMut for ConstInline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            let n = p.path.segments.len();
            let last = p.path.segments.last().unwrap().ident.to_string();
            let upper = last.len() > 1 && last.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_');
            if upper && (n == 1 || (n == 2 && p.path.segments[0].ident == "Self")) {
                if let Some(x) = self.repo.const_expr(&last) {
                    if !matches!(x, Expr::Closure(_)) {
                        *e = match &x {
                            Expr::Path(_) | Expr::Lit(_) => x,
                            _ => parse_quote!((#x)),
                        };
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `let g = m.lock(); ... }`: the guard's implicit drop at the end of the block (and before every `return`
/// in it) becomes `vx_unlock(g, vw)`; an explicit `drop(g)` becomes the same call where it stands.
struct Guards {
    name: String,
    explicit: bool,
    unlock: &'static str,
}
impl VisitMut for Guards {
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.explicit {
            return;
        }
        if let Expr::Return(r) = e {
            let g = format_ident!("{}", self.name);
            let u = format_ident!("{}", self.unlock);
            *e = match &r.expr {
                Some(x) => parse_quote!({ let vx_ret = #x; #u(#g); return vx_ret }),
                None => parse_quote!({ #u(#g); return }),
            };
        }
    }
}
struct GuardPass;
impl VisitMut for GuardPass {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut k = 0;
        while k < b.stmts.len() {
            let g = match &b.stmts[k] {
                Stmt::Local(l) => match (&l.init, pat_ident(&l.pat)) {
                    (Some(i), Some(id)) => match strip_paren(&i.expr) {
                        Expr::MethodCall(m) if m.method == "lock" && m.args.is_empty() => Some(id.to_string()),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some(name) = g {
                let id = format_ident!("{}", name);
                let want = format!("drop({name})");
                let explicit = b.stmts[k + 1..].iter().any(|s| norm(s).trim_end_matches(';').ends_with(&want));
                if !explicit {
                    let mut gd = Guards { name, explicit, unlock: "vx_unlock" };
                    for s in b.stmts[k + 1..].iter_mut() {
                        gd.visit_stmt_mut(s);
                    }
                    let unlock: Stmt = parse_quote!(vx_unlock(#id););
                    match b.stmts.pop() {
                        Some(Stmt::Expr(t, None)) if b.stmts.len() > k => {
                            b.stmts.push(parse_quote!(let vx_tail = #t;));
                            b.stmts.push(unlock);
                            b.stmts.push(Stmt::Expr(parse_quote!(vx_tail), None));
                        }
                        Some(s) => {
                            b.stmts.push(s);
                            b.stmts.push(unlock);
                        }
                        None => {}
                    }
                }
            }
            // `let o = m.try_lock();`: the option is dropped by every `return` before it is moved out of, and a
            // guard taken out of it lives to the end of the `if let` body (unless dropped explicitly)
            let o = match b.stmts.get(k) {
                Some(Stmt::Local(l)) => match (&l.init, pat_ident(&l.pat)) {
                    (Some(i), Some(id)) => match strip_paren(&i.expr) {
                        Expr::MethodCall(m) if m.method == "try_lock" && m.args.is_empty() => Some(id.to_string()),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some(name) = o {
                let mut gd = Guards { name: name.clone(), explicit: false, unlock: "vx_unlock_opt" };
                for s in b.stmts[k + 1..].iter_mut() {
                    if let Stmt::Expr(Expr::If(i), _) = s {
                        if let Expr::Let(l) = &*i.cond {
                            if matches!(strip_paren(&l.expr), Expr::Path(p) if p.path.is_ident(&name)) {
                                if let Pat::TupleStruct(ts) = &*l.pat {
                                    if let Some(gid) = ts.elems.first().and_then(pat_ident) {
                                        let want = format!("drop({gid})");
                                        let done = format!("vx_unlock({gid})");
                                        let explicit = i.then_branch.stmts.iter().any(|s| {
                                            let n = norm(s);
                                            let n = n.trim_end_matches(';');
                                            n.ends_with(&want) || n.ends_with(&done)
                                        });
                                        if !explicit {
                                            let mut g2 =
                                                Guards { name: gid.to_string(), explicit: false, unlock: "vx_unlock" };
                                            g2.visit_block_mut(&mut i.then_branch);
                                            if !matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(_, None))) {
                                                i.then_branch.stmts.push(parse_quote!(vx_unlock(#gid);));
                                            }
                                        }
                                    }
                                }
                                break;
                            }
                        }
                    }
                    gd.visit_stmt_mut(s);
                }
            }
            k += 1;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.segments.last().unwrap().ident == "drop" && c.args.len() == 1 {
                    let a = c.args[0].clone();
                    *e = parse_quote!(vx_unlock(#a));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- inlining of non-escaping let-closures

struct InlineClosure {
    name: String,
    clo: syn::ExprClosure,
    other_use: bool,
    n: usize,
}
impl VisitMut for InlineClosure {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) {
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let mut lets: Vec<Stmt> = vec![];
                for (p, a) in self.clo.inputs.iter().zip(c.args.iter()) {
                    lets.push(parse_quote!(let #p = #a;));
                }
                let b = &self.clo.body;
                self.n += 1;
                *e = parse_quote!({ #(#lets)* #b });
                return;
            }
        }
        if matches!(e, Expr::Path(p) if p.path.is_ident(&self.name)) {
            self.other_use = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- iterator expressions

#[derive(Clone)]
enum Base {
    Slice(Expr, bool), // place, mutable
    Range(Expr, Expr, bool),
    Owned(Expr),
    Array(Vec<Expr>),
    Opaque(Expr),
    Chain(Box<IterE>, Box<IterE>),
}
#[derive(Clone)]
enum Adapter {
    Map(syn::ExprClosure),
    MapFn(Expr),
    Filter(syn::ExprClosure),
    FlatMap(syn::ExprClosure),
    Enumerate,
    Copied,
    Cloned,
    Rev,
}
#[derive(Clone)]
struct IterE {
    base: Base,
    adapters: Vec<Adapter>,
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

fn iter_expr(e: &Expr, top: bool) -> Option<IterE> {
    let e = strip_paren(e);
    let simple = |b: Base| Some(IterE { base: b, adapters: vec![] });
    match e {
        Expr::Range(r) => {
            let s: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| parse_quote!(0));
            let en = (**r.end.as_ref()?).clone();
            simple(Base::Range(s, en, matches!(r.limits, syn::RangeLimits::Closed(_))))
        }
        Expr::Reference(r) if top => simple(Base::Slice((*r.expr).clone(), r.mutability.is_some())),
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            match name.as_str() {
                "iter" if m.args.is_empty() => simple(Base::Slice((*m.receiver).clone(), false)),
                "iter_mut" if m.args.is_empty() => simple(Base::Slice((*m.receiver).clone(), true)),
                "into_iter" if m.args.is_empty() => match strip_paren(&m.receiver) {
                    Expr::Array(a) => simple(Base::Array(a.elems.iter().cloned().collect())),
                    Expr::Reference(r) => simple(Base::Slice((*r.expr).clone(), r.mutability.is_some())),
                    x => match iter_expr(x, false) {
                        Some(i) => Some(i),
                        None => simple(Base::Owned(x.clone())),
                    },
                },
                "drain" => simple(Base::Owned((*m.receiver).clone())),
                "map" | "filter" | "flat_map" | "flatten" | "enumerate" | "copied" | "cloned" | "rev" | "chain" => {
                    let mut inner = match iter_expr(&m.receiver, false) {
                        Some(i) => i,
                        None => IterE { base: Base::Opaque((*m.receiver).clone()), adapters: vec![] },
                    };
                    match (name.as_str(), m.args.first()) {
                        ("map", Some(Expr::Closure(c))) => inner.adapters.push(Adapter::Map(c.clone())),
                        ("map", Some(f @ Expr::Path(_))) => inner.adapters.push(Adapter::MapFn(f.clone())),
                        ("filter", Some(Expr::Closure(c))) => inner.adapters.push(Adapter::Filter(c.clone())),
                        ("flat_map", Some(Expr::Closure(c))) => inner.adapters.push(Adapter::FlatMap(c.clone())),
                        ("flatten", None) => inner.adapters.push(Adapter::FlatMap(parse_quote!(|vx_f| vx_f))),
                        ("enumerate", None) => inner.adapters.push(Adapter::Enumerate),
                        ("copied", None) => inner.adapters.push(Adapter::Copied),
                        ("cloned", None) => inner.adapters.push(Adapter::Cloned),
                        ("rev", None) => inner.adapters.push(Adapter::Rev),
                        ("chain", Some(o)) => {
                            let other = iter_expr(o, true)?;
                            return Some(IterE {
                                base: Base::Chain(Box::new(inner), Box::new(other)),
                                adapters: vec![],
                            });
                        }
                        _ => return None,
                    }
                    Some(inner)
                }
                _ => None,
            }
        }
        Expr::Array(a) if top => simple(Base::Array(a.elems.iter().cloned().collect())),
        _ => None,
    }
}

fn mentions(ss: &[Stmt], id: &Ident) -> bool {
    fn go(ts: proc_macro2::TokenStream, id: &Ident) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == *id,
            proc_macro2::TokenTree::Group(g) => go(g.stream(), id),
            _ => false,
        })
    }
    ss.iter().any(|s| go(s.to_token_stream(), id))
}

fn is_iterish(i: &IterE) -> bool {
    // an Opaque base with only a `map`/`enumerate` in front could also be an Option or Result
    !matches!(i.base, Base::Opaque(_)) || i.adapters.iter().any(|a| matches!(a, Adapter::Enumerate))
}

// ---------------------------------------------------------------- the main transformation

struct Tx<'a> {
    cfg: &'a Cfg,
    spec: &'a FnSpec,
    ctx: bool,
    lhs: bool,
    nloops: usize,
    marks: std::collections::BTreeMap<String, usize>,
    split_done: bool,
    tmp: usize,
    locks: usize,
    dropped: usize,
    unsupported: Vec<String>,
    callees: BTreeSet<String>,
    closures_iter: Vec<String>,
}

impl Tx<'_> {
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("vx_{}{}", p, self.tmp - 1)
    }
    fn asrt(&self) -> Ident {
        format_ident!("{}", if self.spec.opts.maypanic || self.spec.opts.refuses { "vx_check" } else { "vx_assert" })
    }
    fn lp(&mut self) -> usize {
        self.nloops += 1;
        self.nloops - 1
    }
    fn proxied(&self, e: &Expr) -> bool {
        !self.cfg.proxies.is_empty()
            && matches!(strip_paren(e), Expr::Field(f) if self.cfg.proxies[0].contains(&f.member.to_token_stream().to_string()))
    }
    fn effect(&self, name: &str) -> bool {
        self.cfg.effects.contains(name) && !self.spec.opts.noworld.iter().any(|n| n == name)
    }

    fn closure_body(&mut self, c: &syn::ExprClosure) -> Expr {
        let mut b = (*c.body).clone();
        self.visit_expr_mut(&mut b);
        b
    }
    fn pat_of(c: &syn::ExprClosure, k: usize) -> Pat {
        match c.inputs.iter().nth(k) {
            Some(Pat::Type(t)) => (*t.pat).clone(),
            Some(p) => p.clone(),
            None => parse_quote!(_),
        }
    }

    /// statements turning the adapter chain's current element `cur` into the final element; returns its name
    fn adapters(&mut self, ads: &[Adapter], mut cur: Ident, counter: &Ident, out: &mut Vec<Stmt>) -> Ident {
        for a in ads {
            match a {
                Adapter::Map(c) => {
                    let p = Self::pat_of(c, 0);
                    let nx = self.fresh("x");
                    // binding the parameter inside a block keeps its scope local to the closure body
                    let b = self.closure_body(c);
                    out.push(parse_quote!(let #nx = { let #p = #cur; #b };));
                    cur = nx;
                }
                Adapter::MapFn(f) => {
                    let nx = self.fresh("x");
                    let mut e: Expr = parse_quote!(#f(#cur));
                    self.visit_expr_mut(&mut e);
                    out.push(parse_quote!(let #nx = #e;));
                    cur = nx;
                }
                Adapter::Filter(c) => {
                    let p = Self::pat_of(c, 0);
                    let b = self.closure_body(c);
                    out.push(parse_quote!(if !({ let #p = &#cur; #b }) { continue; }));
                }
                Adapter::Enumerate => {
                    let nx = self.fresh("x");
                    out.push(parse_quote!(let #nx = (#counter - 1, #cur);));
                    cur = nx;
                }
                Adapter::Copied => {
                    let nx = self.fresh("x");
                    out.push(parse_quote!(let #nx = *#cur;));
                    cur = nx;
                }
                Adapter::Cloned => {
                    let nx = self.fresh("x");
                    out.push(parse_quote!(let #nx = (*#cur).clone();));
                    cur = nx;
                }
                Adapter::Rev => self.unsupported.push("rev()".into()),
                Adapter::FlatMap(_) => self.unsupported.push("flat_map()".into()),
            }
        }
        cur
    }

    /// A loop over the iterator expression; `body` gets the element's name and returns the statements.
    fn loop_over(
        &mut self,
        it: &IterE,
        body: &mut dyn FnMut(&mut Self, Ident, Ident) -> Vec<Stmt>,
        stop: Option<&Expr>,
    ) -> Vec<Stmt> {
        let mut out: Vec<Stmt> = vec![];
        let stop_c: Expr = match stop {
            Some(s) => parse_quote!(&& #s),
            None => parse_quote!(true),
        };
        let _ = stop_c;
        // `it.flat_map(|p| inner)`: a loop over inner inside a loop over it
        if let Some(k) = it.adapters.iter().rposition(|a| matches!(a, Adapter::FlatMap(_))) {
            let Adapter::FlatMap(c) = it.adapters[k].clone() else { unreachable!() };
            let rest: Vec<Adapter> = it.adapters[k + 1..].to_vec();
            let outer = IterE { base: it.base.clone(), adapters: it.adapters[..k].to_vec() };
            if stop.is_some() || rest.iter().any(|a| matches!(a, Adapter::Enumerate)) {
                self.unsupported.push("flat_map()".into());
                return out;
            }
            let mut inner = match iter_expr(&c.body, true) {
                Some(i) => i,
                None => IterE { base: Base::Owned((*c.body).clone()), adapters: vec![] },
            };
            inner.adapters.extend(rest);
            let p = Self::pat_of(&c, 0);
            return self.loop_over(
                &outer,
                &mut |s: &mut Self, x: Ident, _| {
                    let ss = s.loop_over(&inner, body, None);
                    vec![parse_quote!({ let #p = #x; #(#ss)* })]
                },
                None,
            );
        }
        match &it.base {
            Base::Chain(a, b) => {
                if it.adapters.iter().any(|a| matches!(a, Adapter::Enumerate)) {
                    self.unsupported.push("chain().enumerate()".into());
                }
                for half in [a, b] {
                    let mut half = (**half).clone();
                    half.adapters.extend(it.adapters.iter().cloned());
                    out.extend(self.loop_over(&half, body, stop));
                }
                return out;
            }
            Base::Array(es) => {
                for e in es {
                    let mut e = e.clone();
                    self.visit_expr_mut(&mut e);
                    let c = self.fresh("n");
                    let x = self.fresh("x");
                    let mut inner: Vec<Stmt> = vec![parse_quote!(let #x = #e;)];
                    let fin = self.adapters(&it.adapters, x, &c, &mut inner);
                    inner.extend(body(self, fin, c));
                    out.push(parse_quote!({ #(#inner)* }));
                }
                return out;
            }
            _ => {}
        }
        let k = self.lp();
        let lit = syn::LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
        // names depend on the loop's number only, so that the contracts can mention them
        let i = format_ident!("vx_i{}", k);
        match &it.base {
            Base::Slice(e, mt) => {
                let mut e = e.clone();
                self.visit_expr_mut(&mut e);
                let e = match &e {
                    Expr::Path(_) | Expr::Field(_) | Expr::Index(_) => e,
                    other => {
                        let b = format_ident!("vx_b{}", k);
                        out.push(parse_quote!(let #b = #other;));
                        parse_quote!(#b)
                    }
                };
                let x = self.fresh("x");
                let mut inner: Vec<Stmt> = vec![];
                let opt = self.spec.opts.optiter && !*mt;
                inner.push(if opt {
                    parse_quote!(let #x = vx_at(&#e, #i);)
                } else if *mt || self.spec.opts.mutiter {
                    parse_quote!(let #x = &mut #e[#i];)
                } else {
                    parse_quote!(let #x = &#e[#i];)
                });
                inner.push(parse_quote!(#i = #i + 1;));
                let fin = self.adapters(&it.adapters, x, &i, &mut inner);
                inner.extend(body(self, fin, i.clone()));
                out.push(parse_quote!(let mut #i: usize = 0;));
                let len: Expr = if opt { parse_quote!(vx_len(&#e)) } else { parse_quote!(#e.len()) };
                let cond: Expr = match stop {
                    Some(s) => parse_quote!(#i < #len && #s),
                    None => parse_quote!(#i < #len),
                };
                out.push(parse_quote!(vx_pre!(#lit);));
                out.push(parse_quote!(while #cond { vx_loop!(#lit); #(#inner)* vx_loop_end!(#lit); }));
            }
            Base::Range(a, b, incl) => {
                let (mut a, mut b) = (a.clone(), b.clone());
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                let en = format_ident!("vx_e{}", k);
                let ctr = format_ident!("vx_n{}", k);
                let x = self.fresh("x");
                let mut inner: Vec<Stmt> = vec![parse_quote!(let #x = #i;), parse_quote!(#i = #i + 1;)];
                let en_used = it.adapters.iter().any(|a| matches!(a, Adapter::Enumerate));
                if en_used {
                    inner.push(parse_quote!(#ctr = #ctr + 1;));
                    out.push(parse_quote!(let mut #ctr: usize = 0;));
                }
                let fin = self.adapters(&it.adapters, x, &ctr, &mut inner);
                inner.extend(body(self, fin, i.clone()));
                out.push(parse_quote!(let mut #i = #a;));
                out.push(if *incl { parse_quote!(let #en = #b + 1;) } else { parse_quote!(let #en = #b;) });
                let cond: Expr = match stop {
                    Some(s) => parse_quote!(#i < #en && #s),
                    None => parse_quote!(#i < #en),
                };
                out.push(parse_quote!(vx_pre!(#lit);));
                out.push(parse_quote!(while #cond { vx_loop!(#lit); #(#inner)* vx_loop_end!(#lit); }));
            }
            Base::Owned(e) => {
                let mut e = e.clone();
                self.visit_expr_mut(&mut e);
                let b = format_ident!("vx_b{}", k);
                let x = self.fresh("x");
                out.push(parse_quote!(let mut #b = #e;));
                out.push(parse_quote!(let mut #i: usize = 0;));
                let opt = self.spec.opts.optiter;
                let take: Expr = if opt { parse_quote!(vx_take(&mut #b)) } else { parse_quote!(#b.remove(0)) };
                let len: Expr = if opt { parse_quote!(vx_len(&#b)) } else { parse_quote!(#b.len()) };
                let mut inner: Vec<Stmt> = vec![parse_quote!(let #x = #take;), parse_quote!(#i = #i + 1;)];
                let fin = self.adapters(&it.adapters, x, &i, &mut inner);
                inner.extend(body(self, fin, i.clone()));
                let cond: Expr = match stop {
                    Some(s) => parse_quote!(#len > 0 && #s),
                    None => parse_quote!(#len > 0),
                };
                out.push(parse_quote!(vx_pre!(#lit);));
                out.push(parse_quote!(while #cond { vx_loop!(#lit); #(#inner)* vx_loop_end!(#lit); }));
            }
            Base::Opaque(e) => {
                let mut e = e.clone();
                self.visit_expr_mut(&mut e);
                let b = format_ident!("vx_b{}", k);
                let x = self.fresh("x");
                out.push(parse_quote!(let mut #b = #e;));
                let mut inner: Vec<Stmt> = vec![];
                let fin = self.adapters(&it.adapters, x.clone(), &i, &mut inner);
                inner.extend(body(self, fin, i.clone()));
                if mentions(&inner, &i) {
                    out.push(parse_quote!(let mut #i: usize = 0;));
                    inner.insert(0, parse_quote!(#i = #i + 1;));
                }
                let pre: Vec<Stmt> = match stop {
                    Some(s) => vec![parse_quote!(if !(#s) { break; })],
                    None => vec![],
                };
                out.push(parse_quote!(vx_pre!(#lit);));
                out.push(parse_quote!(loop {
                    vx_loop!(#lit);
                    #(#pre)*
                    match #b.vx_next(vw) {
                        None => break,
                        Some(#x) => { #(#inner)* vx_loop_end!(#lit); }
                    }
                }));
            }
            _ => unreachable!(),
        }
        out
    }

    /// `recv.terminal(args)` where recv is an iterator expression
    fn terminal(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let known = ["collect", "min", "max", "min_by_key", "max_by_key", "position", "for_each", "all", "any", "sum", "count", "last", "reduce", "fold"];
        if !known.contains(&name.as_str()) {
            return None;
        }
        let it = match iter_expr(&m.receiver, false) {
            Some(i) => i,
            None => match &*m.receiver {
                // `let it = <iterator>;  it.max()`
                Expr::Path(p)
                    if m.args.is_empty() && p.path.get_ident().is_some_and(|i| self.closures_iter.contains(&i.to_string())) =>
                {
                    IterE { base: Base::Opaque((*m.receiver).clone()), adapters: vec![] }
                }
                _ => return None,
            },
        };
        if !is_iterish(&it)
            && !(["min", "max", "sum"].contains(&name.as_str()) && m.args.is_empty())
            && !["collect", "reduce", "fold"].contains(&name.as_str())
        {
            return None;
        }
        let v = format_ident!("vx_v{}", self.nloops);
        let push = |v: &Ident| {
            let v = v.clone();
            move |_: &mut Self, x: Ident, _: Ident| -> Vec<Stmt> { vec![parse_quote!(#v.push(#x);)] }
        };
        Some(match name.as_str() {
            "collect" => {
                let b = self.loop_over(&it, &mut push(&v), None);
                parse_quote!({ let mut #v = Vec::new(); #(#b)* #v })
            }
            "min" | "max" | "sum" | "last" => {
                // `vec.into_iter().min()` / `vec.iter().min()` need no copy
                let lib = format_ident!("lib_{}", name);
                if it.adapters.is_empty() {
                    if let Base::Owned(e) | Base::Slice(e, false) = &it.base {
                        let mut e = e.clone();
                        self.visit_expr_mut(&mut e);
                        if matches!(it.base, Base::Slice(..)) {
                            let libr = format_ident!("lib_{}_ref", name);
                            return Some(parse_quote!(#libr(&#e)));
                        }
                        return Some(parse_quote!(#lib(&#e)));
                    }
                }
                let b = self.loop_over(&it, &mut push(&v), None);
                parse_quote!({ let mut #v = Vec::new(); #(#b)* #lib(&#v) })
            }
            "min_by_key" | "max_by_key" => {
                let lib = format_ident!("lib_arg{}", &name[..3]);
                let Some(Expr::Closure(c)) = m.args.first() else { return None };
                let (base, enumerated) = match (&it.base, it.adapters.as_slice()) {
                    (Base::Slice(b, false), []) => (b.clone(), false),
                    (Base::Slice(b, false), [Adapter::Enumerate]) => (b.clone(), true),
                    _ => return None,
                };
                let mut place = base.clone();
                self.visit_expr_mut(&mut place);
                let p = Self::pat_of(c, 0);
                let p = match p {
                    Pat::Reference(r) => *r.pat,
                    p => p,
                };
                let mut me = Some(c.clone());
                let vv = v.clone();
                let b = self.loop_over(
                    &it,
                    &mut |s: &mut Self, x: Ident, _| {
                        let c = me.take().unwrap();
                        let body = s.closure_body(&c);
                        vec![parse_quote!(#vv.push({ let #p = #x; #body });)]
                    },
                    None,
                );
                let some: Expr = if enumerated {
                    parse_quote!(Some((vx_j, &#place[vx_j])))
                } else {
                    parse_quote!(Some(&#place[vx_j]))
                };
                parse_quote!({ let mut #v = Vec::new(); #(#b)* match #lib(&#v) { None => None, Some(vx_j) => #some } })
            }
            "position" => {
                let Some(Expr::Closure(c)) = m.args.first() else { return None };
                let c = c.clone();
                let p = Self::pat_of(&c, 0);
                let vv = v.clone();
                let b = self.loop_over(
                    &it,
                    &mut |s: &mut Self, x: Ident, i: Ident| {
                        let body = s.closure_body(&c);
                        vec![parse_quote!(if { let #p = #x; #body } { #vv = Some(#i - 1); break; })]
                    },
                    None,
                );
                parse_quote!({ let mut #v: Option<usize> = None; #(#b)* #v })
            }
            "all" | "any" => {
                let Some(Expr::Closure(c)) = m.args.first() else { return None };
                let c = c.clone();
                let p = Self::pat_of(&c, 0);
                let vv = v.clone();
                let all = name == "all";
                let b = self.loop_over(
                    &it,
                    &mut |s: &mut Self, x: Ident, _| {
                        let body = s.closure_body(&c);
                        if all {
                            vec![parse_quote!(if !({ let #p = #x; #body }) { #vv = false; break; })]
                        } else {
                            vec![parse_quote!(if { let #p = #x; #body } { #vv = true; break; })]
                        }
                    },
                    None,
                );
                parse_quote!({ let mut #v: bool = #all; #(#b)* #v })
            }
            "reduce" | "fold" => {
                let (init, f): (Expr, Expr) = if name == "reduce" {
                    (parse_quote!(None), m.args.first()?.clone())
                } else {
                    let mut i = m.args.first()?.clone();
                    self.visit_expr_mut(&mut i);
                    (i, m.args.iter().nth(1)?.clone())
                };
                let red = name == "reduce";
                let el = format_ident!("vx_r{}", self.nloops);
                let vv = v.clone();
                let b = self.loop_over(
                    &it,
                    &mut |s: &mut Self, x: Ident, _| {
                        let acc: Ident = if red { format_ident!("vx_acc") } else { vv.clone() };
                        let app: Expr = match &f {
                            Expr::Closure(c) => {
                                let (p, q) = (Self::pat_of(c, 0), Self::pat_of(c, 1));
                                let body = s.closure_body(c);
                                parse_quote!({ let #p = #acc; let #q = #el; #body })
                            }
                            f => {
                                let mut e: Expr = parse_quote!(#f(#acc, #el));
                                s.visit_expr_mut(&mut e);
                                e
                            }
                        };
                        if red {
                            vec![
                                parse_quote!(let #el = #x;),
                                parse_quote!(#vv = match #vv { None => Some(#el), Some(#acc) => Some(#app) };),
                            ]
                        } else {
                            vec![parse_quote!(let #el = #x;), parse_quote!(#vv = #app;)]
                        }
                    },
                    None,
                );
                parse_quote!({ let mut #v = #init; #(#b)* #v })
            }
            "for_each" => {
                let Some(Expr::Closure(c)) = m.args.first() else { return None };
                let c = c.clone();
                let p = Self::pat_of(&c, 0);
                let b = self.loop_over(
                    &it,
                    &mut |s: &mut Self, x: Ident, _| {
                        let body = s.closure_body(&c);
                        vec![parse_quote!({ let #p = #x; #body; })]
                    },
                    None,
                );
                parse_quote!({ #(#b)* })
            }
            _ => return None,
        })
    }

    fn mac(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || {
            m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect::<Vec<_>>())
        };
        Some(match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                if self.spec.opts.maypanic || self.spec.opts.refuses {
                    parse_quote!(vx_abort())
                } else {
                    parse_quote!(vx_panic())
                }
            }
            "assert" | "debug_assert" => {
                let mut c = args().ok()?.into_iter().next()?;
                self.visit_expr_mut(&mut c);
                { let vx_as = self.asrt(); parse_quote!(#vx_as(#c)) }
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args().ok()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                { let vx_as = self.asrt(); parse_quote!(#vx_as(#x == #y)) }
            }
            "assert_ne" => {
                let a = args().ok()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                { let vx_as = self.asrt(); parse_quote!(#vx_as(#x != #y)) }
            }
            "vec" => {
                let s = m.tokens.to_string();
                if s.contains(';') {
                    self.unsupported.push("vec![x; n]".into());
                    return None;
                }
                let a = args().ok()?;
                if a.is_empty() {
                    parse_quote!(Vec::new())
                } else {
                    let mut st: Vec<Stmt> = vec![];
                    for mut e in a {
                        self.visit_expr_mut(&mut e);
                        st.push(parse_quote!(vx_vec.push(#e);));
                    }
                    parse_quote!({ let mut vx_vec = Vec::new(); #(#st)* vx_vec })
                }
            }
            "format" => parse_quote!(vx_format()),
            "matches" => {
                let ts = m.tokens.clone();
                struct M {
                    e: Expr,
                    p: Pat,
                    g: Option<Expr>,
                }
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>();
                        Ok(M { e, p, g })
                    }
                }
                let M { mut e, p, g } = syn::parse2::<M>(ts).ok()?;
                self.visit_expr_mut(&mut e);
                match g {
                    Some(mut g) => {
                        self.visit_expr_mut(&mut g);
                        parse_quote!(match #e { #p if #g => true, _ => false })
                    }
                    None => parse_quote!(match #e { #p => true, _ => false }),
                }
            }
            "spawn" if self.spec.opts.seqscope => {
                let Some(Expr::Closure(cl)) = args().ok()?.pop() else { return None };
                let mut esc = HasEscape(false);
                esc.visit_expr(&cl.body);
                if esc.0 {
                    self.unsupported.push("spawn! of a body with return or ?".into());
                    return None;
                }
                let b = self.closure_body(&cl);
                parse_quote!({ #b; vx_spawned() })
            }
            "vx_loop" | "vx_loop_end" | "vx_after" | "vx_pre" | "vx_arm" => return None,
            _ if DROP_MACROS.contains(&name.as_str()) => {
                self.dropped += 1;
                parse_quote!(())
            }
            _ => {
                self.unsupported.push(format!("macro {name}!"));
                return None;
            }
        })
    }
}

impl VisitMut for Tx<'_> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        Paths { cfg: self.cfg }.visit_type_mut(t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        Paths { cfg: self.cfg }.visit_path_mut(p);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_generic_argument_mut(&mut self, g: &mut syn::GenericArgument) {
        Paths { cfg: self.cfg }.visit_generic_argument_mut(g);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // cfg'd statements and statement-level cfg_if!
        let mut stmts: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(m) if m.mac.path.segments.last().unwrap().ident == "cfg_if" => {
                    let br = cfg_if_branch(m.mac.tokens.clone(), &self.cfg.features);
                    match syn::parse::Parser::parse2(Block::parse_within, br) {
                        Ok(v) => stmts.extend(v),
                        Err(e) => self.unsupported.push(format!("cfg_if: {e}")),
                    }
                }
                Stmt::Local(l) if !attrs_on(&l.attrs, &self.cfg.features) => {}
                Stmt::Item(syn::Item::Use(_)) => {}
                mut other => {
                    if let Stmt::Local(l) = &mut other {
                        l.attrs.clear();
                    }
                    stmts.push(other)
                }
            }
        }
        // places for proof text after calls: `proof after NAME K` is the K-th statement that calls method NAME
        let mut i = 0;
        while i < stmts.len() {
            i += 1;
            let name = match &stmts[i - 1] {
                Stmt::Expr(Expr::MethodCall(m), Some(_)) => m.method.to_string(),
                _ => continue,
            };
            if self.spec.proofs.keys().any(|k| k.starts_with(&format!("after {name} "))) {
                let n = self.marks.entry(name.clone()).or_insert(0);
                let lit = syn::LitStr::new(&format!("after {name} {n}"), proc_macro2::Span::call_site());
                *n += 1;
                stmts.insert(i, parse_quote!(vx_after!(#lit);));
                i += 1;
            }
        }
        // let-closures that are only ever called
        let mut i = 0;
        while i < stmts.len() {
            let clo = match &stmts[i] {
                Stmt::Local(l) => match (&l.init, pat_ident(&l.pat)) {
                    (Some(init), Some(id)) if init.diverge.is_none() => match &*init.expr {
                        Expr::Closure(c) => Some((id.to_string(), c.clone())),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, clo)) = clo {
                let mut esc = HasEscape(false);
                esc.visit_expr(&clo.body);
                let mut ic = InlineClosure { name, clo, other_use: false, n: 0 };
                let mut rest: Vec<Stmt> = stmts[i + 1..].to_vec();
                for s in rest.iter_mut() {
                    ic.visit_stmt_mut(s);
                }
                if !ic.other_use && !esc.0 {
                    stmts.truncate(i);
                    stmts.extend(rest);
                    continue;
                }
            }
            i += 1;
        }
        // lazily evaluated iterators bound by a let and consumed once: `let it = x.map(..); it.max()`
        let mut i = 0;
        while i + 1 < stmts.len() {
            let lz = match &stmts[i] {
                Stmt::Local(l) => match (&l.init, pat_ident(&l.pat)) {
                    (Some(init), Some(id)) if init.diverge.is_none() => {
                        let e = strip_paren(&init.expr);
                        let is_adapter = matches!(e, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "map" | "enumerate" | "filter" | "chain" | "iter" | "iter_mut" | "into_iter"))
                            && !self.spec.opts.option_map;
                        if is_adapter && iter_expr(e, false).is_some() {
                            Some((id.to_string(), e.clone()))
                        } else {
                            None
                        }
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, e)) = lz {
                struct Cnt<'b>(&'b str, usize);
                impl<'ast> Visit<'ast> for Cnt<'_> {
                    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
                        if p.path.is_ident(self.0) {
                            self.1 += 1;
                        }
                    }
                }
                let mut c = Cnt(&name, 0);
                for s in &stmts[i + 1..] {
                    c.visit_stmt(s);
                }
                // only when the very next statement consumes it: the effects keep their order
                let mut c1 = Cnt(&name, 0);
                c1.visit_stmt(&stmts[i + 1]);
                if c.1 == 1 && c1.1 == 1 {
                    struct Put(String, Expr);
                    impl VisitMut for Put {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            if matches!(e, Expr::Path(p) if p.path.is_ident(&self.0)) {
                                let x = self.1.clone();
                                *e = parse_quote!((#x));
                                return;
                            }
                            visit_mut::visit_expr_mut(self, e);
                        }
                    }
                    let mut p = Put(name, e);
                    let mut nx = stmts[i + 1].clone();
                    p.visit_stmt_mut(&mut nx);
                    stmts[i + 1] = nx;
                    stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        let mut out: Vec<Stmt> = vec![];
        for mut s in stmts {
            let drop = match &s {
                Stmt::Expr(e, _) => root_call_name(e).is_some_and(|n| LOG_ROOTS.contains(&n.as_str())),
                Stmt::Local(l) => l.init.as_ref().is_some_and(|i| {
                    matches!(l.pat, Pat::Wild(_))
                        && root_call_name(&i.expr).is_some_and(|n| LOG_ROOTS.contains(&n.as_str()))
                }),
                _ => false,
            };
            if drop {
                self.dropped += 1;
                continue;
            }
            if let Stmt::Macro(m) = &s {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if DROP_MACROS.contains(&name.as_str()) {
                    self.dropped += 1;
                    continue;
                }
                let mac = m.mac.clone();
                if let Some(e) = self.mac(&mac) {
                    // a panic in tail position must stay the tail expression
                    if m.semi_token.is_some() {
                        out.push(Stmt::Expr(e, Some(Default::default())));
                    } else {
                        out.push(Stmt::Expr(e, None));
                    }
                } else {
                    out.push(s);
                }
                continue;
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // strip attributes such as #[allow(..)] on expressions
        match e {
            Expr::MethodCall(x) => x.attrs.clear(),
            Expr::Call(x) => x.attrs.clear(),
            Expr::Block(x) => x.attrs.clear(),
            Expr::Match(x) => x.attrs.clear(),
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Field(f) = strip_paren(&r.expr) {
                    if self.spec.opts.mutref.contains(&f.member.to_token_stream().to_string()) {
                        r.mutability = Some(Default::default());
                    }
                }
                if let Expr::Index(x) = strip_paren(&r.expr) {
                    if let Expr::Field(f) = strip_paren(&x.expr) {
                        if self.spec.opts.mutself && self.spec.opts.rwlock.contains(&f.member.to_token_stream().to_string()) {
                            r.mutability = Some(Default::default());
                        }
                    }
                }
            }
            _ => {}
        }
        if let Expr::Match(m) = e {
            merge_guards(m);
            if let Some(w) = self.spec.opts.split.clone() {
                let on = m.expr.to_token_stream().to_string();
                if !self.split_done && m.arms.len() > 1 && on.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == w) {
                    self.split_done = true;
                    for (j, a) in m.arms.iter_mut().enumerate() {
                        let lit = syn::LitInt::new(&j.to_string(), proc_macro2::Span::call_site());
                        let body = a.body.clone();
                        *a.body = parse_quote!({ vx_arm!(#lit); #body });
                    }
                }
            }
            // `V(f) => f(x)`: a call of a function value
            for a in m.arms.iter_mut() {
                let id = match &a.pat {
                    Pat::TupleStruct(t) if t.elems.len() == 1 => t.elems.first().and_then(pat_ident),
                    _ => None,
                };
                if let (Some(id), Expr::Call(c)) = (id, strip_paren(&a.body)) {
                    if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&id)) {
                        let args = &c.args;
                        *a.body = parse_quote!(#id.vx_call(#args));
                    }
                }
            }
        }
        if self.spec.opts.nolock {
            // `*x.lock().unwrap()` is the protected value itself
            if let Expr::Unary(u) = e {
                if let (syn::UnOp::Deref(_), Expr::MethodCall(m)) = (&u.op, strip_paren(&u.expr)) {
                    if m.method == "unwrap" && matches!(strip_paren(&m.receiver), Expr::MethodCall(l) if l.method == "lock") {
                        let mut x = Expr::MethodCall(m.clone());
                        self.visit_expr_mut(&mut x);
                        *e = x;
                        return;
                    }
                }
            }
        }
        match e {
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(x) = self.mac(&mac) {
                    *e = x;
                }
                return;
            }
            Expr::Try(t) => {
                // `Err(x)?`
                if let Expr::Call(c) = strip_paren(&t.expr) {
                    if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) {
                        let mut x = c.args.first().unwrap().clone();
                        self.visit_expr_mut(&mut x);
                        *e = parse_quote!(return Err(vx_from(#x)));
                        return;
                    }
                }
                let mut x = (*t.expr).clone();
                self.visit_expr_mut(&mut x);
                let (v, er) = (self.fresh("ok"), self.fresh("er"));
                *e = parse_quote!(match #x { Ok(#v) => #v, Err(#er) => return Err(vx_from(#er)) });
                return;
            }
            Expr::Path(p) if p.path.segments.len() > 1 && self.cfg.constfn.contains(&p.path.segments.last().unwrap().ident.to_string()) => {
                let mut q = p.clone();
                let l = q.path.segments.last_mut().unwrap();
                l.ident = format_ident!("{}", l.ident.to_string().to_lowercase());
                *e = parse_quote!(#q());
                return;
            }
            Expr::MethodCall(m) => {
                if let Some(x) = self.terminal(&m.clone()) {
                    *e = x;
                    return;
                }
                let name = m.method.to_string();
                // Result/Option combinators with a literal closure
                if let (1, Some(Expr::Closure(c))) = (m.args.len(), m.args.first().cloned()) {
                    let mut esc = HasEscape(false);
                    esc.visit_expr(&c.body);
                    if !esc.0 && ["map_err", "map", "unwrap_or_else", "and_then"].contains(&name.as_str()) {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let p = Self::pat_of(&c, 0);
                        let b = self.closure_body(&c);
                        let v = self.fresh("v");
                        let opt = self.spec.opts.option_map;
                        *e = match name.as_str() {
                            "map_err" => parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }),
                            "map" if opt => parse_quote!(match #r { Some(#p) => Some(#b), None => None }),
                            "map" => parse_quote!(match #r { Ok(#p) => Ok(#b), Err(#v) => Err(#v) }),
                            "and_then" if opt => parse_quote!(match #r { Some(#p) => #b, None => None }),
                            "and_then" => parse_quote!(match #r { Ok(#p) => #b, Err(#v) => Err(#v) }),
                            _ if c.inputs.is_empty() => parse_quote!(match #r { Some(#v) => #v, None => #b }),
                            _ => parse_quote!(match #r { Ok(#v) => #v, Err(#p) => #b }),
                        };
                        return;
                    }
                }
                if let (Some(k), Some(Expr::Closure(c))) = (
                    ["is_some_and", "is_none_or", "is_ok_and", "is_err_and", "or_else", "ok_or_else", "then", "map_or", "map_or_else"]
                        .iter()
                        .find(|n| **n == name),
                    m.args.last().cloned(),
                ) {
                    let mut esc = HasEscape(false);
                    esc.visit_expr(&c.body);
                    let other = match m.args.len() {
                        1 => Some(None),
                        2 => match (&m.args[0], *k) {
                            (x, "map_or") => Some(Some(x.clone())),
                            (Expr::Closure(d), "map_or_else") if d.inputs.is_empty() => {
                                esc.visit_expr(&d.body);
                                Some(Some((*d.body).clone()))
                            }
                            _ => None,
                        },
                        _ => None,
                    };
                    if let (false, Some(other)) = (esc.0, other) {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let other = other.map(|mut o| {
                            self.visit_expr_mut(&mut o);
                            o
                        });
                        let p = Self::pat_of(&c, 0);
                        let b = self.closure_body(&c);
                        let v = self.fresh("v");
                        let d = self.fresh("d");
                        let two = m.args.len() == 2;
                        let x: Option<Expr> = match *k {
                            "is_some_and" => Some(parse_quote!(match #r { Some(#p) => #b, None => false })),
                            "is_none_or" => Some(parse_quote!(match #r { Some(#p) => #b, None => true })),
                            "is_ok_and" => Some(parse_quote!(match #r { Ok(#p) => #b, Err(_) => false })),
                            "is_err_and" => Some(parse_quote!(match #r { Err(#p) => #b, Ok(_) => false })),
                            "ok_or_else" => Some(parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) })),
                            "or_else" if c.inputs.is_empty() => Some(parse_quote!(match #r { Some(#v) => Some(#v), None => #b })),
                            "or_else" => Some(parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => #b })),
                            "then" if c.inputs.is_empty() => Some(parse_quote!(if #r { Some(#b) } else { None })),
                            // the default is evaluated first
                            "map_or" if two => Some(parse_quote!({ let #v = #r; let #d = #other; match #v { Some(#p) => #b, None => #d } })),
                            "map_or_else" if two => Some(parse_quote!(match #r { Some(#p) => #b, None => #other })),
                            _ => None,
                        };
                        if let Some(x) = x {
                            *e = x;
                            return;
                        }
                    }
                }
                if name == "retain" {
                    if let Some(Expr::Closure(c)) = m.args.first().cloned() {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let k = self.lp();
                        let lit = syn::LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
                        let i = format_ident!("vx_i{}", k);
                        let kp = format_ident!("vx_keep{}", k);
                        let p = Self::pat_of(&c, 0);
                        let b = self.closure_body(&c);
                        *e = parse_quote!({
                            let mut #i: usize = 0;
                            while #i < #r.len() {
                                vx_loop!(#lit);
                                let #kp = { let #p = &#r[#i]; #b };
                                if #kp { #i = #i + 1; } else { let _ = #r.remove(#i); }
                                vx_loop_end!(#lit);
                            }
                        });
                        return;
                    }
                }
                if !self.spec.opts.rwlock.is_empty() && name == "unwrap" {
                    if let Expr::MethodCall(l) = strip_paren(&m.receiver) {
                        let cell = |s: &Self, e: &Expr| matches!(strip_paren(e), Expr::Field(f) if s.spec.opts.rwlock.contains(&f.member.to_token_stream().to_string()));
                        if l.method == "get" && l.args.len() == 1 && cell(self, &l.receiver) {
                            let (mut r, mut i) = ((*l.receiver).clone(), l.args[0].clone());
                            self.visit_expr_mut(&mut r);
                            self.visit_expr_mut(&mut i);
                            let k = self.fresh("k");
                            *e = if self.spec.opts.mutself {
                                parse_quote!({ let #k = #i; &mut #r[#k] })
                            } else {
                                parse_quote!({ let #k = #i; &#r[#k] })
                            };
                            return;
                        }
                        if ["read", "write"].contains(&l.method.to_string().as_str()) && l.args.is_empty() {
                            self.locks += 1;
                            if self.locks > 1 {
                                self.unsupported.push("more than one lock acquisition".into());
                            }
                            let mut r = (*l.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            *e = match strip_paren(&r) {
                                Expr::Index(x) => {
                                    let (b, i) = (&x.expr, &x.index);
                                    let k = self.fresh("k");
                                    if self.spec.opts.mutself {
                                        parse_quote!({ let #k = #i; &mut #b[#k] })
                                    } else {
                                        parse_quote!({ let #k = #i; &#b[#k] })
                                    }
                                }
                                _ => r,
                            };
                            return;
                        }
                    }
                }
                // `[a, b].into()`: a collection of these
                if name == "into" {
                    if let Expr::Array(a) = strip_paren(&m.receiver) {
                        let el = &a.elems;
                        let mut v: Expr = parse_quote!(vec![#el]);
                        self.visit_expr_mut(&mut v);
                        *e = parse_quote!(vx_list(#v));
                        return;
                    }
                }
                // `c.extend(it)`: a loop putting in the elements one by one; of another collection, all at once
                if name == "extend" && m.args.len() == 1 {
                    if let Some(it) = iter_expr(&m.args[0], false) {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let b = self.loop_over(&it, &mut |_: &mut Self, x: Ident, _: Ident| vec![parse_quote!(#r.push(#x);)], None);
                        *e = parse_quote!({ #(#b)* });
                        return;
                    }
                    m.method = format_ident!("vx_extend");
                    self.visit_expr_mut(e);
                    return;
                }
                // `v.resize_with(n, f)`: cut to n, then push what f returns
                if name == "resize_with" && m.args.len() == 2 {
                    // `resize_with(n, f)` of a function: `|| f()`
                    let f = match &m.args[1] {
                        p @ Expr::Path(_) => parse_quote!(|| #p()),
                        x => x.clone(),
                    };
                    if let Expr::Closure(c) = f {
                        let (mut r, mut n) = ((*m.receiver).clone(), m.args[0].clone());
                        self.visit_expr_mut(&mut r);
                        self.visit_expr_mut(&mut n);
                        let k = self.lp();
                        let lit = syn::LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
                        let nn = format_ident!("vx_n{}", k);
                        let b = self.closure_body(&c);
                        *e = parse_quote!({
                            let #nn: usize = #n;
                            if #r.len() > #nn { #r.truncate(#nn); }
                            while #r.len() < #nn {
                                vx_loop!(#lit);
                                #r.push(#b);
                                vx_loop_end!(#lit);
                            }
                        });
                        return;
                    }
                }
                if self.spec.opts.nolock && name == "unwrap" {
                    if let Expr::MethodCall(l) = strip_paren(&m.receiver) {
                        if l.method == "lock" {
                            let mut r = (*l.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            *e = r;
                            return;
                        }
                    }
                }
                self.callees.insert(name.clone());
                // the result of an operation whose refusal ends the run (`mayfail=`)
                let may = match strip_paren(&m.receiver) {
                    Expr::MethodCall(i) => self.spec.opts.mayfail.iter().any(|x| i.method == x.as_str()),
                    _ => false,
                };
                self.visit_expr_mut(&mut m.receiver);
                if self.proxied(&m.receiver) && !self.cfg.proxies[1].contains(&name) {
                    let b = (*m.receiver).clone();
                    *m.receiver = if self.cfg.proxies[2].contains(&name) { parse_quote!(#b.deref_mut()) } else { parse_quote!(#b.deref()) };
                }
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if let Some(t) = &mut m.turbofish {
                    for g in t.args.iter_mut() {
                        self.visit_generic_argument_mut(g);
                    }
                }
                if name == "unwrap" || name == "expect" {
                    m.method = format_ident!("{}", if self.spec.opts.maypanic || may { "vx_unwrap_p" } else { "vx_unwrap" });
                    m.args.clear();
                } else if name == "into" {
                    m.method = format_ident!("vx_into");
                } else if name == "try_into" {
                    m.method = format_ident!("vx_try_into");
                } else if name == "as_ref" && m.args.is_empty() {
                    let r = (*m.receiver).clone();
                    *e = parse_quote!(vx_as_ref(&#r));
                    return;
                }
                // calling a function-pointer field is `(self.f)(..)`, handled in Call
                if self.effect(&m.method.to_string()) {
                    m.args.push(parse_quote!(vw));
                }
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    let full = Paths::full(&p.path);
                    let of = p.path.segments.iter().rev().nth(1).map(|s| s.ident.to_string()).unwrap_or_default();
                    // `catch_unwind(|| body)`: the body either runs to its end or not at all (it panics; what it did until
                    // then is not described)
                    if self.spec.opts.seqscope && last == "catch_unwind" && c.args.len() == 1 {
                        let mut b = match strip_paren(&c.args[0]) {
                            Expr::Closure(cl) => (*cl.body).clone(),
                            x => x.clone(),
                        };
                        self.visit_expr_mut(&mut b);
                        *e = parse_quote!(if vx_panics() { Err(vx_panic_payload()) } else { Ok(#b) });
                        return;
                    }
                    // thread scopes: a scope runs its body; what is spawned in it is run where it is spawned
                    // (DESIGN.md, extraction rules); other threads started on the side are dropped
                    if self.spec.opts.seqscope {
                        if let (1, Some(Expr::Closure(cl))) = (c.args.len(), c.args.first().cloned()) {
                            if last == "scope" {
                                let p = Self::pat_of(&cl, 0);
                                let b = self.closure_body(&cl);
                                *e = parse_quote!({ let #p = (); #b });
                                return;
                            }
                            if last == "AssertUnwindSafe" {
                                let b = self.closure_body(&cl);
                                *e = b;
                                return;
                            }
                            if last == "spawn" && of == "thread" {
                                self.dropped += 1;
                                *e = parse_quote!(vx_thread());
                                return;
                            }
                        }
                    }
                    // `HashMap::from([a, b])`: a collection of these
                    if last == "from" && STD_TYPES.contains(&of.as_str()) && c.args.len() == 1 {
                        if let Expr::Array(a) = strip_paren(&c.args[0]) {
                            let el = &a.elems;
                            let mut v: Expr = parse_quote!(vec![#el]);
                            self.visit_expr_mut(&mut v);
                            *e = parse_quote!(vx_list(#v));
                            return;
                        }
                    }
                    if last == "new" && c.args.len() == 1 && (self.cfg.erase.contains(&of) || self.spec.opts.nolock && of == "Mutex") {
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = a;
                        return;
                    }
                    self.callees.insert(last.clone());
                    if ["std::cmp::max", "max", "cmp::max"].contains(&full.as_str()) && c.args.len() == 2 {
                        for a in c.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        let (a, b) = (c.args[0].clone(), c.args[1].clone());
                        *e = parse_quote!(vx_max(#a, #b));
                        return;
                    }
                    if ["std::cmp::min", "min", "cmp::min"].contains(&full.as_str()) && c.args.len() == 2 {
                        for a in c.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        let (a, b) = (c.args[0].clone(), c.args[1].clone());
                        *e = parse_quote!(vx_min(#a, #b));
                        return;
                    }
                    visit_mut::visit_expr_call_mut(self, c);
                    let mapped = match &*c.func {
                        Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        _ => last.clone(),
                    };
                    if if full == "Default::default" { mapped != last && self.effect(&mapped) } else { self.effect(&last) && !STD_TYPES.contains(&of.as_str()) || mapped != last && self.effect(&mapped) } {
                        c.args.push(parse_quote!(vw));
                    }
                    return;
                }
                // call of a field holding a function: `(self.f)(a)` or of an expression
                if let Expr::Field(f) = strip_paren(&c.func) {
                    let mut fe: Expr = Expr::Field(f.clone());
                    self.visit_expr_mut(&mut fe);
                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    if self.effect("vx_call") {
                        *e = parse_quote!(#fe.vx_call(#(#args,)* vw));
                    } else if self.cfg.effects.contains("vx_call") {
                        *e = parse_quote!(#fe.vx_call(#(#args),*));
                    } else {
                        *e = parse_quote!((#fe)(#(#args),*));
                    }
                    return;
                }
                visit_mut::visit_expr_call_mut(self, c);
                return;
            }
            Expr::ForLoop(f) => {
                let Some(it) = (match iter_expr(&f.expr, true) {
                    Some(i) => Some(i),
                    None => Some(IterE {
                        base: match strip_paren(&f.expr) {
                            Expr::Call(_) => Base::Opaque((*f.expr).clone()),
                            _ => Base::Owned((*f.expr).clone()),
                        },
                        adapters: vec![],
                    }),
                }) else {
                    return;
                };
                let pat = (*f.pat).clone();
                let body = f.body.clone();
                let st = self.loop_over(
                    &it,
                    &mut |s: &mut Self, x, _| {
                        let mut b = body.clone();
                        s.visit_block_mut(&mut b);
                        let ss = b.stmts;
                        vec![parse_quote!({ let #pat = #x; #(#ss)* })]
                    },
                    None,
                );
                *e = parse_quote!({ #(#st)* });
                return;
            }
            Expr::While(w) => {
                let k = self.lp();
                let lit = syn::LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
                // `while let P = e { b }`  ==>  loop { match e { P => b, _ => break } }
                if let Expr::Let(l) = &*w.cond {
                    let mut ex = (*l.expr).clone();
                    self.visit_expr_mut(&mut ex);
                    let p = (*l.pat).clone();
                    let mut b = w.body.clone();
                    self.visit_block_mut(&mut b);
                    *e = parse_quote!(loop { vx_loop!(#lit); match #ex { #p => #b, _ => break } });
                    return;
                }
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#lit);));
                w.body.stmts.push(parse_quote!(vx_loop_end!(#lit);));
                return;
            }
            Expr::Loop(l) => {
                let k = self.lp();
                let lit = syn::LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
                self.visit_block_mut(&mut l.body);
                // the body of `loop` must be of type (): a tail expression becomes a statement
                if let Some(Stmt::Expr(_, semi @ None)) = l.body.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                l.body.stmts.insert(0, parse_quote!(vx_loop!(#lit);));
                l.body.stmts.push(parse_quote!(vx_loop_end!(#lit);));
                return;
            }
            Expr::Binary(b) if self.spec.opts.boolops => {
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (l, r) = ((*b.left).clone(), (*b.right).clone());
                match b.op {
                    syn::BinOp::BitOrAssign(_) => *e = parse_quote!({ let vx_r = #r; #l = #l || vx_r; }),
                    syn::BinOp::BitAndAssign(_) => *e = parse_quote!({ let vx_r = #r; #l = #l && vx_r; }),
                    syn::BinOp::BitOr(_) => *e = parse_quote!({ let vx_l = #l; let vx_r = #r; vx_l || vx_r }),
                    syn::BinOp::BitAnd(_) => *e = parse_quote!({ let vx_l = #l; let vx_r = #r; vx_l && vx_r }),
                    _ => {}
                }
                return;
            }
            Expr::Assign(a) if !self.cfg.proxies.is_empty() && matches!(*a.left, Expr::Field(_)) => {
                self.lhs = true;
                self.visit_expr_mut(&mut a.left);
                self.lhs = false;
                self.visit_expr_mut(&mut a.right);
                return;
            }
            Expr::Field(f) => {
                let lhs = self.lhs;
                self.visit_expr_mut(&mut f.base);
                if self.proxied(&f.base) {
                    let b = (*f.base).clone();
                    *f.base = if lhs { parse_quote!(#b.deref_mut()) } else { parse_quote!(#b.deref()) };
                }
                if self.ctx {
                    if let (Expr::Path(p), syn::Member::Named(n)) = (&*f.base, &f.member) {
                        if p.path.is_ident("self") && (n == "time" || n == "id") {
                            let n = n.clone();
                            *e = parse_quote!(self.context_info.#n);
                        }
                    }
                }
                return;
            }
            Expr::Let(l) => {
                self.visit_expr_mut(&mut l.expr);
                self.visit_pat_mut(&mut l.pat);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `loop { .. break .. } rest` at the end of a function: a `break` is `rest; return`. (`while let P = e { b }` there is
/// `loop { match e { P => b, _ => break } }`.)
fn tail_breaks(b: &mut Block) {
    struct HasLoop(bool);
    impl<'ast> Visit<'ast> for HasLoop {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => self.0 = true,
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    struct Sub(Vec<Stmt>, bool);
    impl VisitMut for Sub {
        fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
        fn visit_expr_loop_mut(&mut self, _: &mut syn::ExprLoop) {}
        fn visit_expr_while_mut(&mut self, _: &mut syn::ExprWhile) {}
        fn visit_expr_for_loop_mut(&mut self, _: &mut syn::ExprForLoop) {}
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Break(br) = e {
                if br.label.is_none() && br.expr.is_none() {
                    let st = &self.0;
                    *e = if st.len() == 1 { let Stmt::Expr(x, _) = &st[0] else { unreachable!() }; x.clone() } else { parse_quote!({ #(#st)* }) };
                } else {
                    self.1 = true;
                }
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let Some(i) = b.stmts.iter().position(|s| matches!(s, Stmt::Expr(Expr::Loop(_) | Expr::While(_), _))) else { return };
    let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
    let mut hl = HasLoop(false);
    rest.iter().for_each(|s| hl.visit_stmt(s));
    if hl.0 || rest.len() > 6 || rest.iter().any(|s| matches!(s, Stmt::Item(_))) {
        return;
    }
    match rest.pop() {
        Some(Stmt::Expr(t, None)) => rest.push(Stmt::Expr(parse_quote!(return #t), Some(Default::default()))),
        Some(s) => {
            rest.push(s);
            rest.push(Stmt::Expr(parse_quote!(return), Some(Default::default())));
        }
        None => rest.push(Stmt::Expr(parse_quote!(return), Some(Default::default()))),
    }
    let Stmt::Expr(e, semi) = &mut b.stmts[i] else { return };
    if let Expr::While(w) = e {
        if let Expr::Let(l) = &*w.cond {
            if w.label.is_some() {
                return;
            }
            let (p, x, body) = ((*l.pat).clone(), (*l.expr).clone(), w.body.clone());
            *e = parse_quote!(loop { match #x { #p => #body, _ => break } });
        }
    }
    if let Expr::Loop(l) = e {
        if l.label.is_some() {
            return;
        }
        let mut s = Sub(rest, false);
        let mut body = l.body.clone();
        s.visit_block_mut(&mut body);
        if !s.1 {
            let changed = norm(&body) != norm(&l.body);
            l.body = body;
            if changed {
                *semi = Some(Default::default());
                b.stmts.truncate(i + 1);
                let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() else { return };
                *semi = None;
            }
        }
    }
}

pub fn emit_fn(f: &FoundFn, spec: &FnSpec, cfg: &Cfg, repo: &Repo, iopts: &[String]) -> Result<Emitted, String> {
    let mut sig = f.sig.clone();
    let mut body = f.body.clone();
    let hash = fnv(&body.as_ref().map(norm).unwrap_or_default());
    let is_trait_fn = iopts.iter().any(|o| o == "trait");

    // canonical parameter names
    let mut k = 0;
    for a in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = a {
            if let (Some(want), Some(id)) = (spec.opts.params.get(k), pat_ident(&t.pat)) {
                if want != "_" && id != want.as_str() {
                    let to = format_ident!("{}", want);
                    let mut r = Rename { from: id.to_string(), to: to.clone() };
                    if let Some(b) = body.as_mut() {
                        r.visit_block_mut(b);
                    }
                    *t.pat = match &*t.pat {
                        Pat::Ident(pi) if pi.mutability.is_some() => parse_quote!(mut #to),
                        _ => parse_quote!(#to),
                    };
                }
            } else if let (Some(want), Pat::Wild(_)) = (spec.opts.params.get(k), &*t.pat) {
                if want != "_" {
                    let to = format_ident!("{}", want);
                    *t.pat = parse_quote!(#to);
                }
            }
            k += 1;
        }
    }
    // canonical names for chosen locals (`local=name:k`: the k-th `let`, counted in the source)
    if !spec.opts.locals.is_empty() {
        if let Some(b) = body.as_mut() {
            struct Lets(Vec<String>);
            impl<'ast> Visit<'ast> for Lets {
                fn visit_local(&mut self, l: &'ast syn::Local) {
                    if let Some(i) = pat_ident(&l.pat) {
                        self.0.push(i.to_string());
                    }
                    syn::visit::visit_local(self, l);
                }
            }
            let mut ls = Lets(vec![]);
            ls.visit_block(b);
            for (name, k) in &spec.opts.locals {
                if ls.0.contains(name) {
                    continue;
                }
                if let Some(old) = ls.0.get(*k).filter(|o| !spec.opts.locals.iter().any(|(n, _)| n == *o)) {
                    let mut r = Rename { from: old.clone(), to: format_ident!("{}", name) };
                    r.visit_block_mut(b);
                }
            }
        }
    }

    let mut inlined = vec![];
    let mut unknown = vec![];
    if let Some(b) = body.as_mut() {
        let mut inl = Inliner { cfg, repo, inlined: vec![], unknown: vec![], depth: 0 };
        inl.visit_block_mut(b);
        inlined = inl.inlined;
        unknown.extend(inl.unknown);
        ConstInline { repo }.visit_block_mut(b);
        tail_breaks(b);
        // `P => x.m(..)` with a proof hook after `m`: a statement
        struct Arms<'b>(&'b FnSpec);
        impl VisitMut for Arms<'_> {
            fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
                visit_mut::visit_arm_mut(self, a);
                if let Expr::MethodCall(m) = &*a.body {
                    let key = format!("after {} ", m.method);
                    if self.0.proofs.keys().any(|k| k.starts_with(&key)) {
                        *a.body = parse_quote!({ #m; });
                    }
                }
            }
        }
        Arms(spec).visit_block_mut(b);
        if spec.opts.guards {
            GuardPass.visit_block_mut(b);
        }
    }

    // `mut x: T` parameters
    let mut pre: Vec<Stmt> = vec![];
    for a in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = a {
            t.attrs.clear();
            if let Pat::Ident(pi) = &mut *t.pat {
                if pi.mutability.is_some() {
                    pi.mutability = None;
                    let id = pi.ident.clone();
                    pre.push(parse_quote!(let mut #id = #id;));
                }
            }
        }
    }

    let mut tx = Tx {
        cfg,
        spec,
        ctx: iopts.iter().any(|o| o == "ctx"),
        nloops: 0,
        lhs: false,
        marks: Default::default(),
        split_done: false,
        tmp: 0,
        dropped: 0,
        locks: 0,
        unsupported: vec![],
        callees: Default::default(),
        closures_iter: vec![],
    };
    let text = match body {
        Some(mut b) => {
            let mut p = pre;
            p.append(&mut b.stmts);
            b.stmts = p;
            tx.visit_block_mut(&mut b);
            // `mut self`
            if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    struct Me;
                    impl VisitMut for Me {
                        fn visit_path_mut(&mut self, p: &mut syn::Path) {
                            if p.is_ident("self") {
                                *p = parse_quote!(vx_self);
                            }
                            visit_mut::visit_path_mut(self, p);
                        }
                    }
                    Me.visit_block_mut(&mut b);
                    b.stmts.insert(0, parse_quote!(let mut vx_self = self;));
                }
            }
            for c in &tx.callees {
                if !cfg.contracts.contains(c) && !cfg.shims.contains(c) && repo.defines(c) {
                    unknown.push(c.clone());
                }
            }
            Some(b.to_token_stream().to_string())
        }
        None => None,
    };

    let header = match &spec.opts.sig {
        Some(s) => s.trim_end().to_string(),
        None => {
            let mut paths = Paths { cfg };
            if spec.opts.mutself {
                for a in sig.inputs.iter_mut() {
                    if let syn::FnArg::Receiver(r) = a {
                        if r.reference.is_some() {
                            *r = parse_quote!(&mut self);
                        }
                    }
                }
            }
            paths.visit_signature_mut(&mut sig);
            let name = spec.opts.emit_as.clone().unwrap_or(sig.ident.to_string());
            let g = &sig.generics;
            let mut inputs: Vec<String> =
                sig.inputs.iter().map(|a| a.to_token_stream().to_string()).collect();
            if spec.opts.world {
                inputs.push("vw: &mut World".into());
            }
            let ret = match &sig.output {
                syn::ReturnType::Default => String::new(),
                syn::ReturnType::Type(_, t) => match &spec.opts.ret {
                    Some(r) => format!(" -> ({}: {})", r, t.to_token_stream()),
                    None => format!(" -> {}", t.to_token_stream()),
                },
            };
            let (ig, _, wc) = g.split_for_impl();
            format!(
                "{}fn {}{}({}){} {}",
                if is_trait_fn { "" } else { "pub " },
                name,
                ig.to_token_stream(),
                inputs.join(", "),
                ret,
                wc.to_token_stream()
            )
        }
    };
    let _ = quote!();
    Ok(Emitted {
        header,
        body: text,
        nloops: tx.nloops,
        unknown,
        inlined,
        dropped: tx.dropped,
        unsupported: tx.unsupported,
        hash,
    })
}
