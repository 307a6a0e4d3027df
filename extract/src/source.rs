//! Finding items in the repository's source: cfg evaluation, item-level `cfg_if!`, simple `macro_rules!`
//! expansion and the synthetic impls that `enum_dispatch` / `enum_delegate` generate.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

pub struct Repo {
    root: PathBuf,
    pub features: BTreeSet<String>,
    pub files: BTreeMap<String, Vec<syn::Item>>,
    pub errors: Vec<String>,
}

#[derive(Clone)]
pub struct FoundFn {
    pub sig: syn::Signature,
    pub body: Option<syn::Block>,
    pub line: usize,
    pub end_line: usize,
    pub self_ty: Option<String>,
}

pub enum FoundTy {
    Struct(syn::ItemStruct),
    Enum(syn::ItemEnum),
}

pub fn norm(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}

/// Evaluates the tokens inside `cfg(...)`.
pub fn cfg_true(ts: &TokenStream, feats: &BTreeSet<String>) -> bool {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    if v.is_empty() {
        return true;
    }
    match &v[0] {
        TokenTree::Ident(i) if i == "feature" && v.len() >= 3 => {
            let lit = v[2].to_string();
            feats.contains(lit.trim_matches('"'))
        }
        TokenTree::Ident(i) if i == "not" => match v.get(1) {
            Some(TokenTree::Group(g)) => !cfg_true(&g.stream(), feats),
            _ => false,
        },
        TokenTree::Ident(i) if i == "all" || i == "any" => match v.get(1) {
            Some(TokenTree::Group(g)) => {
                let mut parts: Vec<TokenStream> = vec![TokenStream::new()];
                for t in g.stream() {
                    if let TokenTree::Punct(p) = &t {
                        if p.as_char() == ',' {
                            parts.push(TokenStream::new());
                            continue;
                        }
                    }
                    parts.last_mut().unwrap().extend([t]);
                }
                let mut it = parts.iter().filter(|p| !p.is_empty()).map(|p| cfg_true(p, feats));
                if i == "all" {
                    it.all(|b| b)
                } else {
                    it.any(|b| b)
                }
            }
            _ => false,
        },
        _ => false, // test, doc, debug_assertions, ...
    }
}

pub fn attrs_on(attrs: &[syn::Attribute], feats: &BTreeSet<String>) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            if let syn::Meta::List(l) = &a.meta {
                return cfg_true(&l.tokens, feats);
            }
        }
        true
    })
}

/// Picks the live branch of the tokens of a `cfg_if!`.
pub fn cfg_if_branch(ts: TokenStream, feats: &BTreeSet<String>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    loop {
        match v.get(i) {
            Some(TokenTree::Ident(id)) if id == "else" => match v.get(i + 1) {
                Some(TokenTree::Group(g)) => return g.stream(),
                _ => {
                    i += 1;
                    continue;
                }
            },
            Some(TokenTree::Ident(id)) if id == "if" => {
                // if # [cfg(..)] { .. }
                let cond = match v.get(i + 2) {
                    Some(TokenTree::Group(g)) => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        match inner.get(1) {
                            Some(TokenTree::Group(c)) => cfg_true(&c.stream(), feats),
                            _ => false,
                        }
                    }
                    _ => false,
                };
                if cond {
                    if let Some(TokenTree::Group(g)) = v.get(i + 3) {
                        return g.stream();
                    }
                }
                i += 4;
            }
            _ => return TokenStream::new(),
        }
    }
}

fn item_attrs(it: &syn::Item) -> &[syn::Attribute] {
    use syn::Item::*;
    match it {
        Const(x) => &x.attrs,
        Enum(x) => &x.attrs,
        Fn(x) => &x.attrs,
        Impl(x) => &x.attrs,
        Macro(x) => &x.attrs,
        Mod(x) => &x.attrs,
        Static(x) => &x.attrs,
        Struct(x) => &x.attrs,
        Trait(x) => &x.attrs,
        Type(x) => &x.attrs,
        Use(x) => &x.attrs,
        _ => &[],
    }
}

fn subst(ts: TokenStream, m: &BTreeMap<String, TokenTree>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '$' {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    if let Some(r) = m.get(&id.to_string()) {
                        out.extend([r.clone()]);
                        i += 2;
                        continue;
                    }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), m));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

/// One-rule macros whose matcher is a comma-separated list of `$x: frag` (each matching one token tree).
fn expand_simple(def: &TokenStream, args: TokenStream) -> Option<TokenStream> {
    let v: Vec<TokenTree> = def.clone().into_iter().collect();
    let TokenTree::Group(matcher) = v.first()? else { return None };
    let body = v.iter().skip(1).find_map(|t| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
        _ => None,
    })?;
    let mut names = vec![];
    let m: Vec<TokenTree> = matcher.stream().into_iter().collect();
    let mut i = 0;
    while i < m.len() {
        match (&m[i], m.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Ident(id))) if p.as_char() == '$' => {
                names.push(id.to_string());
                i += 4; // $ x : frag
                if let Some(TokenTree::Punct(p)) = m.get(i) {
                    if p.as_char() == ',' {
                        i += 1;
                    }
                }
            }
            _ => return None,
        }
    }
    let a: Vec<TokenTree> = args
        .into_iter()
        .filter(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == ','))
        .collect();
    if a.len() != names.len() {
        return None;
    }
    Some(subst(body, &names.into_iter().zip(a).collect()))
}

impl Repo {
    pub fn new(root: &str, features: BTreeSet<String>) -> Self {
        Repo { root: root.into(), features, files: Default::default(), errors: vec![] }
    }

    pub fn load_all(&mut self) {
        fn walk(p: &Path, out: &mut Vec<PathBuf>) {
            let Ok(rd) = std::fs::read_dir(p) else { return };
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for e in es {
                if e.is_dir() {
                    walk(&e, out)
                } else if e.extension().is_some_and(|x| x == "rs") {
                    out.push(e)
                }
            }
        }
        let mut fs = vec![];
        walk(&self.root.join("src"), &mut fs);
        for f in fs {
            let rel = f.strip_prefix(&self.root).unwrap().to_string_lossy().into_owned();
            let Ok(text) = std::fs::read_to_string(&f) else { continue };
            match syn::parse_file(&text) {
                Ok(file) => {
                    let mut out = vec![];
                    let mut macros = BTreeMap::new();
                    self.flatten(file.items, &mut out, &mut macros);
                    self.files.insert(rel, out);
                }
                Err(e) => self.errors.push(format!("{rel}: {e}")),
            }
        }
    }

    fn flatten(&self, items: Vec<syn::Item>, out: &mut Vec<syn::Item>, macros: &mut BTreeMap<String, TokenStream>) {
        for it in items {
            if !attrs_on(item_attrs(&it), &self.features) {
                continue;
            }
            match it {
                syn::Item::Mod(m) => {
                    if let Some((_, inner)) = m.content {
                        self.flatten(inner, out, macros);
                    }
                }
                syn::Item::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if name == "macro_rules" {
                        if let Some(id) = &m.ident {
                            macros.insert(id.to_string(), m.mac.tokens.clone());
                        }
                    } else if name == "cfg_if" {
                        let br = cfg_if_branch(m.mac.tokens.clone(), &self.features);
                        if let Ok(f) = syn::parse2::<syn::File>(br) {
                            self.flatten(f.items, out, macros);
                        }
                    } else if let Some(def) = macros.get(&name) {
                        if let Some(ts) = expand_simple(def, m.mac.tokens.clone()) {
                            if let Ok(f) = syn::parse2::<syn::File>(ts) {
                                self.flatten(f.items, out, macros);
                            }
                        } else {
                            out.push(syn::Item::Macro(m));
                        }
                    } else {
                        out.push(syn::Item::Macro(m));
                    }
                }
                other => out.push(other),
            }
        }
    }

    /// `impl Trait for Enum { fn m(&mut self, ..) { match self { Enum::V(vx_in) => vx_in.m(..), .. } } }`
    pub fn synth_dispatch(&mut self, tr: &str, en: &str, ufcs: bool) {
        let mut t: Option<(String, syn::ItemTrait)> = None;
        let mut e: Option<syn::ItemEnum> = None;
        for (f, items) in &self.files {
            for it in items {
                match it {
                    syn::Item::Trait(x) if x.ident == tr => t = Some((f.clone(), x.clone())),
                    syn::Item::Enum(x) if x.ident == en => e = Some(x.clone()),
                    _ => {}
                }
            }
        }
        let (Some((f, t)), Some(e)) = (t, e) else { return };
        let en = &e.ident;
        let trid = &t.ident;
        let mut fns = vec![];
        for it in &t.items {
            if let syn::TraitItem::Fn(m) = it {
                let sig = &m.sig;
                let name = &sig.ident;
                let args: Vec<_> = sig
                    .inputs
                    .iter()
                    .filter_map(|a| match a {
                        syn::FnArg::Typed(p) => Some(p.pat.clone()),
                        _ => None,
                    })
                    .collect();
                let arms = e.variants.iter().map(|v| {
                    let vi = &v.ident;
                    if ufcs {
                        quote!(#en::#vi(vx_in) => #trid::#name(vx_in, #(#args),*))
                    } else {
                        quote!(#en::#vi(vx_in) => vx_in.#name(#(#args),*))
                    }
                });
                fns.push(quote!(#sig { match self { #(#arms),* } }));
            }
        }
        let _ = format_ident!("x");
        let g = &t.generics;
        let eg = &e.generics;
        let (_, tyt, _) = g.split_for_impl();
        let (ig, tye, _) = eg.split_for_impl();
        let ts = quote!(impl #ig #trid #tyt for #en #tye { #(#fns)* });
        if let Ok(i) = syn::parse2::<syn::Item>(ts) {
            self.files.get_mut(&f).unwrap().push(i);
        }
    }

    pub fn find_type(&self, file: &str, kind: &str, name: &str) -> Option<FoundTy> {
        for it in self.files.get(file)? {
            match it {
                syn::Item::Struct(s) if kind == "struct" && s.ident == name => return Some(FoundTy::Struct(s.clone())),
                syn::Item::Enum(s) if kind == "enum" && s.ident == name => return Some(FoundTy::Enum(s.clone())),
                _ => {}
            }
        }
        None
    }

    /// a `static`: its type and initial value
    pub fn find_static(&self, file: &str, name: &str) -> Option<(String, String)> {
        for it in self.files.get(file)? {
            if let syn::Item::Static(s) = it {
                if s.ident == name && matches!(s.mutability, syn::StaticMutability::None) {
                    return Some((s.ty.to_token_stream().to_string(), s.expr.to_token_stream().to_string()));
                }
            }
        }
        None
    }

    fn impl_matches(i: &syn::ItemImpl, sel: &str) -> bool {
        let self_ty = match &*i.self_ty {
            syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            t => norm(t),
        };
        let (tr, ty) = match sel.split_once(" for ") {
            Some((a, b)) => (Some(a.trim()), b.trim()),
            None => (None, sel),
        };
        if ty != self_ty && ty.replace(' ', "") != norm(&i.self_ty) {
            return false;
        }
        match (tr, &i.trait_) {
            (None, None) => true,
            (Some(t), Some((_, p, _))) => {
                let last = p.segments.last().unwrap();
                if t.contains('<') {
                    norm(last) == t.replace(' ', "")
                } else {
                    last.ident == t
                }
            }
            _ => false,
        }
    }

    /// `default Trait for Type`: the method as `Type` gets it: from its own impl of the trait, else from the
    /// trait's default body, else from a blanket `impl<U: Marker> Trait for U` whose marker `Type` implements.
    fn find_default(&self, tr: &str, ty: &str, name: &str) -> Option<FoundFn> {
        let sel = format!("{tr} for {ty}");
        let mut has_impl = false;
        for (f, items) in &self.files {
            if items.iter().any(|it| matches!(it, syn::Item::Impl(i) if Self::impl_matches(i, &sel))) {
                has_impl = true;
                if let Some(x) = self.find_fn(f, &sel, name) {
                    return Some(x);
                }
            }
        }
        if has_impl {
            for f in self.files.keys() {
                if let Some(x) = self.find_fn(f, &format!("trait {tr}"), name) {
                    if x.body.is_some() {
                        return Some(x);
                    }
                }
            }
            return None;
        }
        for (f, items) in &self.files {
            for it in items {
                let syn::Item::Impl(i) = it else { continue };
                let Some((_, p, _)) = &i.trait_ else { continue };
                if p.segments.last().unwrap().ident != tr {
                    continue;
                }
                let gen = norm(&i.self_ty);
                if !i.generics.type_params().any(|t| t.ident == gen) {
                    continue;
                }
                let mut markers: Vec<String> = vec![];
                for t in i.generics.type_params().filter(|t| t.ident == gen) {
                    markers.extend(t.bounds.iter().map(norm));
                }
                if let Some(w) = &i.generics.where_clause {
                    for pr in &w.predicates {
                        if let syn::WherePredicate::Type(t) = pr {
                            if norm(&t.bounded_ty) == gen {
                                markers.extend(t.bounds.iter().map(norm));
                            }
                        }
                    }
                }
                let ok = markers.iter().all(|m| {
                    let ms = format!("{m} for {ty}");
                    self.files.values().flatten().any(|x| matches!(x, syn::Item::Impl(j) if Self::impl_matches(j, &ms)))
                });
                if ok && !markers.is_empty() {
                    return self.find_fn(f, &format!("{tr} for {gen}"), name);
                }
            }
        }
        None
    }

    pub fn find_fn(&self, file: &str, sel: &str, name: &str) -> Option<FoundFn> {
        if let Some(r) = sel.strip_prefix("default ") {
            let (tr, ty) = r.split_once(" for ")?;
            return self.find_default(tr.trim(), ty.trim(), name);
        }
        let items = self.files.get(file)?;
        for it in items {
            match it {
                syn::Item::Fn(f) if sel.is_empty() && f.sig.ident == name => {
                    return Some(FoundFn {
                        sig: f.sig.clone(),
                        body: Some((*f.block).clone()),
                        line: f.sig.span().start().line,
                        end_line: f.block.span().end().line,
                        self_ty: None,
                    })
                }
                syn::Item::Trait(t) if sel == format!("trait {}", t.ident) => {
                    for x in &t.items {
                        if let syn::TraitItem::Fn(m) = x {
                            if m.sig.ident == name {
                                return Some(FoundFn {
                                    sig: m.sig.clone(),
                                    body: m.default.clone(),
                                    line: m.sig.span().start().line,
                                    end_line: m.span().end().line,
                                    self_ty: None,
                                });
                            }
                        }
                    }
                }
                syn::Item::Impl(i) if Self::impl_matches(i, sel) => {
                    for x in &i.items {
                        match x {
                            syn::ImplItem::Fn(m) if m.sig.ident == name && attrs_on(&m.attrs, &self.features) => {
                                return Some(FoundFn {
                                    sig: m.sig.clone(),
                                    body: Some(m.block.clone()),
                                    line: m.sig.span().start().line,
                                    end_line: m.span().end().line,
                                    self_ty: match &*i.self_ty {
                                        syn::Type::Path(p) => {
                                            Some(p.path.segments.last().unwrap().ident.to_string())
                                        }
                                        _ => None,
                                    },
                                })
                            }
                            // `const NAME: fn(..) = |a, b| body;`
                            syn::ImplItem::Const(c) if c.ident == name => {
                                if let syn::Expr::Closure(cl) = &c.expr {
                                    let block: syn::Block = match &*cl.body {
                                        syn::Expr::Block(b) => b.block.clone(),
                                        e => syn::parse_quote!({ #e }),
                                    };
                                    let names: Vec<_> = cl.inputs.iter().collect();
                                    let id = format_ident!("{}", name.to_lowercase());
                                    let sig: syn::Signature =
                                        syn::parse_quote!(fn #id(#(#names: VxInfer),*));
                                    return Some(FoundFn {
                                        sig,
                                        body: Some(block),
                                        line: c.span().start().line,
                                        end_line: c.span().end().line,
                                        self_ty: None,
                                    });
                                }
                                // an associated constant, as a function without arguments
                                let (id, t, x) = (format_ident!("{}", name.to_lowercase()), &c.ty, &c.expr);
                                return Some(FoundFn {
                                    sig: syn::parse_quote!(fn #id() -> #t),
                                    body: Some(syn::parse_quote!({ #x })),
                                    line: c.span().start().line,
                                    end_line: c.span().end().line,
                                    self_ty: None,
                                });
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }

    /// A function anywhere in the repository that has this name, if there is exactly one with a body.
    pub fn unique_fn(&self, file_hint: Option<&str>, name: &str) -> Option<FoundFn> {
        let mut found = vec![];
        for (f, items) in &self.files {
            if let Some(h) = file_hint {
                if h != f {
                    continue;
                }
            }
            for it in items {
                match it {
                    syn::Item::Fn(x) if x.sig.ident == name => found.push(FoundFn {
                        sig: x.sig.clone(),
                        body: Some((*x.block).clone()),
                        line: 0,
                        end_line: 0,
                        self_ty: None,
                    }),
                    syn::Item::Impl(i) => {
                        for x in &i.items {
                            if let syn::ImplItem::Fn(m) = x {
                                if m.sig.ident == name {
                                    found.push(FoundFn {
                                        sig: m.sig.clone(),
                                        body: Some(m.block.clone()),
                                        line: 0,
                                        end_line: 0,
                                        self_ty: Some("?".into()),
                                    });
                                }
                            }
                        }
                    }
                    syn::Item::Trait(t) => {
                        for x in &t.items {
                            if let syn::TraitItem::Fn(m) = x {
                                if m.sig.ident == name {
                                    found.push(FoundFn {
                                        sig: m.sig.clone(),
                                        body: m.default.clone(),
                                        line: 0,
                                        end_line: 0,
                                        self_ty: Some("?".into()),
                                    });
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        if found.len() == 1 && found[0].body.is_some() {
            found.pop()
        } else {
            None
        }
    }

    /// The defining expression of a (associated or free) constant, if the name is unique.
    pub fn const_expr(&self, name: &str) -> Option<syn::Expr> {
        let mut found: Vec<syn::Expr> = vec![];
        for it in self.files.values().flatten() {
            match it {
                syn::Item::Const(c) if c.ident == name => found.push((*c.expr).clone()),
                syn::Item::Impl(i) => {
                    for x in &i.items {
                        if let syn::ImplItem::Const(c) = x {
                            if c.ident == name && attrs_on(&c.attrs, &self.features) {
                                found.push(c.expr.clone());
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if found.len() == 1 {
            found.pop()
        } else {
            None
        }
    }

    /// How many functions of this name the repository defines.
    pub fn defines(&self, name: &str) -> bool {
        self.files.values().flatten().any(|it| match it {
            syn::Item::Fn(x) => x.sig.ident == name,
            syn::Item::Impl(i) => i.items.iter().any(|x| matches!(x, syn::ImplItem::Fn(m) if m.sig.ident == name)),
            syn::Item::Trait(t) => t.items.iter().any(|x| matches!(x, syn::TraitItem::Fn(m) if m.sig.ident == name)),
            _ => false,
        })
    }
}
