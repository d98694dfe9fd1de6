//! Locating functions in the repository's sources.
use crate::FnSpec;
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;

pub struct Sources { pub files: Vec<(String, syn::File)>, pub bad: Vec<String> }

#[derive(Clone)]
pub struct Found { pub file: String, pub line: usize, pub sig: syn::Signature, pub block: syn::Block, pub container: String, pub sib: Vec<syn::Item> }

/// cfg flags: no SIMD / vDSP / BLAS acceleration and no tests in this build
pub fn cfg_on(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().all(|a| {
        if !a.path().is_ident("cfg") { return true }
        match a.parse_args::<syn::Meta>() { Ok(m) => eval(&m), Err(_) => true }
    })
}
fn eval(m: &syn::Meta) -> bool {
    match m {
        syn::Meta::Path(p) => !(p.is_ident("neon_simd") || p.is_ident("apple_vdsp") || p.is_ident("blas") || p.is_ident("test") || p.is_ident("apple_accelerate")),
        syn::Meta::List(l) => {
            let inner = l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map(|p| p.into_iter().collect::<Vec<_>>()).unwrap_or_default();
            if l.path.is_ident("not") { !inner.iter().all(eval) } else if l.path.is_ident("any") { inner.iter().any(eval) } else { inner.iter().all(eval) }
        }
        syn::Meta::NameValue(n) => {
            let v = n.value.to_token_stream().to_string();
            match n.path.get_ident().map(|i| i.to_string()).as_deref() {
                Some("target_arch") => v == "\"x86_64\"",
                Some("target_os") => v == "\"linux\"",
                _ => false,
            }
        }
    }
}

pub fn norm(ts: impl ToTokens) -> String {
    // token text without blanks, lifetimes and the punctuation they leave behind
    let mut out = String::new();
    fn go(ts: TokenStream, out: &mut String) {
        let mut skip_tick = false;
        for t in ts {
            match t {
                TokenTree::Punct(p) if p.as_char() == '\'' => skip_tick = true,
                TokenTree::Ident(i) if skip_tick => { skip_tick = false; let _ = i; }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                    out.push_str(a); go(g.stream(), out); out.push_str(b)
                }
                TokenTree::Ident(i) => {
                    if out.ends_with(|c: char| c.is_alphanumeric() || c == '_') { out.push(' ') }
                    out.push_str(&i.to_string())
                }
                t => out.push_str(&t.to_string()),
            }
        }
    }
    go(ts.to_token_stream(), &mut out);
    out.replace("<,", "<").replace("<>", "").replace("& ", "&")
}

impl Sources {
    pub fn load(repo: &str) -> Sources {
        let mut s = Sources { files: vec![], bad: vec![] };
        fn walk(d: &std::path::Path, root: &std::path::Path, s: &mut Sources) {
            let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() { walk(&p, root, s) }
                else if p.extension().map_or(false, |e| e == "rs") {
                    let name = p.strip_prefix(root).unwrap().to_str().unwrap().to_string();
                    match std::fs::read_to_string(&p).map_err(|e| e.to_string()).and_then(|t| syn::parse_file(&t).map_err(|e| e.to_string())) {
                        Ok(f) => s.files.push((name, f)),
                        Err(e) => s.bad.push(format!("{name}: {e}")),
                    }
                }
            }
        }
        let root = std::path::Path::new(repo);
        walk(&root.join("src"), root, &mut s);
        s
    }

    pub fn find(&self, f: &FnSpec) -> Result<Found, String> {
        let mut hits = vec![];
        // `A | B`: the method as A gives it, else as B does (overridden or inherited)
        for container in f.container.split(" | ") {
            for (name, file) in &self.files { hits.extend(self.in_file(name, file, container.trim(), &f.name)?) }
            if !hits.is_empty() { break }
        }
        let here: Vec<_> = hits.iter().filter(|h| h.file == f.file).cloned().collect();
        let pick = if here.len() == 1 { here } else if here.is_empty() { hits } else { here };
        if pick.len() == 1 {
            let ov = if let Some(pre) = f.calls.get("!overrides").map(|x| x.0.clone()) {
                // `vop` in the macro body stands for the operator's own name
                let (pre, sym) = pre.split_once('/').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((pre, String::new()));
                let name = f.name.clone();
                self.overrides(&|t| t.starts_with(&pre), &|m| match name.strip_prefix(&sym) { Some(rest) if !sym.is_empty() => { let own = m.strip_suffix(rest); own.map_or(false, |o| !o.is_empty() && !o.contains('_')) } _ => m == name })
            } else if let Some(t) = pick[0].container.strip_prefix("trait ") { let t = t.trim().to_string(); self.overrides(&|x| x == t, &|m| m == f.name) } else { vec![] };
            let skip = f.container.contains(" | ") || f.flags.contains("overridden");
            if !ov.is_empty() && !skip { return Err(format!("replaced for some types: {}", ov.join("; "))) }
        }
        match pick.len() {
            1 => Ok(pick.into_iter().next().unwrap()),
            0 => Err(format!("{} :: {} :: {} not found", f.file, f.container, f.name)),
            n => Err(format!("{} :: {} :: {} is ambiguous ({n})", f.file, f.container, f.name)),
        }
    }

    fn in_file(&self, name: &str, file: &syn::File, container: &str, fname: &str) -> Result<Vec<Found>, String> {
        let mut out = vec![];
        if let Some(m) = container.strip_prefix("macro ") {
            // macro NAME with a=b,c=d / inner container
            let (head, inner) = m.split_once(" / ").unwrap_or((m, "-"));
            let (mname, binds) = head.split_once(" with ").unwrap_or((head, ""));
            let mut map: HashMap<String, TokenStream> = HashMap::new();
            for b in binds.split(',').filter(|s| !s.trim().is_empty()) {
                let (k, v) = b.split_once('=').ok_or("bad macro binding")?;
                map.insert(k.trim().into(), v.trim().parse().map_err(|e| format!("{e}"))?);
            }
            for it in &file.items {
                if let syn::Item::Macro(im) = it {
                    if im.mac.path.is_ident("macro_rules") && im.ident.as_ref().map_or(false, |i| i == mname.trim()) {
                        for body in macro_arms(im.mac.tokens.clone()) {
                            let exp = subst(body, &map)?;
                            if let Ok(f) = syn::parse2::<syn::File>(exp) {
                                let n = out.len();
                                collect(name, &f.items, inner.trim(), fname, &mut out);
                                for x in &mut out[n..] { x.sib = f.items.clone() }
                            }
                        }
                    }
                }
            }
        } else {
            collect(name, &file.items, container, fname, &mut out);
        }
        Ok(out)
    }

    /// a function next to one that comes from a macro body
    pub fn sibling(&self, file: &str, sib: &[syn::Item], name: &str) -> Option<Found> {
        let mut hits = vec![];
        collect_any(file, sib, name, &mut hits);
        if hits.len() == 1 { let mut h = hits.pop()?; h.sib = sib.to_vec(); Some(h) } else { None }
    }

    /// implementations that replace a default method of a trait (in this configuration)
    pub fn overrides(&self, traits: &dyn Fn(&str) -> bool, method: &dyn Fn(&str) -> bool) -> Vec<String> {
        let mut out = vec![];
        for (n, f) in &self.files {
            for it in &f.items {
                let im = match it { syn::Item::Impl(im) if cfg_on(&im.attrs) => im, _ => continue };
                let tr = match &im.trait_ { Some((_, p, _)) => p.segments.last().unwrap().ident.to_string(), None => continue };
                if !traits(&tr) { continue }
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Fn(f) => if cfg_on(&f.attrs) && method(&f.sig.ident.to_string()) { out.push(format!("{n}: impl {tr} for {}: {}", norm(&im.self_ty), f.sig.ident)) },
                        syn::ImplItem::Macro(m) => {
                            let mn = m.mac.path.segments.last().unwrap().ident.to_string();
                            for f in self.expand_fns(&mn, m.mac.tokens.clone()) {
                                if cfg_on(&f.attrs) && method(&f.sig.ident.to_string()) { out.push(format!("{n}: impl {tr} for {} ({mn}!): {}", norm(&im.self_ty), f.sig.ident)) }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        out
    }

    fn expand_fns(&self, mname: &str, args: TokenStream) -> Vec<syn::ImplItemFn> {
        let mut argv: Vec<TokenStream> = vec![TokenStream::new()];
        for t in args { if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',' || p.as_char() == ';') { argv.push(TokenStream::new()) } else { argv.last_mut().unwrap().extend([t]) } }
        let mut out = vec![];
        for (_, f) in &self.files {
            for it in &f.items {
                let im = match it { syn::Item::Macro(im) if im.ident.as_ref().map_or(false, |i| i == mname) => im, _ => continue };
                let v: Vec<TokenTree> = im.mac.tokens.clone().into_iter().collect();
                for w in v.windows(4) {
                    if let (TokenTree::Group(pat), TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Group(g)) = (&w[0], &w[1], &w[2], &w[3]) {
                        if a.as_char() != '=' || b.as_char() != '>' { continue }
                        let pv: Vec<TokenTree> = pat.stream().into_iter().collect();
                        let mut map = HashMap::new();
                        let mut k = 0;
                        for x in pv.windows(2) { if let (TokenTree::Punct(d), TokenTree::Ident(id)) = (&x[0], &x[1]) { if d.as_char() == '$' { if let Some(t) = argv.get(k) { map.insert(id.to_string(), t.clone()); } k += 1; } } }
                        if let Ok(exp) = subst(g.stream(), &map) {
                            let whole = quote::quote! { impl X { #exp } };
                            if let Ok(i) = syn::parse2::<syn::ItemImpl>(whole) { for x in i.items { if let syn::ImplItem::Fn(f) = x { out.push(f) } } }
                        }
                    }
                }
            }
        }
        out
    }

    /// a function to inline at a call `name(..)` / `Self::name(..)` / `x.name(..)`, unique in the crate
    pub fn helper(&self, file: &str, name: &str) -> Option<Found> {
        let mut hits = vec![];
        for (n, f) in &self.files { collect_any(n, &f.items, name, &mut hits) }
        let here: Vec<_> = hits.iter().filter(|h: &&Found| h.file == file).cloned().collect();
        if here.len() == 1 { return here.into_iter().next() }
        if here.is_empty() && hits.len() == 1 { return hits.into_iter().next() }
        None
    }

    pub fn const_value(&self, name: &str) -> Option<String> {
        let mut v = vec![];
        for (_, f) in &self.files {
            for it in &f.items {
                if let syn::Item::Const(c) = it { if c.ident == name && cfg_on(&c.attrs) { v.push(c.expr.to_token_stream().to_string()) } }
            }
        }
        if v.len() == 1 { v.pop() } else { None }
    }
}

fn macro_arms(ts: TokenStream) -> Vec<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    for w in v.windows(4) {
        if let (TokenTree::Group(_), TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Group(g)) = (&w[0], &w[1], &w[2], &w[3]) {
            if a.as_char() == '=' && b.as_char() == '>' { out.push(g.stream()) }
        }
    }
    out
}

/// substitutes $x, unfolds paste! { } and [< .. >]
fn subst(ts: TokenStream, map: &HashMap<String, TokenStream>) -> Result<TokenStream, String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                // $( .. ) sep *: one repetition
                if let (Some(TokenTree::Group(g)), Some(TokenTree::Punct(q))) = (v.get(i + 1), v.get(i + 2)) {
                    if g.delimiter() == Delimiter::Parenthesis && (q.as_char() == '*' || matches!(v.get(i + 3), Some(TokenTree::Punct(z)) if z.as_char() == '*')) {
                        out.extend(subst(g.stream(), map)?);
                        i += if q.as_char() == '*' { 3 } else { 4 };
                        continue;
                    }
                }
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    if let Some(t) = map.get(&id.to_string()) { out.extend(t.clone()); i += 2; continue }
                }
                out.extend([v[i].clone()]);
                i += 1;
            }
            TokenTree::Ident(id) if id == "paste" && matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '!') => {
                if let Some(TokenTree::Group(g)) = v.get(i + 2) { out.extend(subst(g.stream(), map)?); i += 3; continue }
                out.extend([v[i].clone()]); i += 1;
            }
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let is_paste = g.delimiter() == Delimiter::Bracket && inner.len() >= 2
                    && matches!(&inner[0], TokenTree::Punct(p) if p.as_char() == '<')
                    && matches!(&inner[inner.len() - 1], TokenTree::Punct(p) if p.as_char() == '>');
                if is_paste {
                    let mid: TokenStream = inner[1..inner.len() - 1].iter().cloned().collect();
                    let s: String = subst(mid, map)?.into_iter().map(|t| t.to_string()).collect::<Vec<_>>().join("");
                    out.extend([TokenTree::Ident(Ident::new(&s, Span::call_site()))]);
                } else {
                    let mut ng = Group::new(g.delimiter(), subst(g.stream(), map)?);
                    ng.set_span(g.span());
                    out.extend([TokenTree::Group(ng)]);
                }
                i += 1;
            }
            t => { out.extend([t.clone()]); i += 1 }
        }
    }
    Ok(out)
}

fn collect(file: &str, items: &[syn::Item], container: &str, fname: &str, out: &mut Vec<Found>) {
    for it in items {
        match it {
            syn::Item::Mod(m) if cfg_on(&m.attrs) => if let Some((_, its)) = &m.content { collect(file, its, container, fname, out) },
            syn::Item::Fn(f) if container == "-" && f.sig.ident == fname && cfg_on(&f.attrs) =>
                out.push(Found { file: file.into(), line: f.sig.ident.span().start().line, sig: f.sig.clone(), block: (*f.block).clone(), container: "-".into(), sib: vec![] }),
            syn::Item::Trait(t) if container.strip_prefix("trait ").map_or(false, |n| t.ident == n.trim()) && cfg_on(&t.attrs) => for ti in &t.items {
                if let syn::TraitItem::Fn(f) = ti {
                    if f.sig.ident == fname && cfg_on(&f.attrs) { if let Some(b) = &f.default {
                        out.push(Found { file: file.into(), line: f.sig.ident.span().start().line, sig: f.sig.clone(), block: b.clone(), container: container.into(), sib: vec![] })
                    } }
                }
            },
            syn::Item::Impl(im) if container.starts_with("impl ") && cfg_on(&im.attrs) => {
                let want = container[5..].trim();
                let (wt, wty) = match want.split_once(" for ") { Some((a, b)) => (Some(a.trim()), b.trim()), None => (None, want) };
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().to_token_stream()).map(norm);
                let trn = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let ty = norm(&im.self_ty);
                let ok_tr = match (wt, &tr) { (None, None) => true, (Some(a), Some(b)) => a.replace(' ', "") == b.replace(' ', "") || Some(a.to_string()) == trn, _ => false };
                let base = |s: &str| s.split('<').next().unwrap().to_string();
                let ok_ty = ty.replace(' ', "") == wty.replace(' ', "") || (!wty.contains('<') && base(&ty) == wty);
                if ok_tr && ok_ty {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == fname && cfg_on(&f.attrs) {
                                out.push(Found { file: file.into(), line: f.sig.ident.span().start().line, sig: f.sig.clone(), block: f.block.clone(), container: container.into(), sib: vec![] })
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn collect_any(file: &str, items: &[syn::Item], fname: &str, out: &mut Vec<Found>) {
    let mut push = |sig: &syn::Signature, b: &syn::Block| out.push(Found { file: file.into(), line: sig.ident.span().start().line, sig: sig.clone(), block: b.clone(), container: "?".into(), sib: vec![] });
    for it in items {
        match it {
            syn::Item::Fn(f) if f.sig.ident == fname && cfg_on(&f.attrs) => push(&f.sig, &f.block),
            syn::Item::Trait(t) if cfg_on(&t.attrs) => for ti in &t.items {
                if let syn::TraitItem::Fn(f) = ti { if f.sig.ident == fname && cfg_on(&f.attrs) { if let Some(b) = &f.default { push(&f.sig, b) } } }
            },
            syn::Item::Impl(im) if cfg_on(&im.attrs) => for ii in &im.items {
                if let syn::ImplItem::Fn(f) = ii { if f.sig.ident == fname && cfg_on(&f.attrs) { push(&f.sig, &f.block) } }
            },
            _ => {}
        }
    }
}
