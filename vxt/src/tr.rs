//! Translation of a function body (syn AST) to Verus text. Anything not covered by a rule is an error ("unsupported"), never guessed.
use crate::find::{norm, Found, Sources};
use crate::{Db, FnSpec};
use quote::ToTokens;
use std::collections::HashMap;
use syn::*;

type R<T> = std::result::Result<T, String>;

#[derive(Clone, Debug, PartialEq)]
enum Kind { Plain, Ptr, PtrArr, ElemVec, Slice, SubSlice, Gen, GenMem, Alias(String), Iter(Box<It>) }

#[derive(Clone, Debug, PartialEq)]
enum It {
    Range(String, String),
    Slice { base: String, mutable: bool, by_value: bool, ptr: bool },
    Rev(Box<It>), Enumerate(Box<It>), Zip(Box<It>, Box<It>), Skip(Box<It>, String), Take(Box<It>, String), Copied(Box<It>),
    Gen(String, bool),
    /// the elements of a heap vector (addresses when mutable, values otherwise)
    Cells { base: String, mutable: bool },
}

enum Stage<'a> { Map(&'a ExprClosure), Filter(&'a ExprClosure), FlatMap(&'a ExprClosure) }

struct Tr<'a> {
    f: &'a FnSpec,
    db: &'a Db,
    src: &'a Sources,
    file: String,
    sib: Vec<Item>,
    env: Vec<HashMap<String, Kind>>,
    nloop: usize,
    nret: usize,
    ntmp: usize,
    ninl: usize,
    nclos: usize,
    inline: Vec<String>,
    self_name: String,
    dropped: Vec<String>,
    loop_vars: Vec<String>,
}

pub fn translate(f: &FnSpec, found: &Found, db: &Db, src: &Sources) -> R<(String, usize, Vec<String>)> {
    let mut t = Tr { f, db, src, file: found.file.clone(), sib: found.sib.clone(), env: vec![HashMap::new()], nloop: 0, nret: 0, ntmp: 0, ninl: 0, nclos: 0, inline: vec![], self_name: "self".into(), dropped: vec![], loop_vars: vec![] };
    let mut pre = String::new();
    let mut sp = f.params.iter();
    for inp in &found.sig.inputs {
        match inp {
            FnArg::Receiver(r) => {
                let p = sp.next().ok_or("fewer parameters in the contract than in the source")?;
                t.self_name = p.clone();
                if r.mutability.is_some() && r.reference.is_none() {
                    pre.push_str(&format!("let mut vx_self = {p};\n"));
                    t.self_name = "vx_self".into();
                }
            }
            FnArg::Typed(pt) => {
                let p = sp.next().ok_or("fewer parameters in the contract than in the source")?.clone();
                let k = t.kind_of_type(&pt.ty);
                match &*pt.pat {
                    Pat::Ident(pi) => {
                        let n = pi.ident.to_string();
                        if pi.mutability.is_some() { pre.push_str(&format!("let mut {n} = {p};\n")) }
                        else if n != p { pre.push_str(&format!("let {n} = {p};\n")) }
                        t.bind(&n, k);
                    }
                    Pat::Wild(_) => {}
                    _ => return Err("parameter pattern".into()),
                }
            }
        }
    }
    let body = t.block_inner(&found.block, true)?;
    let p = f.panics.clone().unwrap_or("false".into());
    let p = f.hints.get("panics_entry").map(|s| s.trim().to_string()).unwrap_or(p);
    let start = f.hints.get("start").cloned().unwrap_or_default();
    let hide: String = f.hints.get("hide").cloned().unwrap_or_default().split_whitespace().map(|x| format!("hide({x});\n")).collect();
    for k in f.hints.keys() {
        if let Some(r) = k.strip_prefix("loop ") {
            let n: usize = r.split_whitespace().next().unwrap().parse().map_err(|_| format!("bad hint key {k}"))?;
            if n >= t.nloop { return Err(format!("contract has an invariant for loop {n}, the source has {} loop(s)", t.nloop)) }
        }
    }
    Ok((format!("{{\n{hide}let ghost vx_p = {p};\n{pre}{start}\n{body}\n}}"), t.nloop, t.dropped))
}

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Paren(p) => simple(&p.expr),
        Expr::Unary(u) => simple(&u.expr),
        Expr::Binary(b) => simple(&b.left) && simple(&b.right),
        Expr::Index(i) => simple(&i.expr) && simple(&i.index),
        Expr::Cast(c) => simple(&c.expr),
        Expr::MethodCall(m) => m.method == "len" && simple(&m.receiver),
        _ => false,
    }
}

impl<'a> Tr<'a> {
    fn un<T>(&self, what: &str, e: &impl ToTokens) -> R<T> { Err(format!("{what}: `{}`", e.to_token_stream().to_string().chars().take(160).collect::<String>())) }
    fn bind(&mut self, n: &str, k: Kind) { self.env.last_mut().unwrap().insert(n.into(), k); }
    fn look(&self, n: &str) -> Option<&Kind> { self.env.iter().rev().find_map(|m| m.get(n)) }
    fn tmp(&mut self, p: &str) -> String { self.ntmp += 1; format!("vx{p}_{}", self.ntmp) }
    fn hint(&self, k: &str) -> String { self.f.hints.get(k).cloned().unwrap_or_default() }

    fn kind_of_type(&self, ty: &Type) -> Kind {
        match ty {
            Type::Ptr(_) => Kind::Ptr,
            Type::Reference(r) => match self.kind_of_type(&r.elem) { Kind::Ptr => Kind::Plain, k => k },
            Type::Slice(s) => if matches!(*s.elem, Type::Ptr(_)) { Kind::PtrArr } else { Kind::Slice },
            Type::Array(s) => if matches!(*s.elem, Type::Ptr(_)) { Kind::PtrArr } else { Kind::Slice },
            Type::Paren(p) => self.kind_of_type(&p.elem),
            Type::Path(p) => {
                let l = p.path.segments.last().unwrap();
                if l.ident == "Vec" || l.ident == "VecDeque" { return Kind::Slice }
                if l.ident == "NonNull" { return Kind::Ptr }
                Kind::Plain
            }
            Type::ImplTrait(i) => if norm(i).contains("ToVec") { Kind::Slice } else { Kind::Plain },
            _ => Kind::Plain,
        }
    }

    fn ty(&self, ty: &Type) -> R<String> {
        if let Type::Ptr(_) = ty { return Ok("Ptr".into()) }
        if let Type::Infer(_) = ty { return Ok("_".into()) }
        let s = norm(ty);
        for (a, b) in &self.f.types { if &s == a { return Ok(b.clone()) } }
        match s.as_str() {
            "T" => return Ok("E".into()),
            "usize" | "isize" | "bool" | "i8" | "u8" | "u32" | "Vec<usize>" | "&[usize]" | "[usize;MAX_DIMS]" | "Vec<_>" => return Ok(s),
            _ => {}
        }
        Err(format!("type {s}"))
    }

    fn kind(&self, e: &Expr) -> Kind {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Group(p) => self.kind(&p.expr),
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.look(&i.to_string())).cloned().unwrap_or(Kind::Plain),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => match self.kind(&u.expr) { k @ (Kind::PtrArr | Kind::Slice) => k, _ => Kind::Plain },
            Expr::Unsafe(u) => match u.block.stmts.last() { Some(Stmt::Expr(e, None)) => self.kind(e), _ => Kind::Plain },
            Expr::Reference(r) => match self.kind(&r.expr) { Kind::Ptr => Kind::Plain, k => k },
            Expr::Cast(c) => self.kind_of_type(&c.ty),
            Expr::Field(f) => match &f.member {
                Member::Named(n) if n == "ptr" => Kind::Ptr,
                Member::Named(n) if n == "shape" || n == "stride" || n == "indices" => Kind::Slice,
                _ => Kind::Plain,
            },
            Expr::Index(i) => match (self.kind(&i.expr), &*i.index) {
                (k, Expr::Range(_)) => k,
                (Kind::PtrArr, _) => Kind::Ptr,
                _ => Kind::Plain,
            },
            Expr::Array(a) => if a.elems.iter().any(|x| self.kind(x) == Kind::Ptr) { Kind::PtrArr } else { Kind::Slice },
            Expr::Repeat(a) => if norm(&a.expr).contains("null_mut") { Kind::PtrArr } else { Kind::Slice },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "ptr" | "mut_ptr" | "as_ptr" | "as_mut_ptr" => Kind::Ptr,
                    "add" | "offset" | "sub" | "cast" if self.kind(&m.receiver) == Kind::Ptr => Kind::Ptr,
                    "shape" | "stride" | "to_vec" | "vx_sl" | "as_slice" => Kind::Slice,
                    "clone" => self.kind(&m.receiver),
                    "flatiter" | "flatiter_ptr" => if n == "flatiter" { Kind::GenMem } else { Kind::Gen },
                    "collect" => Kind::Slice,
                    _ => Kind::Plain,
                }
            }
            Expr::Macro(m) if self.f.flags.contains("elem_vec") && m.mac.path.is_ident("vec") && m.mac.tokens.to_string().contains(';') => Kind::ElemVec,
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() { "addr_of" | "addr_of_mut" => Kind::Ptr, "vec" => Kind::Slice, _ => Kind::Plain }
            }
            Expr::Call(c) => {
                let s = norm(&c.func);
                if s.ends_with("Vec::with_capacity") && self.f.flags.contains("elem_vec") { return Kind::ElemVec }
                if s.ends_with("Vec::with_capacity") || s.ends_with("Vec::new") || s.ends_with("VecDeque::with_capacity") || s.ends_with("Vec::from") || s.ends_with("VecDeque::new") { return Kind::Slice }
                if s.ends_with("FlatIndexGenerator::from") { return Kind::Gen }
                if s.ends_with("null_mut") { return Kind::Ptr }
                match s.rsplit("::").next().unwrap() { "stride_from_shape" | "broadcast_shape" | "broadcast_stride" | "broadcast_shapes" | "pad" => Kind::Slice, _ => Kind::Plain }
            }
            _ => Kind::Plain,
        }
    }

    // ---------- blocks and statements ----------

    fn block(&mut self, b: &Block) -> R<String> {
        self.env.push(HashMap::new());
        let r = self.block_inner(b, false);
        self.env.pop();
        r
    }

    /// `//@before NAME`: a hint in front of every statement that calls NAME directly (not inside a nested block)
    fn before(&self, t: &str) -> String { self.around(t, "before ") }

    /// `//@after NAME`: likewise, behind the statement
    fn around(&self, t: &str, w: &str) -> String {
        let mut o = String::new();
        let mut hs: Vec<_> = self.f.hints.iter().collect();
        hs.sort();
        for (k, h) in hs {
            if let Some(n) = k.strip_prefix(w) {
                let flat = t.lines().all(|l| !l.contains("if ") && !l.contains("while ") && !l.contains("loop"));
                if flat && t.contains(&format!("{}(", n.trim())) { o.push_str(h); o.push('\n') }
            }
        }
        o
    }

    fn block_inner(&mut self, b: &Block, is_fn: bool) -> R<String> {
        let mut out = String::new();
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            let last = i + 1 == n;
            let mut o = String::new();
            match s {
                Stmt::Expr(e, None) if last => {
                    if is_fn {
                        // the value of the function
                        match e {
                            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => { o.push_str(&self.stmt(s)?); o.push_str(&self.hint("ret")); }
                            Expr::Unsafe(u) => {
                                self.env.push(HashMap::new());
                                o.push_str(&self.block_inner(&u.block, true)?);
                                self.env.pop();
                            }
                            _ => {
                                let h = self.hint("ret");
                                if h.trim().is_empty() { o.push_str(&self.expr(e)?); }
                                else { let t = self.expr(e)?; o.push_str(&format!("let vx_ret = {t};\n{h}\nvx_ret")); }
                            }
                        }
                    } else { o.push_str(&self.expr(e)?) }
                }
                // `panic!(..);` at the end of a function: its value is whatever the function returns
                Stmt::Macro(m) if last && is_fn && m.mac.path.is_ident("panic") && self.hint("ret").trim().is_empty() => o.push_str(&self.mac(&m.mac)?),
                _ => {
                    o.push_str(&self.stmt(s)?);
                    if last {
                        // vectors bound to a name that is not mentioned again are dropped at the end of the block
                        for (j, l) in b.stmts.iter().enumerate() {
                            if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(v), .. }) = l {
                                let later = b.stmts[j + 1..].iter().any(|s| quote::quote!(#s).to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == p.ident.to_string()));
                                if raw_vec(&v.expr) && !later { o.push_str(&format!("\nvx_drop_vec({}, mem);\n", p.ident)) }
                            }
                        }
                    }
                    if last && is_fn { o.push_str(&self.hint("ret")) }
                }
            }
            let h = self.before(&o);
            let a = if (last && matches!(s, Stmt::Expr(_, None))) || o.contains("return ") { String::new() } else { self.around(&o, "after ") };
            out.push_str(&h); out.push_str(&o); out.push('\n'); out.push_str(&a);
        }
        if n == 0 && is_fn { out.push_str(&self.hint("ret")) }
        Ok(out)
    }

    fn stmt(&mut self, s: &Stmt) -> R<String> {
        match s {
            Stmt::Local(l) => self.local(l),
            Stmt::Item(Item::Use(_)) => Ok(String::new()),
            Stmt::Item(Item::Const(c)) => Ok(format!("let {} = {};", c.ident, self.expr(&c.expr)?)),
            Stmt::Item(i) => self.un("nested item", i),
            Stmt::Macro(m) => Ok(format!("{};", self.mac(&m.mac)?.replacen("vx_panic(", "vx_panic::<()>(", 1))),
            Stmt::Expr(e, Some(_)) if raw_vec(e) => Ok(format!("vx_drop_vec({}, mem);", self.expr(e)?)),
            Stmt::Expr(e, _) => {
                let t = self.expr(e)?;
                Ok(match e { Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Unsafe(_) => if t.trim_end().ends_with('}') { t } else { t + ";" }, _ => format!("{t};") })
            }
        }
    }

    fn local(&mut self, l: &Local) -> R<String> {
        let (pat, ty) = match &l.pat { Pat::Type(t) => (&*t.pat, Some(&*t.ty)), p => (p, None) };
        let init = match &l.init {
            None => {
                if let Pat::Ident(i) = pat {
                    let n = i.ident.to_string();
                    self.bind(&n, ty.map_or(Kind::Plain, |t| self.kind_of_type(t)));
                    let m = if i.mutability.is_some() { "mut " } else { "" };
                    return Ok(format!("let {m}{n}{};", ty.map(|t| self.ty(t)).transpose()?.map_or(String::new(), |t| format!(": {t}"))));
                }
                return self.un("let without value", pat);
            }
            Some(i) => { if i.diverge.is_some() { return self.un("let-else", pat) } &*i.expr }
        };
        match pat {
            Pat::Wild(_) if raw_vec(init) => Ok(format!("vx_drop_vec({}, mem);", self.expr(init)?)),
            Pat::Wild(_) => Ok(format!("let _ = {};", self.expr(init)?)),
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                // a mutable borrow of one element becomes an alias of the place
                let inner = match init { Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] { Stmt::Expr(e, None) => e, _ => init }, e => e };
                let place = match inner {
                    Expr::Reference(r) if r.mutability.is_some() => match &*r.expr { Expr::Index(ix) if !matches!(*ix.index, Expr::Range(_)) => Some((&*ix.expr, &*ix.index)), _ => None },
                    Expr::MethodCall(m) if m.method == "get_unchecked_mut" => Some((&*m.receiver, &m.args[0])),
                    _ => None,
                };
                if let Some((b, ix)) = place {
                    let t = self.tmp("i");
                    let (b, ix) = (self.expr(b)?, self.expr(ix)?);
                    self.bind(&n, Kind::Alias(format!("{b}[{t}]")));
                    return Ok(format!("let {t} = {ix};"));
                }
                // `let x = &mut x[a..b]`: the shadowed owner is out of reach, so the borrow may own the elements
                if let Expr::Reference(r) = inner { if r.mutability.is_some() { if let Expr::Index(ix) = &*r.expr { if let (Expr::Path(b), Expr::Range(_)) = (&*ix.expr, &*ix.index) { if b.path.is_ident(&n) {
                    let v = self.expr(&r.expr)?;
                    self.bind(&n, Kind::SubSlice);
                    return Ok(format!("let mut {n} = vx_to_vec({v});"));
                } } } } }
                if let Some(it) = self.iter_value(init)? { self.bind(&n, Kind::Iter(Box::new(it))); return Ok(String::new()) }
                let k = match ty.map(|t| self.kind_of_type(t)) { None | Some(Kind::Plain) => self.kind(inner), Some(k) => k };
                let ev = self.f.flags.contains("elem_vec") && k == Kind::Slice && self.kind(inner) == Kind::ElemVec;
                let (k, ty) = if ev { (Kind::ElemVec, None) } else { (k, ty) };
                let v = self.expr(init)?;
                let m = if i.mutability.is_some() || k == Kind::Gen || k == Kind::GenMem { "mut " } else { "" };
                self.bind(&n, k);
                let tt = match ty { Some(t) => self.ty(t).ok().map_or(String::new(), |t| format!(": {t}")), None => match init {
                    // integer literals without a type: usize, unless the contract says otherwise
                    Expr::Lit(ExprLit { lit: Lit::Int(li), .. }) if li.suffix().is_empty() => format!(": {}", self.f.types.iter().find(|(a, _)| *a == format!("let:{n}")).map_or("usize", |(_, b)| b.as_str())),
                    _ => String::new(),
                } };
                if n.starts_with('_') && n != "_" && simple(init) { return Ok(format!("let {n}{tt} = {v};")) }
                Ok(format!("let {m}{n}{tt} = {v};"))
            }
            Pat::Reference(r) => match &*r.pat {
                Pat::Ident(i) => {
                    let v = self.deref_value(init)?;
                    let n = i.ident.to_string();
                    self.bind(&n, Kind::Plain);
                    Ok(format!("let {}{n} = {v};", if i.mutability.is_some() { "mut " } else { "" }))
                }
                _ => self.un("pattern", pat),
            },
            Pat::Tuple(t) => {
                let v = self.expr(init)?;
                let mut o = String::new();
                let tmp = self.tmp("t");
                o.push_str(&format!("let {tmp} = {v};\n"));
                for (i, p) in t.elems.iter().enumerate() {
                    match p {
                        Pat::Wild(_) => {}
                        Pat::Ident(pi) => {
                            let n = pi.ident.to_string();
                            // functions returning tuples here return shapes and strides
                            let k = if let Expr::Tuple(et) = init { self.kind(&et.elems[i]) } else { Kind::Slice };
                            self.bind(&n, k);
                            o.push_str(&format!("let {}{n} = {tmp}.{i};\n", if pi.mutability.is_some() { "mut " } else { "" }));
                        }
                        _ => return self.un("pattern", pat),
                    }
                }
                Ok(o)
            }
            _ => self.un("pattern", pat),
        }
    }

    /// the value behind an expression of reference type
    fn deref_value(&mut self, e: &Expr) -> R<String> {
        match e {
            Expr::Paren(p) => self.deref_value(&p.expr),
            Expr::MethodCall(m) if m.method == "unwrap" => match &*m.receiver {
                Expr::MethodCall(l) if l.method == "last_mut" || l.method == "last" => { let b = self.expr(&l.receiver)?; Ok(format!("{b}[{b}.len() - 1]")) }
                Expr::MethodCall(l) if l.method == "first_mut" || l.method == "first" => { let b = self.expr(&l.receiver)?; Ok(format!("{b}[0]")) }
                _ => Ok(format!("*{}", self.expr(e)?)),
            },
            Expr::MethodCall(m) if m.method == "get_unchecked" || m.method == "get_unchecked_mut" => {
                let (b, i) = (self.expr(&m.receiver)?, self.expr(&m.args[0])?);
                Ok(format!("{b}[{i}]"))
            }
            Expr::Reference(r) => self.expr(&r.expr),
            Expr::Path(p) if p.path.get_ident().is_some() => {
                let n = p.path.get_ident().unwrap().to_string();
                match self.look(&n).cloned() {
                    Some(Kind::Alias(a)) => Ok(a),
                    Some(Kind::Ptr) => Ok(format!("mem.rd({n})")),
                    _ => Ok(format!("*{}", self.expr(e)?)),
                }
            }
            _ if self.kind(e) == Kind::Ptr => Ok(format!("mem.rd({})", self.expr(e)?)),
            _ => Ok(format!("*{}", self.expr(e)?)),
        }
    }

    // ---------- expressions ----------

    fn args(&mut self, a: &punctuated::Punctuated<Expr, Token![,]>) -> R<Vec<String>> { a.iter().map(|x| self.arg(x)).collect() }
    fn arg(&mut self, e: &Expr) -> R<String> {
        // an array literal given as `impl ToVec`: contracts take such parameters as slices
        if let Expr::Closure(c) = e { return self.closure(c) }
        if let Expr::Array(_) = e { return Ok(format!("&{}", self.expr(e)?)) }
        // an item of iter_mut() handed on by reference
        if let Expr::Path(p) = e { if let Some(Kind::Alias(a)) = p.path.get_ident().and_then(|i| self.look(&i.to_string())).cloned() { if a.ends_with(']') && !a.starts_with('&') { return Ok(format!("&mut {a}")) } } }
        if let Expr::Path(_) = e { if self.kind(e) == Kind::SubSlice { return Ok(format!("{}.vx_sl()", self.expr(e)?)) } }
        self.expr(e)
    }

    /// a closure over elements handed to a function under contract; what it computes is stated by the hint `closure K`
    fn closure(&mut self, c: &ExprClosure) -> R<String> {
        let k = self.nclos; self.nclos += 1;
        let h = self.hint(&format!("closure {k}"));
        if h.trim().is_empty() { return self.un("closure", c) }
        self.env.push(HashMap::new());
        let mut ps = vec![];
        for p in &c.inputs { match p { Pat::Ident(pi) if pi.by_ref.is_none() && pi.mutability.is_none() => { let n = pi.ident.to_string(); self.bind(&n, Kind::Plain); ps.push(format!("{n}: E")) } _ => return self.un("closure parameter", c) } }
        let b = self.expr(&c.body)?;
        self.env.pop();
        // parameters in the hint are named vxa, vxb, ..
        let mut h = h.trim().to_string();
        for (i, p) in c.inputs.iter().enumerate() { if let Pat::Ident(pi) = p { h = h.replace(&format!("vx{}", (b'a' + i as u8) as char), &pi.ident.to_string()) } }
        Ok(format!("|{}| {h} {{ {b} }}", ps.join(", ")))
    }

    fn path(&mut self, p: &ExprPath) -> R<String> {
        if let Some(i) = p.path.get_ident() {
            let n = i.to_string();
            if n == "self" { return Ok(self.self_name.clone()) }
            match self.look(&n) { Some(Kind::Alias(a)) => return Ok(a.clone()), Some(Kind::Iter(_)) => return Err(format!("iterator {n} used as a value")), _ => {} }
            if let Some((x, _)) = self.f.calls.get(&format!("={n}")).or(self.db.calls.get(&format!("={n}"))) { return Ok(x.clone()) }
            return Ok(n);
        }
        let q = self.qual(p);
        for k in self.keys(&q) { if let Some((x, _)) = self.f.calls.get(&format!("={k}")).or(self.db.calls.get(&format!("={k}"))) { return Ok(x.clone()) } }
        let s = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>();
        if s.len() == 2 && (s[0] == "NdArrayFlags" || s[0] == "Index" || s[0] == "usize" || s[0] == "isize" || s[0] == "Ordering") { return Ok(s.join("::")) }
        self.un("path", p)
    }

    /// (qualifier, name) of a called path: `<T as Tr>::f` -> (Tr, f), `A::f` -> (A, f)
    fn qual(&self, p: &ExprPath) -> (String, String) {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last().unwrap().clone();
        let q = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
        (q, name)
    }
    fn keys(&self, q: &(String, String)) -> Vec<String> { if q.0.is_empty() { vec![q.1.clone()] } else { vec![format!("{}::{}", q.0, q.1), q.1.clone()] } }

    fn finish_call(&mut self, name: &str, lookup: &str, mut args: Vec<String>, extra: &[String]) -> String {
        args.extend(extra.iter().cloned());
        if self.db.memfns.contains(lookup) && !extra.iter().any(|e| e == "mem") { args.push("mem".into()) }
        if self.db.panicking.contains(lookup) { args.push("Ghost(vx_p)".into()) }
        format!("{name}({})", args.join(", "))
    }

    fn call(&mut self, c: &ExprCall) -> R<String> {
        let p = match &*c.func { Expr::Path(p) => p, Expr::Paren(x) => if let Expr::Path(p) = &*x.expr { p } else { return self.un("call", c) }, _ => return self.un("call", c) };
        let q = self.qual(p);
        // explicit rules first
        for k in self.keys(&q) {
            if let Some((n, extra)) = self.f.calls.get(&k).or(self.db.calls.get(&k)).cloned() {
                if n == "!drop" { self.dropped.push(norm(c)); return Ok("()".into()) }
                if n == "!id" { return self.expr(&c.args[0]) }
                let mut a = self.args(&c.args)?;
                // a vector of elements written out in place
                if q.1 == "from_contiguous_owned_buffer" && self.f.flags.contains("elem_vec") && matches!(&c.args[1], Expr::Macro(m) if !m.mac.tokens.to_string().contains(';')) { a[1] = format!("vx_to_heap({}, mem)", a[1]) }
                let look = n.rsplit(|ch| ch == ':' || ch == '.').next().unwrap().to_string();
                return Ok(self.finish_call(&n, &look, a, &extra));
            }
        }
        let s = norm(&c.func);
        match q.1.as_str() {
            "Some" | "Ok" | "Err" => { let a = self.args(&c.args)?; return Ok(format!("{}({})", q.1, a.join(", "))) }
            "with_capacity" | "new" if q.0 == "Vec" || q.0 == "VecDeque" => {
                // capacity is not observable; evaluate the argument for its own obligations
                if c.args.len() == 1 {
                    let a = self.expr(&c.args[0])?;
                    if self.f.flags.contains("elem_vec") { return Ok(format!("VecE::with_capacity({a}, mem)")) }
                    return Ok(format!("vx_with_capacity({a})"))
                }
                return Ok("Vec::new()".into());
            }
            "from" if q.0 == "Vec" => return self.expr(&c.args[0]),
            "assert_unchecked" => { let a = self.args(&c.args)?; return Ok(format!("vx_assert({})", a.join(", "))) }
            "black_box" | "drop" if q.1 == "black_box" => return self.expr(&c.args[0]),
            _ => {}
        }
        if s == "Self" { return self.un("tuple constructor", c) }
        // a function-valued parameter
        if q.0.is_empty() && self.look(&q.1).is_some() { let a = self.args(&c.args)?; return Ok(format!("{}({})", q.1, a.join(", "))) }
        // `&mut x[a..b]` as an argument: copied out, changed by the callee, and copied back
        if self.db.known.contains(&q.1) && q.0.is_empty() {
            let part = c.args.iter().enumerate().find_map(|(j, a)| match a { Expr::Reference(r) if r.mutability.is_some() => match &*r.expr { Expr::Index(i) => match &*i.index { Expr::Range(g) => Some((j, i.clone(), g.clone())), _ => None }, _ => None }, _ => None });
            if let Some((j, i, g)) = part {
                let b = self.expr(&i.expr)?;
                let lo = match &g.start { Some(e) => self.expr(e)?, None => "0".into() };
                let hi = match (&g.end, &g.limits) { (Some(e), RangeLimits::HalfOpen(_)) => self.expr(e)?, (None, _) => format!("{b}.len()"), _ => return self.un("range", &g) };
                let (t, l, h) = (self.tmp("s"), self.tmp("l"), self.tmp("h"));
                let mut a = vec![];
                for (k, x) in c.args.iter().enumerate() { a.push(if k == j { format!("&mut {t}") } else { self.arg(x)? }) }
                let f = self.finish_call(&q.1, &q.1, a, &[]);
                let target = if self.f.sig.contains(&format!("{b}: &mut ")) { b.clone() } else { format!("&mut {b}") };
                return Ok(format!("{{ let {l} = {lo}; let {h} = {hi}; let mut {t} = vx_to_vec(vx_slice({b}.vx_sl(), {l}, {h})); {f}; vx_copy_into({target}, {l}, {h}, {t}.vx_sl()); }}"));
            }
        }
        if self.db.known.contains(&q.1) && (q.0.is_empty() || q.0 == "Self" || q.0 == "super" || q.0 == "crate") {
            let a = self.args(&c.args)?;
            let name = if q.0 == "Self" { format!("Self::{}", q.1) } else { q.1.clone() };
            return Ok(self.finish_call(&name, &q.1, a, &[]));
        }
        if self.db.known.contains(&q.1) {
            let a = self.args(&c.args)?;
            return Ok(self.finish_call(&format!("{}::{}", q.0, q.1), &q.1, a, &[]));
        }
        self.inline_call(&q.1, None, &c.args, c)
    }

    /// a helper without a contract is replaced by its body
    fn inline_call(&mut self, name: &str, recv: Option<&Expr>, args: &punctuated::Punctuated<Expr, Token![,]>, at: &impl ToTokens) -> R<String> {
        if self.inline.len() >= 3 || self.inline.iter().any(|n| n == name) { return self.un("call without a contract", at) }
        let h = match self.src.sibling(&self.file, &self.sib, name).or(self.src.helper(&self.file, name)) { Some(h) => h, None => return self.un("call without a contract", at) };
        struct Rets(usize);
        impl<'ast> syn::visit::Visit<'ast> for Rets { fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 += 1 } }
        let mut r = Rets(0);
        syn::visit::Visit::visit_block(&mut r, &h.block);
        if r.0 > 0 { return self.un("call of a helper with `return`", at) }
        let mut pre = String::new();
        let mut frame = HashMap::new();
        let mut av: Vec<(String, Kind)> = vec![];
        let mut new_self = self.self_name.clone();
        let mut inputs = h.sig.inputs.iter();
        if let Some(FnArg::Receiver(_)) = h.sig.inputs.first() {
            inputs.next();
            match recv { Some(e) => { if !simple(e) { return self.un("receiver of an inlined helper", at) } new_self = self.expr(e)?; } None => return self.un("call without a contract", at) }
        } else if recv.is_some() { return self.un("call without a contract", at) }
        for e in args { let k = self.kind(e); av.push((self.expr(e)?, k)) }
        let n = self.ninl; self.ninl += 1;
        for (j, (inp, (v, k))) in inputs.zip(av).enumerate() {
            if let FnArg::Typed(pt) = inp { if let Pat::Ident(pi) = &*pt.pat {
                pre.push_str(&format!("let vxp{n}_{j} = {v};\n"));
                let tk = self.kind_of_type(&pt.ty);
                frame.insert(pi.ident.to_string(), if tk == Kind::Plain { k } else { tk });
                continue;
            } }
            return self.un("call without a contract", at);
        }
        let mut j = 0;
        for inp in &h.sig.inputs { if let FnArg::Typed(pt) = inp { if let Pat::Ident(pi) = &*pt.pat {
            pre.push_str(&format!("let {}{} = vxp{n}_{j};\n", if pi.mutability.is_some() { "mut " } else { "" }, pi.ident)); j += 1;
        } } }
        let (old_env, old_self, old_file) = (std::mem::replace(&mut self.env, vec![frame]), std::mem::replace(&mut self.self_name, new_self), std::mem::replace(&mut self.file, h.file.clone()));
        self.inline.push(name.into());
        let b = self.block_inner(&h.block, false);
        self.inline.pop();
        self.env = old_env; self.self_name = old_self; self.file = old_file;
        Ok(format!("({{ {pre}{} }})", b?))
    }

    fn expr(&mut self, e: &Expr) -> R<String> {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Float(x) => x.base10_parse::<f64>().map(|v| format!("vx_flit(0x{:x})", v.to_bits())).map_err(|e| e.to_string()),
                Lit::Int(_) | Lit::Bool(_) | Lit::Char(_) => Ok(l.lit.to_token_stream().to_string()),
                Lit::Byte(b) => Ok(format!("{}u8", b.value())),
                Lit::Str(x) if self.f.flags.contains("slice_args") && x.value().is_ascii() && !x.value().is_empty() => Ok(format!("[{}].vx_sl()", x.value().bytes().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", "))),
                _ => self.un("literal", l),
            },
            Expr::Path(p) => self.path(p),
            Expr::Paren(p) => Ok(format!("({})", self.expr(&p.expr)?)),
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Unsafe(u) => { let b = self.block(&u.block)?; Ok(format!("{{ {b} }}")) }
            Expr::Block(u) => { let b = self.block(&u.block)?; Ok(format!("{{ {b} }}")) }
            Expr::Tuple(t) => { let v: R<Vec<_>> = t.elems.iter().map(|x| self.expr(x)).collect(); let v = v?; Ok(format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" })) }
            Expr::Array(t) => { let v: R<Vec<_>> = t.elems.iter().map(|x| self.expr(x)).collect(); Ok(format!("[{}]{}", v?.join(", "), if self.f.flags.contains("slice_args") { ".vx_sl()" } else { "" })) }
            Expr::Repeat(r) => { let a = self.expr(&r.expr)?; let n = self.expr(&r.len)?; Ok(format!("[{a}; {n}]")) }
            Expr::Cast(c) => {
                let v = self.expr(&c.expr)?;
                if let Type::Ptr(_) = &*c.ty { return Ok(v) }
                Ok(format!("({v} as {})", self.ty(&c.ty)?))
            }
            Expr::Reference(r) => {
                // array[[i, j, ..]]: the Index and IndexMut impls
                if let Expr::Index(i) = &*r.expr { if let Expr::Array(_) = &*i.index {
                    let b = self.expr(&i.expr)?; let ix = self.expr(&i.index)?;
                    let n = if r.mutability.is_some() { "index_mut_d" } else { "index_d" };
                    return Ok(format!("{b}.{}", self.finish_call(n, n, vec![ix], &[])));
                } }
                if let Expr::Index(i) = &*r.expr { if let Expr::Range(_) = &*i.index { if r.mutability.is_none() { return self.expr(&r.expr) } } }
                if r.mutability.is_none() {
                    if let Expr::MethodCall(m) = &*r.expr { if m.method == "shape" || m.method == "stride" { return self.expr(&r.expr) } }
                    if self.kind(&r.expr) == Kind::Ptr { return self.expr(&r.expr) }
                }
                Ok(format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, self.expr(&r.expr)?))
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => self.deref_value(&u.expr),
                UnOp::Not(_) => Ok(format!("!({})", self.expr(&u.expr)?)),
                UnOp::Neg(_) => {
                    let v = self.expr(&u.expr)?;
                    if let Some((n, extra)) = self.f.calls.get("op-1").cloned() { let n = n.trim_start_matches('&').to_string(); return Ok(self.finish_call(&n, &n, vec![v], &extra)) }
                    if self.f.flags.contains("elem_neg") { return Ok(format!("vx_neg({v})")) }
                    Ok(format!("(-({v}))"))
                }
                _ => self.un("operator", u),
            },
            Expr::Binary(b) => self.binary(b),
            Expr::Assign(a) => self.assign(&a.left, &a.right),
            Expr::Field(f) => Ok(format!("{}.{}", self.expr(&f.base)?, f.member.to_token_stream())),
            Expr::Index(i) => {
                if let Expr::Range(r) = &*i.index { return self.range_index(&i.expr, r) }
                let b = self.expr(&i.expr)?;
                let ix = self.expr(&i.index)?;
                if self.f.flags.contains("index") { return Ok(format!("{b}[vx_ck({ix}, {b}.len(), Ghost(vx_p))]")) }
                Ok(format!("{b}[{ix}]"))
            }
            Expr::If(i) => self.if_(i),
            Expr::Match(m) => self.match_(m),
            Expr::Return(r) => {
                if !self.inline.is_empty() { return self.un("return in an inlined helper", r) }
                let k = self.nret; self.nret += 1;
                let h = self.hint(&format!("return {k}"));
                let h = if h.is_empty() { self.hint("returns") } else { h };
                match &r.expr {
                    None => Ok(format!("{{ {h} return; }}")),
                    Some(e) => { let v = self.expr(e)?; if h.trim().is_empty() { Ok(format!("return {v}")) } else { Ok(format!("{{ let vx_ret = {v};\n{h}\nreturn vx_ret; }}")) } }
                }
            }
            Expr::Break(b) if b.expr.is_none() && b.label.is_none() => { let h = self.hint(&format!("break {}", self.loop_vars.last().cloned().unwrap_or_default())); if h.is_empty() { Ok("break".into()) } else { Ok(format!("{{ {h} break; }}")) } }
            Expr::Continue(c) if c.label.is_none() => Ok("continue".into()),
            Expr::MethodCall(m) => self.method(m),
            Expr::Call(c) => self.call(c),
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                if s.rest.is_some() { return self.un("struct update", s) }
                let mut o = vec![];
                for f in &s.fields {
                    let m = f.member.to_token_stream().to_string();
                    if m == "_marker" { continue }
                    o.push(format!("{m}: {}", self.expr(&f.expr)?));
                }
                let n = self.f.types.iter().find(|(a, _)| *a == n).map(|(_, b)| b.clone()).unwrap_or(n);
                Ok(format!("{n} {{ {} }}", o.join(", ")))
            }
            Expr::While(w) => self.while_(w),
            Expr::ForLoop(l) => self.for_(l),
            Expr::Loop(l) => {
                if l.label.is_some() { return self.un("label", l) }
                let k = self.nloop; self.nloop += 1;
                self.loop_vars.push(k.to_string());
                let b = self.block(&l.body)?;
                self.loop_vars.pop();
                Ok(format!("{}\nloop\n{}\n{{\n{}\n{b};\n{}\n}}\n{}", self.hint(&format!("loop {k} before")), self.hint(&format!("loop {k}")), self.hint(&format!("loop {k} start")), self.hint(&format!("loop {k} end")), self.hint(&format!("loop {k} after"))))
            }
            _ => self.un("expression", e),
        }
    }

    fn range_index(&mut self, base: &Expr, r: &ExprRange) -> R<String> {
        let b = self.expr(base)?;
        let lo = match &r.start { Some(e) => self.expr(e)?, None => "0".into() };
        let hi = match (&r.end, &r.limits) { (Some(e), RangeLimits::HalfOpen(_)) => self.expr(e)?, (Some(e), _) => format!("{} + 1", self.expr(e)?), (None, _) => format!("{b}.len()") };
        Ok(format!("vx_slice({b}.vx_sl(), {lo}, {hi})"))
    }

    fn assign(&mut self, l: &Expr, r: &Expr) -> R<String> {
        match l {
            Expr::Tuple(t) => {
                let v = self.expr(r)?;
                let tmp = self.tmp("t");
                let mut o = format!("{{ let {tmp} = {v};\n");
                for (i, x) in t.elems.iter().enumerate() { o.push_str(&format!("{} = {tmp}.{i};\n", self.expr(x)?)); }
                Ok(o + "}")
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if self.kind(&u.expr) == Kind::Ptr { let v = self.expr(r)?; let p = self.expr(&u.expr)?; return Ok(format!("mem.wr({p}, {v})")) }
                let v = self.expr(r)?;
                Ok(format!("{} = {v}", self.deref_value(&u.expr)?))
            }
            Expr::Path(_) | Expr::Field(_) => { let v = self.expr(r)?; Ok(format!("{} = {v}", self.expr(l)?)) }
            Expr::Index(i) if self.f.flags.contains("index") && !matches!(*i.index, Expr::Range(_)) => {
                let (w, t) = (self.tmp("w"), self.tmp("i"));
                let v = self.expr(r)?; let (b, ix) = (self.expr(&i.expr)?, self.expr(&i.index)?);
                Ok(format!("{{ let {w} = {v}; let {t} = vx_ck({ix}, {b}.len(), Ghost(vx_p)); {b}[{t}] = {w}; }}"))
            }
            Expr::Index(_) => { let v = self.expr(r)?; let p = self.expr(l)?; Ok(format!("{p} = {v}")) }
            Expr::Infer(_) => { let v = self.expr(r)?; Ok(format!("let _ = {v}")) }
            _ => self.un("assignment", l),
        }
    }

    fn op(&self, a: &str, op: &str, b: &str) -> String {
        if self.f.flags.contains("arith") && !a.contains("NdArrayFlags") && !b.contains("NdArrayFlags") {
            match op { "+" => return format!("vx_ck_add({a}, {b}, Ghost(vx_p))"), "-" => return format!("vx_ck_sub({a}, {b}, Ghost(vx_p))"), "*" => return format!("vx_ck_mul({a}, {b}, Ghost(vx_p))"), _ => {} }
        }
        format!("({a} {op} {b})")
    }

    /// the operator of a compound assignment
    fn cop(&mut self, a: &str, op: &str, b: &str) -> String {
        if let Some((n, extra)) = self.f.calls.get(&format!("op{op}")).cloned() { return self.finish_call(&n, &n, vec![a.into(), b.into()], &extra) }
        self.op(a, op, b)
    }

    fn binary(&mut self, b: &ExprBinary) -> R<String> {
        let o = b.op.to_token_stream().to_string();
        // operators on arrays: a rule `opX => &f` calls f with the operands as they are
        if let Some((n, extra)) = self.f.calls.get(&format!("op{o}")).cloned() { if let Some(n) = n.strip_prefix('&') {
            let l = match &*b.left { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.expr(&u.expr)?, x => self.expr(x)? };
            let r = self.expr(&b.right)?;
            return Ok(self.finish_call(n, n, vec![l, r], &extra));
        } }
        if o.len() >= 2 && o.ends_with('=') && !matches!(o.as_str(), "==" | "<=" | ">=" | "!=") {
            let op = &o[..o.len() - 1];
            let v = self.value_operand(&b.right)?;
            if let Expr::Unary(u) = &*b.left { if matches!(u.op, UnOp::Deref(_)) {
                if self.kind(&u.expr) == Kind::Ptr {
                    let p = self.expr(&u.expr)?;
                    let (q, w) = (self.tmp("q"), self.tmp("w"));
                    return Ok(format!("{{ let {w} = {v}; let {q} = {p}; mem.wr({q}, {}); }}", self.cop(&format!("mem.rd({q})"), op, &w)));
                }
                let l = self.deref_value(&u.expr)?;
                return Ok(format!("{l} = {}", self.cop(&l, op, &v)));
            } }
            if !simple(&b.left) { return self.un("compound assignment", b) }
            if let Expr::Index(i) = &*b.left { if self.f.flags.contains("index") {
                let (w, t) = (self.tmp("w"), self.tmp("i"));
                let (a, ix) = (self.expr(&i.expr)?, self.expr(&i.index)?);
                return Ok(format!("{{ let {w} = {v}; let {t} = vx_ck({ix}, {a}.len(), Ghost(vx_p)); {a}[{t}] = {}; }}", self.cop(&format!("{a}[{t}]"), op, &w)));
            } }
            let l = self.expr(&b.left)?;
            return Ok(format!("{l} = {}", self.cop(&l, op, &v)));
        }
        if o == "==" || o == "!=" {
            let neg = if o == "!=" { "!" } else { "" };
            // a.partial_cmp(&b) == Some(Ordering::X)
            if let (Expr::MethodCall(m), Expr::Call(c)) = (&*b.left, &*b.right) { if m.method == "partial_cmp" {
                let x = self.expr(&m.receiver)?; let y = self.deref_value(&m.args[0])?;
                let s = norm(c);
                let f = if s.contains("Less") { "vx_is_less" } else if s.contains("Greater") { "vx_is_greater" } else if s.contains("Equal") { "vx_is_equal" } else { return self.un("ordering", c) };
                return Ok(format!("{neg}{f}({x}, {y})"));
            } }
            let is_seq = |k: Kind| k == Kind::Slice;
            if is_seq(self.kind(&b.left)) || is_seq(self.kind(&b.right)) {
                let (x, y) = (self.expr(&b.left)?, self.expr(&b.right)?);
                return Ok(format!("{neg}vx_eq({x}.vx_sl(), {y}.vx_sl())"));
            }
            if let Expr::MethodCall(m) = &*b.right { if m.method == "product" { let (x, y) = (self.expr(&b.left)?, self.expr(&b.right)?); return Ok(format!("({x} {o} {y})")) } }
        }
        let (x, y) = (self.value_operand(&b.left)?, self.value_operand(&b.right)?);
        if let Some((n, extra)) = self.f.calls.get(&format!("op{o}")).cloned() { return Ok(self.finish_call(&n, &n, vec![x, y], &extra)) }
        Ok(self.op(&x, &o, &y))
    }

    /// operands of arithmetic may be references (`&usize`): take the value
    fn value_operand(&mut self, e: &Expr) -> R<String> {
        match e {
            Expr::MethodCall(m) if m.method == "get_unchecked" => self.deref_value(e),
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "start" | "end") && m.args.is_empty() => Ok(format!("*{}", self.expr(e)?)),
            Expr::Reference(r) if r.mutability.is_none() => self.expr(&r.expr),
            _ => self.expr(e),
        }
    }

    fn cond(&mut self, e: &Expr) -> R<String> {
        if let Expr::Let(l) = e {
            let p = self.pat(&l.pat)?;
            let v = self.expr(&l.expr)?;
            return Ok(format!("let {p} = {v}"));
        }
        self.expr(e)
    }

    fn if_(&mut self, i: &ExprIf) -> R<String> {
        self.env.push(HashMap::new());
        let c = self.cond(&i.cond)?;
        let t = self.block(&i.then_branch)?;
        self.env.pop();
        let mut o = format!("if {c} {{\n{t}}}");
        if let Some((_, e)) = &i.else_branch {
            o.push_str(" else ");
            match &**e { Expr::If(j) => o.push_str(&self.if_(j)?), Expr::Block(b) => o.push_str(&format!("{{\n{}}}", self.block(&b.block)?)), x => return self.un("else", x) }
        }
        Ok(o)
    }

    fn pat(&mut self, p: &Pat) -> R<String> {
        Ok(match p {
            Pat::Wild(_) => "_".into(),
            Pat::Lit(l) => l.to_token_stream().to_string(),
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                let n = i.ident.to_string();
                if n != "None" { self.bind(&n, Kind::Plain); }
                format!("{}{n}", if i.mutability.is_some() { "mut " } else { "" })
            }
            Pat::Path(p) => { let e: ExprPath = p.clone(); self.path(&e)? }
            Pat::TupleStruct(t) => {
                let n = norm(&t.path);
                let v: R<Vec<_>> = t.elems.iter().map(|x| self.pat(x)).collect();
                format!("{n}({})", v?.join(", "))
            }
            Pat::Tuple(t) => { let v: R<Vec<_>> = t.elems.iter().map(|x| self.pat(x)).collect(); format!("({})", v?.join(", ")) }
            Pat::Or(o) => { let v: R<Vec<_>> = o.cases.iter().map(|x| self.pat(x)).collect(); v?.join(" | ") }
            _ => return self.un("pattern", p),
        })
    }

    fn match_(&mut self, m: &ExprMatch) -> R<String> {
        let v = self.expr(&m.expr)?;
        let mut o = format!("match {v} {{\n");
        for a in &m.arms {
            self.env.push(HashMap::new());
            let p = self.pat(&a.pat)?;
            let g = match &a.guard { Some((_, g)) => format!(" if {}", self.expr(g)?), None => String::new() };
            let b = self.expr(&a.body)?;
            self.env.pop();
            o.push_str(&format!("{p}{g} => {{ {b} }}\n"));
        }
        Ok(o + "}")
    }

    fn mac(&mut self, m: &Macro) -> R<String> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if let Some((x, _)) = self.f.calls.get(&format!("{n}!")).or(self.db.calls.get(&format!("{n}!"))).cloned() {
            let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| format!("{n}!: {e}"))?;
            let a = self.args(&args)?;
            return Ok(self.finish_call(&x, &x, a, &[]));
        }
        let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| format!("{n}!: {e}"));
        match n.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => Ok("vx_panic(Ghost(vx_p))".into()),
            "assert" | "debug_assert" => { let a = args()?; let c = self.expr(&a[0])?; Ok(format!("if !({c}) {{ vx_panic::<()>(Ghost(vx_p)); }}")) }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let a = args()?;
                let op = if n.contains("ne") { "!=" } else { "==" };
                let e: Expr = syn::parse_str(&format!("({}) {op} ({})", a[0].to_token_stream(), a[1].to_token_stream())).map_err(|e| e.to_string())?;
                let c = self.expr(&e)?;
                Ok(format!("if !({c}) {{ vx_panic::<()>(Ghost(vx_p)); }}"))
            }
            "eprintln" | "println" | "print" | "eprint" => { self.dropped.push(n); Ok("()".into()) }
            "vec" => {
                let s = m.tokens.to_string();
                if s.trim().is_empty() { return Ok("Vec::new()".into()) }
                if let Ok(e) = syn::parse_str::<Expr>(&format!("[{s}]")) {
                    match e {
                        Expr::Repeat(r) => { let a = self.expr(&r.expr)?; let n = self.expr(&r.len)?; if self.f.flags.contains("elem_vec") { return Ok(format!("VecE::filled({a}, {n}, mem)")) } return Ok(format!("vx_vec_of({a}, {n})")) }
                        Expr::Array(t) => { let v: R<Vec<_>> = t.elems.iter().map(|x| self.expr(x)).collect(); return Ok(format!("vec![{}]", v?.join(", "))) }
                        _ => {}
                    }
                }
                Err(format!("vec![{s}]"))
            }
            "matches" => {
                let s = m.tokens.to_string();
                let (e, p) = s.split_once(',').ok_or("matches!")?;
                let e: Expr = syn::parse_str(e).map_err(|e| e.to_string())?;
                let mm: ExprMatch = syn::parse_str(&format!("match x {{ {p} => true, _ => false }}")).map_err(|e| e.to_string())?;
                self.env.push(HashMap::new());
                let p = self.pat(&mm.arms[0].pat)?;
                self.env.pop();
                let e = self.expr(&e)?;
                Ok(format!("(match {e} {{ {p} => true, _ => false }})"))
            }
            "addr_of" | "addr_of_mut" => { let a = args()?; let v = self.expr(&a[0])?; Ok(format!("mem.addr_of({v})")) }
            _ => self.un("macro", m),
        }
    }

    fn method(&mut self, m: &ExprMethodCall) -> R<String> {
        let n = m.method.to_string();
        let nargs = m.args.len();
        // rules
        let key = format!(".{n}");
        if let Some((x, extra)) = self.f.calls.get(&key).or(self.db.calls.get(&key)).cloned() {
            if x == "!id" { return self.expr(&m.receiver) }
            if x == "!drop" { self.dropped.push(norm(m)); return Ok("()".into()) }
            let r = self.expr(&m.receiver)?;
            let mut a = self.args(&m.args)?;
            if let Some(free) = x.strip_prefix('@') { a.insert(0, r); let look = free.to_string(); return Ok(self.finish_call(free, &look, a, &extra)) }
            let look = x.clone();
            let c = self.finish_call(&x, &look, a, &extra);
            return Ok(format!("{r}.{c}"));
        }
        // iterator sinks
        if matches!(n.as_str(), "sum" | "product" | "all" | "any" | "collect" | "unzip" | "count" | "position") {
            if let Some(t) = self.sink(m)? { return Ok(t) }
        }
        match (n.as_str(), nargs) {
            ("unwrap_or", 1) => if let Expr::MethodCall(c) = &*m.receiver { if c.method == "copied" || c.method == "cloned" { if let Expr::MethodCall(l) = &*c.receiver { if l.method == "last" || l.method == "first" {
                let b = self.expr(&l.receiver)?; let d = self.expr(&m.args[0])?;
                return Ok(format!("vx_{}_or({b}.vx_sl(), {d})", l.method));
            } } } },
            ("map", 1) => if let Expr::Closure(c) = &m.args[0] { if c.inputs.len() == 1 { if let Pat::Ident(pi) = &c.inputs[0] {
                // Option::map
                let r = self.expr(&m.receiver)?;
                let n = pi.ident.to_string();
                self.env.push(HashMap::new());
                let k = if self.f.types.iter().any(|(a, b)| *a == format!("closure:{n}") && b == "Ptr") { Kind::Ptr } else { Kind::Plain };
                self.bind(&n, k);
                let b = self.expr(&c.body);
                self.env.pop();
                return Ok(format!("(match {r} {{ None => None, Some({n}) => Some({}) }})", b?));
            } } },
            ("concat", 0) if matches!(&*m.receiver, Expr::Array(_)) => {
                let parts = match &*m.receiver { Expr::Array(a) => a.elems.clone(), _ => unreachable!() };
                let t = self.tmp("c");
                let mut o = format!("{{ let mut {t} = Vec::new(); ");
                for p in parts.iter() { let v = self.expr(p)?; o.push_str(&format!("vx_extend(&mut {t}, {v}.vx_sl()); ")) }
                return Ok(format!("{o}{t} }}"));
            }
            ("to_vec", 0) => { let r = self.expr(&m.receiver)?; return Ok(format!("vx_to_vec({r}.vx_sl())")) }
            ("clone", 0) if self.kind(&m.receiver) == Kind::Slice => { let r = self.expr(&m.receiver)?; return Ok(format!("vx_to_vec({r}.vx_sl())")) }
            ("is_empty", 0) => { let r = self.expr(&m.receiver)?; return Ok(format!("({r}.len() == 0)")) }
            ("expect", 1) | ("unwrap", 0) if self.f.panics.is_some() => { let r = self.expr(&m.receiver)?; return Ok(format!("vx_unwrap({r}, Ghost(vx_p))")) }
            ("unwrap_unchecked", 0) | ("expect", 1) | ("unwrap", 0) => { let r = self.expr(&m.receiver)?; return Ok(format!("{r}.unwrap()")) }
            ("get_unchecked", 1) | ("get_unchecked_mut", 1) => return self.deref_value(&Expr::MethodCall(m.clone())),
            ("swap", 2) => {
                let r = self.expr(&m.receiver)?; let a = self.args(&m.args)?;
                let f = if self.kind(&m.receiver) == Kind::PtrArr { "vx_swap_arr" } else { "vx_swap" };
                return Ok(format!("{f}(&mut {r}, {}, {})", a[0], a[1]));
            }
            ("resize", 2) => { let r = self.expr(&m.receiver)?; let a = self.args(&m.args)?; return Ok(format!("vx_resize(&mut {r}, {}, {})", a[0], a[1])) }
            ("extend", 1) | ("extend_from_slice", 1) => { let r = self.expr(&m.receiver)?; let a = self.args(&m.args)?; return Ok(format!("vx_extend(&mut {r}, {}.vx_sl())", a[0])) }
            ("push_front", 1) => { let r = self.expr(&m.receiver)?; let a = self.args(&m.args)?; return Ok(format!("{r}.insert(0, {})", a[0])) }
            ("push_back", 1) => { let r = self.expr(&m.receiver)?; let a = self.args(&m.args)?; return Ok(format!("{r}.push({})", a[0])) }
            ("contains", 1) if matches!(&m.args[0], Expr::Reference(_)) => { let r = self.expr(&m.receiver)?; let a = self.deref_value(&m.args[0])?; return Ok(format!("vx_contains({r}.vx_sl(), {a})")) }
            ("copy_from_slice", 1) => if let Expr::Index(i) = &*m.receiver { if let Expr::Range(r) = &*i.index {
                let b = self.expr(&i.expr)?;
                let lo = match &r.start { Some(e) => self.expr(e)?, None => "0".into() };
                let hi = match (&r.end, &r.limits) { (Some(e), RangeLimits::HalfOpen(_)) => self.expr(e)?, (None, _) => format!("{b}.len()"), _ => return self.un("range", r) };
                let a = self.expr(&m.args[0])?;
                return Ok(format!("vx_copy_into(&mut {b}, {lo}, {hi}, {a}.vx_sl())"));
            } },
            ("min", 1) | ("max", 1) => { let r = self.expr(&m.receiver)?; let a = self.args(&m.args)?; return Ok(format!("vx_{n}({r}, {})", a[0])) }
            ("read", 0) if self.kind(&m.receiver) == Kind::Ptr => { let r = self.expr(&m.receiver)?; return Ok(format!("mem.rd({r})")) }
            ("as_ref", 0) | ("as_mut", 0) | ("as_ptr", 0) if self.kind(&m.receiver) == Kind::Ptr => return self.expr(&m.receiver),
            ("mul_add", 2) => { let r = self.expr(&m.receiver)?; let a = self.args(&m.args)?; return Ok(format!("vx_mul_add({r}, {}, {})", a[0], a[1])) }
            ("add", 1) | ("offset", 1) if self.kind(&m.receiver) == Kind::Ptr => { let r = self.expr(&m.receiver)?; let a = self.args(&m.args)?; return Ok(format!("{r}.{n}({})", a[0])) }
            ("wrapping_add", 1) | ("wrapping_sub", 1) | ("wrapping_mul", 1) | ("saturating_sub", 1) | ("saturating_add", 1) if self.kind(&m.receiver) == Kind::Plain && !self.db.known.contains(&n) => { let r = self.expr(&m.receiver)?; let a = self.args(&m.args)?; return Ok(format!("({r}).{n}({})", a[0])) }
            ("len", 0) | ("push", 1) | ("pop", 0) | ("insert", 2) | ("remove", 1) | ("contains", 1) | ("next", 0) | ("is_some", 0) | ("is_none", 0) | ("start", 0) | ("end", 0) | ("clear", 0) | ("truncate", 1) => {
                let r = self.expr(&m.receiver)?;
                let a = self.args(&m.args)?;
                if n == "next" { if let Expr::Path(p) = &*m.receiver { if let Some(Kind::GenMem) = p.path.get_ident().and_then(|i| self.look(&i.to_string())) { return Ok(format!("{r}.next(mem)")) } } }
                if n == "insert" && a[1].contains(&format!("{r}[")) {
                    // two-phase borrow: the value is computed before the vector is changed
                    let t = self.tmp("v");
                    return Ok(format!("{{ let {t} = {}; {r}.insert({}, {t}); }}", a[1], a[0]));
                }
                return Ok(format!("{r}.{n}({})", a.join(", ")));
            }
            _ => {}
        }
        if self.db.known.contains(&n) {
            let r = self.expr(&m.receiver)?;
            let mut a = self.args(&m.args)?;
            // a vector handed to an `impl ToVec` parameter, which contracts take as a slice
            if self.db.slicefns.contains(&n) { if let Some(Expr::Path(p)) = m.args.first() { if p.path.get_ident().and_then(|i| self.look(&i.to_string())).map_or(false, |k| *k == Kind::Slice) { a[0] = format!("{}.vx_sl()", a[0]) } } }
            let c = self.finish_call(&n, &n, a, &[]);
            return Ok(format!("{r}.{c}"));
        }
        self.inline_call(&n, Some(&m.receiver), &m.args, m)
    }

    // ---------- loops ----------

    fn while_(&mut self, w: &ExprWhile) -> R<String> {
        if w.label.is_some() { return self.un("label", w) }
        let k = self.nloop; self.nloop += 1;
        if let Expr::Let(_) = &*w.cond { return self.un("while let", &w.cond) }
        let c = self.expr(&w.cond)?;
        self.loop_vars.push(k.to_string());
        let b = self.block(&w.body)?;
        self.loop_vars.pop();
        Ok(format!("{}\nwhile {c}\n{}\n{{\n{}\n{b};\n{}\n}}\n{}", self.hint(&format!("loop {k} before")), self.hint(&format!("loop {k}")), self.hint(&format!("loop {k} start")), self.hint(&format!("loop {k} end")), self.hint(&format!("loop {k} after"))))
    }

    fn for_(&mut self, l: &ExprForLoop) -> R<String> {
        if l.label.is_some() { return self.un("label", l) }
        let k = self.nloop; self.nloop += 1;
        let it = match self.iter(&l.expr)? { Some(i) => i, None => return self.un("iterator", &l.expr) };
        self.env.push(HashMap::new());
        let r = (|| {
            let (pre, head, binds, post) = self.loop_frame(k, &it, Some(&l.pat))?;
            self.loop_vars.push(k.to_string());
            let b = self.block(&l.body)?;
            self.loop_vars.pop();
            Ok(format!("{pre}\n{}\n{head}\n{{\n{binds}\n{}\n{b};\n{}\n{post}}}\n{}", self.hint(&format!("loop {k} before")), self.hint(&format!("loop {k} start")), self.hint(&format!("loop {k} end")), self.hint(&format!("loop {k} after"))))
        })();
        self.env.pop();
        r
    }

    /// (statements before, loop head with invariants, bindings at the start of the body, statements at its end)
    fn loop_frame(&mut self, k: usize, it: &It, pat: Option<&Pat>) -> R<(String, String, String, String)> {
        let spec = self.hint(&format!("loop {k}"));
        let with_auto = |auto: &str, dec: &str| -> String {
            let mut s = spec.clone();
            if let Some(p) = s.find("invariant") {
                let e = p + if s[p..].starts_with("invariant_except_break") { "invariant_except_break".len() } else { "invariant".len() };
                s.insert_str(e, &format!(" {auto},"));
            } else { s = format!("invariant {auto},\n{s}") }
            if !s.contains("decreases") { s.push_str(&format!("\n decreases {dec}")) }
            s
        };
        if let Some(()) = has_gen(it) {
            let mut pre = self.hint(&format!("loop {k} pre"));
            let mut binds = String::new();
            pre.push_str(&format!("let mut vxn{k}: usize = 0;\n"));
            let needs_idx = has_pos(it);
            self.gen_bind(k, it, pat, &mut pre, &mut binds, &mut 0)?;
            if needs_idx { binds.push_str(&format!("vxn{k} = vxn{k} + 1;\n")) } else { pre = pre.replacen(&format!("let mut vxn{k}: usize = 0;\n"), "", 1) }
            return Ok((pre, format!("loop\n{spec}"), binds, String::new()));
        }
        match it {
            // 8-bit counters: the bound 127 + 1 (255 + 1) is beyond the type, so the counter is widened and cast back
            It::Range(lo, hi) if lo.ends_with("i8") || lo.ends_with("u8") => {
                let ty = if lo.ends_with("i8") { "i8" } else { "u8" };
                let pre = format!("let vxs{k}: i32 = {lo} as i32; let vxe{k}: i32 = {hi}; let mut vxc{k}: i32 = vxs{k};");
                let head = format!("while vxc{k} < vxe{k}\n{}", with_auto(&format!("vxs{k} <= vxc{k}, vxc{k} <= vxe{k} || vxc{k} == vxs{k}"), &format!("vxe{k} - vxc{k}")));
                let b = self.bind_pat(pat, &format!("vxc{k} as {ty}"), false)?;
                Ok((pre, head, format!("{b}vxc{k} = vxc{k} + 1;"), String::new()))
            }
            It::Range(lo, hi) => {
                let pre = format!("let vxs{k} = {lo}; let vxe{k} = {hi}; let mut vxc{k} = vxs{k};");
                let head = format!("while vxc{k} < vxe{k}\n{}", with_auto(&format!("vxs{k} <= vxc{k}, vxc{k} <= vxe{k} || vxc{k} == vxs{k}"), &format!("vxe{k} - vxc{k}")));
                let b = self.bind_pat(pat, &format!("vxc{k}"), false)?;
                Ok((pre, head, format!("{b}vxc{k} = vxc{k} + 1;"), String::new()))
            }
            It::Rev(r) if matches!(**r, It::Range(..)) => {
                let (lo, hi) = match &**r { It::Range(a, b) => (a, b), _ => unreachable!() };
                let pre = format!("let vxs{k} = {lo}; let vxe{k} = {hi}; let mut vxc{k} = vxe{k};");
                let head = format!("while vxc{k} > vxs{k}\n{}", with_auto(&format!("vxc{k} <= vxe{k}, vxs{k} <= vxc{k} || vxc{k} == vxe{k}"), &format!("vxc{k} - vxs{k}")));
                let b = self.bind_pat(pat, &format!("vxc{k}"), false)?;
                Ok((pre, head, format!("vxc{k} = vxc{k} - 1;\n{b}"), String::new()))
            }
            _ => {
                let n = self.len_of(it);
                let pre = format!("let vxe{k}: usize = {n}; let mut vxc{k}: usize = 0;");
                let head = format!("while vxc{k} < vxe{k}\n{}", with_auto(&format!("vxc{k} <= vxe{k}"), &format!("vxe{k} - vxc{k}")));
                let mut b = format!("let vxi{k} = vxc{k};\n");
                self.bind_at(it, pat, &format!("vxi{k}"), &mut b)?;
                Ok((pre, head, format!("{b}vxc{k} = vxc{k} + 1;"), String::new()))
            }
        }
    }

    fn bind_pat(&mut self, pat: Option<&Pat>, v: &str, _by_ref: bool) -> R<String> {
        match pat {
            None | Some(Pat::Wild(_)) => Ok(String::new()),
            Some(Pat::Ident(i)) => { let n = i.ident.to_string(); self.bind(&n, Kind::Plain); Ok(format!("let {}{n} = {v};\n", if i.mutability.is_some() { "mut " } else { "" })) }
            Some(Pat::Type(t)) => self.bind_pat(Some(&t.pat), v, _by_ref),
            Some(p) => self.un("loop pattern", p),
        }
    }

    fn len_of(&self, it: &It) -> String {
        match it {
            It::Range(a, b) => if a == "0" || a == "0usize" { b.clone() } else { format!("vx_sat_sub({b}, {a})") },
            It::Slice { base, .. } | It::Cells { base, .. } => format!("{base}.len()"),
            It::Rev(i) | It::Enumerate(i) | It::Copied(i) => self.len_of(i),
            It::Zip(a, b) => format!("vx_min({}, {})", self.len_of(a), self.len_of(b)),
            It::Skip(i, n) => format!("vx_sat_sub({}, {n})", self.len_of(i)),
            It::Take(i, n) => format!("vx_min({}, {n})", self.len_of(i)),
            It::Gen(..) => unreachable!(),
        }
    }

    fn bind_at(&mut self, it: &It, pat: Option<&Pat>, idx: &str, o: &mut String) -> R<()> {
        let pat = match pat { None => return Ok(()), Some(Pat::Wild(_)) => return Ok(()), Some(Pat::Paren(p)) => &*p.pat, Some(p) => p };
        match it {
            It::Range(a, _) => { let v = if a == "0" { idx.to_string() } else { format!("({a} + {idx})") }; o.push_str(&self.bind_pat(Some(pat), &v, false)?); Ok(()) }
            It::Slice { base, mutable, by_value, ptr } => {
                match pat {
                    Pat::Reference(r) => match &*r.pat {
                        Pat::Ident(i) => { let n = i.ident.to_string(); self.bind(&n, if *ptr { Kind::Ptr } else { Kind::Plain }); o.push_str(&format!("let {}{n} = {base}[{idx}];\n", if i.mutability.is_some() { "mut " } else { "" })) }
                        Pat::Wild(_) => {}
                        p => return self.un("pattern", p),
                    },
                    Pat::Ident(i) => {
                        let n = i.ident.to_string();
                        if *mutable {
                            let t = self.tmp("i");
                            o.push_str(&format!("let {t} = {idx};\n"));
                            self.bind(&n, Kind::Alias(format!("{base}[{t}]")));
                        } else if *by_value && self.f.flags.contains("owned_items") { self.bind(&n, Kind::Plain); o.push_str(&format!("let {n} = vx_take(&{base}, {idx});\n")) }
                        else if *by_value || *ptr { self.bind(&n, if *ptr { Kind::Ptr } else { Kind::Plain }); o.push_str(&format!("let {n} = {base}[{idx}];\n")) }
                        else { self.bind(&n, Kind::Plain); o.push_str(&format!("let {n} = &{base}[{idx}];\n")) }
                    }
                    p => return self.un("pattern", p),
                }
                Ok(())
            }
            It::Cells { base, mutable } => match pat {
                Pat::Ident(i) if *mutable => { let n = i.ident.to_string(); self.bind(&n, Kind::Ptr); o.push_str(&format!("let {n} = {base}.as_mut_ptr().add({idx});\n")); Ok(()) }
                Pat::Reference(r) if !*mutable => match &*r.pat {
                    Pat::Ident(i) => { let n = i.ident.to_string(); self.bind(&n, Kind::Plain); o.push_str(&format!("let {n} = mem.rd({base}.as_mut_ptr().add({idx}));\n")); Ok(()) }
                    p => self.un("pattern", p),
                },
                p => self.un("pattern", p),
            },
            It::Copied(i) => match (&**i, pat) {
                (It::Slice { base, ptr, .. }, _) => { let s = It::Slice { base: base.clone(), mutable: false, by_value: true, ptr: *ptr }; self.bind_at(&s, Some(pat), idx, o) }
                (inner, _) => { let inner = inner.clone(); self.bind_at(&inner, Some(pat), idx, o) }
            },
            It::Rev(i) => { let n = self.len_of(i); self.bind_at(i, Some(pat), &format!("({n} - 1 - {idx})"), o) }
            It::Skip(i, n) => self.bind_at(i, Some(pat), &format!("({idx} + {n})"), o),
            It::Take(i, _) => self.bind_at(i, Some(pat), idx, o),
            It::Enumerate(i) => match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => { o.push_str(&self.bind_pat(Some(&t.elems[0]), idx, false)?); self.bind_at(i, Some(&t.elems[1]), idx, o) }
                p => self.un("pattern", p),
            },
            It::Zip(a, b) => match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => { self.bind_at(a, Some(&t.elems[0]), idx, o)?; self.bind_at(b, Some(&t.elems[1]), idx, o) }
                Pat::Reference(r) => { let p = (*r.pat).clone(); self.bind_at(it, Some(&p), idx, o) }
                p => self.un("pattern", p),
            },
            It::Gen(..) => Err("generator".into()),
        }
    }

    fn gen_bind(&mut self, k: usize, it: &It, pat: Option<&Pat>, pre: &mut String, o: &mut String, c: &mut usize) -> R<()> {
        match it {
            It::Gen(e, mem) => {
                let g = format!("vxg{k}{}", (b'a' + *c as u8) as char); let v = format!("vxo{k}{}", (b'a' + *c as u8) as char); *c += 1;
                pre.push_str(&format!("let mut {g} = {e};\n"));
                if *mem { o.push_str(&self.hint(&format!("loop {k} fetch"))) }
                o.push_str(&format!("let {v} = {g}.next({});\nif {v}.is_none() {{ {} break; }}\n", if *mem { "mem" } else { "" }, self.hint(&format!("loop {k} done"))));
                let is_ptr = e.contains("flatiter_ptr");
                match pat {
                    None | Some(Pat::Wild(_)) => {}
                    Some(Pat::Ident(i)) => { let n = i.ident.to_string(); self.bind(&n, if is_ptr { Kind::Ptr } else { Kind::Plain }); o.push_str(&format!("let {n} = {v}.unwrap();\n")) }
                    Some(p) => return self.un("pattern", p),
                }
                Ok(())
            }
            It::Zip(a, b) => {
                let (pa, pb) = match pat { Some(Pat::Tuple(t)) if t.elems.len() == 2 => (Some(&t.elems[0]), Some(&t.elems[1])), None | Some(Pat::Wild(_)) => (None, None), Some(p) => return self.un("pattern", p) };
                self.gen_bind(k, a, pa, pre, o, c)?;
                self.gen_bind(k, b, pb, pre, o, c)
            }
            It::Enumerate(i) => {
                let (pa, pb) = match pat { Some(Pat::Tuple(t)) if t.elems.len() == 2 => (Some(&t.elems[0]), Some(&t.elems[1])), None | Some(Pat::Wild(_)) => (None, None), Some(p) => return self.un("pattern", p) };
                self.gen_bind(k, i, pb, pre, o, c)?;
                if let Some(pa) = pa { o.push_str(&self.bind_pat(Some(pa), &format!("vxn{k}"), false)?) }
                Ok(())
            }
            other => {
                let n = self.len_of(other);
                o.push_str(&format!("if vxn{k} >= {n} {{ {} break; }}\n", self.hint(&format!("loop {k} done"))));
                self.bind_at(other, pat, &format!("vxn{k}"), o)
            }
        }
    }

    /// `let it = <iterator expression over slices>` (not generators): kept symbolic
    fn iter_value(&mut self, e: &Expr) -> R<Option<It>> {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if matches!(n.as_str(), "iter" | "iter_mut" | "rev" | "enumerate" | "zip" | "skip" | "take") { return self.iter(e) }
        }
        Ok(None)
    }

    fn iter(&mut self, e: &Expr) -> R<Option<It>> {
        Ok(Some(match e {
            Expr::Paren(p) => return self.iter(&p.expr),
            Expr::Range(r) => {
                let lo = match &r.start { Some(s) => self.expr(s)?, None => return Ok(None) };
                let hi = match (&r.end, &r.limits) { (Some(x), RangeLimits::HalfOpen(_)) => self.expr(x)?, (Some(x), _) => format!("({} + 1)", self.expr(x)?), _ => return Ok(None) };
                It::Range(lo, hi)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" if self.kind(&m.receiver) == Kind::ElemVec => It::Cells { base: self.expr(&m.receiver)?, mutable: n == "iter_mut" },
                    "iter" | "iter_mut" => {
                        let base = self.expr(&m.receiver)?;
                        It::Slice { base, mutable: n == "iter_mut", by_value: false, ptr: self.kind(&m.receiver) == Kind::PtrArr }
                    }
                    // text is modelled by its bytes (callers check is_ascii first)
                    "chars" | "bytes" if m.args.is_empty() => { let base = self.expr(&m.receiver)?; It::Slice { base, mutable: false, by_value: true, ptr: false } }
                    "into_iter" => match self.iter(&m.receiver)? { Some(i) => i, None => { let base = self.expr(&m.receiver)?; It::Slice { base, mutable: false, by_value: true, ptr: self.kind(&m.receiver) == Kind::PtrArr } } },
                    "flatiter" | "flatiter_ptr" => { let v = self.expr(e)?; It::Gen(v, n == "flatiter") }
                    "rev" | "enumerate" | "copied" | "cloned" => {
                        let i = match self.iter(&m.receiver)? { Some(i) => Box::new(i), None => return Ok(None) };
                        match n.as_str() { "rev" => It::Rev(i), "enumerate" => It::Enumerate(i), _ => It::Copied(i) }
                    }
                    "skip" | "take" => {
                        let i = match self.iter(&m.receiver)? { Some(i) => Box::new(i), None => return Ok(None) };
                        let a = self.expr(&m.args[0])?;
                        if n == "skip" { It::Skip(i, a) } else { It::Take(i, a) }
                    }
                    "zip" => {
                        let a = match self.iter(&m.receiver)? { Some(i) => Box::new(i), None => return Ok(None) };
                        let b = match self.iter(&m.args[0])? { Some(i) => Box::new(i), None => return Ok(None) };
                        It::Zip(a, b)
                    }
                    _ => return Ok(None),
                }
            }
            Expr::Reference(r) => { let base = self.expr(&r.expr)?; It::Slice { base, mutable: r.mutability.is_some(), by_value: false, ptr: self.kind(&r.expr) == Kind::PtrArr } }
            Expr::Path(p) => match p.path.get_ident().and_then(|i| self.look(&i.to_string())).cloned() {
                Some(Kind::Iter(i)) => *i,
                Some(Kind::Gen) => It::Gen(self.expr(e)?, false),
                Some(Kind::GenMem) => It::Gen(self.expr(e)?, true),
                Some(Kind::Slice) => It::Slice { base: self.expr(e)?, mutable: false, by_value: true, ptr: false },
                _ => { if self.f.flags.contains("into_iter_params") { It::Slice { base: self.expr(e)?, mutable: false, by_value: true, ptr: false } } else { return Ok(None) } }
            },
            Expr::Call(_) if self.kind(e) == Kind::Gen => { let v = self.expr(e)?; It::Gen(v, false) }
            _ => return Ok(None),
        }))
    }

    fn sink(&mut self, m: &ExprMethodCall) -> R<Option<String>> {
        let n = m.method.to_string();
        // stages, innermost last
        let mut stages: Vec<Stage> = vec![];
        let mut cur = &*m.receiver;
        loop {
            match cur {
                Expr::MethodCall(c) if c.method == "map" || c.method == "filter" || c.method == "flat_map" => {
                    let cl = match &c.args[0] { Expr::Closure(x) => x, _ => return Ok(None) };
                    stages.push(if c.method == "map" { Stage::Map(unsafe_lt(cl)) } else if c.method == "flat_map" { Stage::FlatMap(unsafe_lt(cl)) } else { Stage::Filter(unsafe_lt(cl)) });
                    cur = &c.receiver;
                }
                Expr::Paren(p) => cur = &p.expr,
                _ => break,
            }
        }
        stages.reverse();
        let it = match cur { Expr::MethodCall(_) | Expr::Range(_) => match self.iter(cur)? { Some(i) => i, None => return Ok(None) }, Expr::Path(_) => match self.kind(cur) { Kind::Iter(i) => *i, _ => return Ok(None) }, _ => return Ok(None) };
        if n == "product" && stages.is_empty() {
            if let It::Slice { base, .. } = &it { return Ok(Some(format!("vx_product({base}.vx_sl())"))) }
        }
        if n == "collect" && stages.is_empty() {
            if let It::Copied(i) = &it { if let It::Slice { base, .. } = &**i { return Ok(Some(format!("vx_to_vec({base}.vx_sl())"))) } }
        }
        let k = self.nloop; self.nloop += 1;
        self.env.push(HashMap::new());
        let r = (|| -> R<String> {
            let first_pat: Option<Pat> = match (stages.first(), n.as_str(), m.args.first()) {
                (Some(Stage::Map(c) | Stage::FlatMap(c)), _, _) => Some(c.inputs[0].clone()),
                // filter closures take a reference to the item
                (Some(Stage::Filter(c)), _, _) => Some(match &c.inputs[0] { Pat::Reference(r) => (*r.pat).clone(), p => p.clone() }),
                (None, "all" | "any" | "position", Some(Expr::Closure(c))) => Some(c.inputs[0].clone()),
                _ => None,
            };
            let mut val = String::new();
            let unz = n == "unzip";
            let (pre, head, mut binds, _) = if unz {
                // items of a zip of two slices are collected by position
                self.loop_frame(k, &it, first_pat.as_ref())?
            } else { self.loop_frame(k, &it, first_pat.as_ref())? };
            // `_` in the filter pattern hides items needed by unzip: address them by position
            let (za, zb) = match &it { It::Zip(a, b) => (Some(a.clone()), Some(b.clone())), _ => (None, None) };
            let mut guard = vec![];
            let mut flat = false;
            for (j, s) in stages.iter().enumerate() {
                match s {
                    Stage::Map(c) => {
                        if j > 0 { return Err("map after another stage".into()) }
                        val = match &*c.body { Expr::Block(b) => format!("{{ {} }}", self.block(&b.block)?), e => self.expr(e)? };
                    }
                    Stage::FlatMap(c) => {
                        if j > 0 || n != "collect" { return Err("flat_map in another position".into()) }
                        let e = match &*c.body { Expr::MethodCall(x) if x.method == "into_iter" && x.args.is_empty() => &*x.receiver, e => e };
                        val = match e { Expr::Block(b) => format!("{{ {} }}", self.block(&b.block)?), e => self.expr(e)? };
                        flat = true;
                    }
                    Stage::Filter(c) => {
                        if j > 0 { return Err("filter after another stage".into()) }
                        guard.push(self.expr(&c.body)?);
                    }
                }
            }
            let acc = format!("vxa{k}");
            let (h0, h1, h2, h3) = (self.hint(&format!("loop {k} before")), self.hint(&format!("loop {k} start")), self.hint(&format!("loop {k} end")), self.hint(&format!("loop {k} after")));
            let (init, step, fin) = match n.as_str() {
                "sum" if self.f.flags.contains("elem_chain") => (format!("let mut {acc} = E::zero_value();"), format!("{acc} = vx_add({acc}, {val});"), acc.clone()),
                "product" if self.f.flags.contains("elem_chain") => (format!("let mut {acc} = E::one_value();"), format!("{acc} = vx_mul({acc}, {val});"), acc.clone()),
                "sum" => (format!("let mut {acc}: usize = 0;"), format!("{acc} = {};", self.op(&acc, "+", &val)), acc.clone()),
                "product" => (format!("let mut {acc}: usize = 1;"), format!("{acc} = {};", self.op(&acc, "*", &val)), acc.clone()),
                "count" => (format!("let mut {acc}: usize = 0;"), format!("{acc} = {acc} + 1;"), acc.clone()),
                "collect" if flat => (format!("let mut {acc} = Vec::new();"), format!("vx_extend(&mut {acc}, {val}.vx_sl());"), acc.clone()),
                "collect" => (format!("let mut {acc} = Vec::new();"), format!("{acc}.push({val});"), acc.clone()),
                "all" | "any" => {
                    let c = match m.args.first() { Some(Expr::Closure(c)) => c, _ => return Err("all/any without closure".into()) };
                    let b = self.expr(&c.body)?;
                    if n == "all" { (format!("let mut {acc} = true;"), format!("if !({b}) {{ {acc} = false; break; }}"), acc.clone()) }
                    else { (format!("let mut {acc} = false;"), format!("if {b} {{ {acc} = true; break; }}"), acc.clone()) }
                }
                "position" => {
                    let c = match m.args.first() { Some(Expr::Closure(c)) => c, _ => return Err("position without closure".into()) };
                    let b = self.expr(&c.body)?;
                    (format!("let mut {acc}: Option<usize> = None;"), format!("if {b} {{ {acc} = Some(vxi{k}); break; }}"), acc.clone())
                }
                "unzip" => {
                    let (a, b) = match (za, zb) { (Some(a), Some(b)) => (a, b), _ => return Err("unzip of something other than a zip".into()) };
                    let get = |x: &It| match x { It::Slice { base, .. } => Ok(format!("{base}[vxi{k}]")), _ => Err("unzip of non-slices".to_string()) };
                    let (ga, gb) = (get(&a)?, get(&b)?);
                    (format!("let mut {acc} = Vec::new(); let mut vxb{k} = Vec::new();"), format!("{acc}.push({ga}); vxb{k}.push({gb});"), format!("({acc}, vxb{k})"))
                }
                _ => return Err(format!("iterator sink {n}")),
            };
            let step = if guard.is_empty() { step } else { format!("if {} {{ {step} }}", guard.join(" && ")) };
            binds.push_str("\n");
            Ok(format!("{{ {init}\n{pre}\n{h0}\n{head}\n{{\n{binds}{h1}\n{step}\n{h2}\n}}\n{h3}\n{fin} }}"))
        })();
        self.env.pop();
        Ok(Some(r?))
    }
}

fn unsafe_lt(c: &ExprClosure) -> &ExprClosure { c }

fn has_gen(it: &It) -> Option<()> {
    match it {
        It::Gen(..) => Some(()),
        It::Zip(a, b) => has_gen(a).or(has_gen(b)),
        It::Enumerate(a) => has_gen(a),
        _ => None,
    }
}
fn has_pos(it: &It) -> bool {
    match it { It::Gen(..) => false, It::Zip(a, b) => has_pos(a) || has_pos(b), It::Enumerate(_) => true, _ => true }
}

/// Vec::from_raw_parts(..): a vector that takes over an existing buffer
fn raw_vec(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => raw_vec(&p.expr),
        Expr::Unsafe(u) if u.block.stmts.len() == 1 => matches!(&u.block.stmts[0], Stmt::Expr(e, None) if raw_vec(e)),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => { let n = p.path.segments.len(); n >= 2 && p.path.segments[n - 1].ident == "from_raw_parts" && p.path.segments[n - 2].ident == "Vec" }
            _ => false,
        },
        _ => false,
    }
}
