//! vxt: mechanical extraction of functions of /repo/src into one Verus file.
//!
//! usage: vxt <repo> <out.rs> <out.json> [--stub id,id,..] [--vacuity] <spec files...>
//!
//! A spec file is Verus text with blocks
//!     //@fn <file> :: <container> :: <name>      (which function of the repository)
//!     //@sig <verus signature>                   (may span lines)
//!     //@panics <condition over the parameters>  //@requires  //@ensures  //@decreases
//!     //@loop K | //@loop K start|end|before|after | //@start | //@ret | //@return K | //@closure..
//!     //@end
//! Every block is replaced by the signature + the function's body, translated by tr.rs from the source's syntax tree.
mod find;
mod tr;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub id: String,
    pub module: String,
    pub file: String,
    pub container: String,
    pub name: String,
    pub emitted: String,
    pub sig: String,
    pub params: Vec<String>,
    pub panics: Option<String>,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub hints: HashMap<String, String>,
    pub calls: HashMap<String, (String, Vec<String>)>,
    pub flags: HashSet<String>,
    pub types: Vec<(String, String)>,
    pub attrs: String,
    pub line: usize,
    pub indent_impl: bool,
}

/// global tables shared by all translations
#[derive(Default)]
pub struct Db {
    pub calls: HashMap<String, (String, Vec<String>)>, // name -> (new name, extra args)
    pub panicking: HashSet<String>,
    pub memfns: HashSet<String>,
    pub ids: HashSet<String>,
    pub slicefns: HashSet<String>, // methods whose first parameter is taken as a slice
    pub known: HashSet<String>, // emitted function names
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn split_top(s: &str, sep: char) -> Vec<String> {
    let (mut d, mut cur, mut out) = (0i32, String::new(), vec![]);
    let b: Vec<char> = s.chars().collect();
    for (i, &c) in b.iter().enumerate() {
        match c {
            '(' | '[' | '{' | '<' => d += 1,
            ')' | ']' | '}' => d -= 1,
            '>' if i > 0 && b[i - 1] != '-' && b[i - 1] != '=' => d -= 1,
            _ => {}
        }
        if c == sep && d == 0 { out.push(std::mem::take(&mut cur)); } else { cur.push(c) }
    }
    if !cur.trim().is_empty() { out.push(cur) }
    out
}

/// "fn name<..>(params) -> .." : (name, open paren, close paren)
fn sig_parens(sig: &str) -> (String, usize, usize) {
    let b = sig.as_bytes();
    let f = sig.find("fn ").expect("sig without fn") + 3;
    let mut i = f;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
    let name = sig[f..i].to_string();
    let mut angle = 0;
    while !(b[i] == b'(' && angle == 0) {
        if b[i] == b'<' { angle += 1 }
        if b[i] == b'>' && b[i - 1] != b'-' { angle -= 1 }
        i += 1
    }
    let open = i;
    let mut d = 0;
    loop {
        if b[i] == b'(' { d += 1 }
        if b[i] == b')' { d -= 1; if d == 0 { break } }
        i += 1
    }
    (name, open, i)
}

pub enum Piece { Raw(String), Fn(Box<FnSpec>) }

fn parse_spec(path: &str, db: &mut Db) -> (String, Vec<Piece>, Vec<String>) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let module = std::path::Path::new(path).file_stem().unwrap().to_str().unwrap().to_string();
    let mut pieces = vec![];
    let mut raw = String::new();
    let mut uses = vec![];
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(r) = l.strip_prefix("//@use ") { uses.extend(r.split_whitespace().map(String::from)); i += 1; continue }
        if let Some(r) = l.strip_prefix("//@call ") {
            let (a, b) = parse_call(r);
            db.calls.insert(a, b);
            i += 1; continue
        }
        if let Some(r) = l.strip_prefix("//@fn ") {
            pieces.push(Piece::Raw(std::mem::take(&mut raw)));
            let mut f = FnSpec { module: module.clone(), line: i + 1, ..Default::default() };
            let parts: Vec<&str> = r.split(" :: ").map(str::trim).collect();
            assert!(parts.len() == 3, "{path}:{}: //@fn file :: container :: name", i + 1);
            f.file = parts[0].into(); f.container = parts[1].into(); f.name = parts[2].into();
            i += 1;
            let mut key = String::new();
            let mut buf: HashMap<String, String> = HashMap::new();
            while lines[i].trim() != "//@end" {
                let l = lines[i];
                if let Some(d) = l.trim().strip_prefix("//@") {
                    let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
                    match k {
                        "sig" | "requires" | "ensures" | "panics" | "decreases" => { key = k.into(); let e = buf.entry(key.clone()).or_default(); e.push_str(rest); e.push('\n') }
                        "call" => { let (a, b) = parse_call(rest); f.calls.insert(a, b); key = "_".into() }
                        "flag" => { for w in rest.split_whitespace() { f.flags.insert(w.into()); } key = "_".into() }
                        "type" => { let (a, b) = rest.split_once("=>").unwrap(); f.types.push((a.trim().into(), b.trim().into())); key = "_".into() }
                        "attr" => { f.attrs.push_str(rest); f.attrs.push('\n'); key = "_".into() }
                        _ => { key = d.trim().to_string(); buf.entry(key.clone()).or_default(); }
                    }
                } else if key != "_" {
                    let e = buf.get_mut(&key).unwrap_or_else(|| panic!("{path}:{}: text outside directive", i + 1));
                    e.push_str(l); e.push('\n');
                }
                i += 1;
                assert!(i < lines.len(), "{path}: missing //@end");
            }
            i += 1;
            f.sig = buf.remove("sig").expect("no sig").trim().to_string();
            f.panics = buf.remove("panics").map(|s| s.trim().to_string());
            f.requires = buf.remove("requires").unwrap_or_default();
            f.ensures = buf.remove("ensures").unwrap_or_default();
            f.decreases = buf.remove("decreases").unwrap_or_default();
            f.hints = buf;
            let (name, o, c) = sig_parens(&f.sig);
            f.emitted = name.clone();
            f.id = format!("{}::{}", module, name);
            f.params = split_top(&f.sig[o + 1..c], ',').iter().map(|p| {
                let p = p.trim();
                if matches!(p, "self" | "&self" | "&mut self" | "mut self") || p.starts_with("&'a self") { "self".into() }
                else { p.split(':').next().unwrap().trim().trim_start_matches("mut ").to_string() }
            }).collect();
            if f.panics.is_some() { db.panicking.insert(name.clone()); }
            if f.sig[o..c].contains("mem:") { db.memfns.insert(name.clone()); }
            if f.sig[o..c].split(',').nth(1).map_or(false, |p| p.contains(": &[")) && f.sig[o..c].contains("&self") { db.slicefns.insert(name.clone()); }
            if !db.ids.insert(f.id.clone()) { let mut k = 2; while !db.ids.insert(format!("{}@{k}", f.id)) { k += 1 } f.id = format!("{}@{k}", f.id) }
            db.known.insert(name);
            pieces.push(Piece::Fn(Box::new(f)));
            continue;
        }
        // contracts written by hand (trusted primitives, trait methods) that callers must pass ghost arguments to
        if let Some(r) = l.strip_prefix("//@sigof ") {
            for w in r.split_whitespace() {
                let (n, fl) = w.split_once(':').unwrap_or((w, ""));
                db.known.insert(n.into());
                if fl.contains('p') { db.panicking.insert(n.into()); }
                if fl.contains('m') { db.memfns.insert(n.into()); }
            }
            i += 1; continue
        }
        raw.push_str(lines[i]); raw.push('\n');
        i += 1;
    }
    pieces.push(Piece::Raw(raw));
    (module, pieces, uses)
}

fn parse_call(r: &str) -> (String, (String, Vec<String>)) {
    let (a, b) = r.split_once("=>").expect("//@call a => b [+x,y]");
    let (n, extra) = b.split_once('+').unwrap_or((b, ""));
    (a.trim().into(), (n.trim().into(), extra.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()))
}

fn clause(kw: &str, body: &str, extra: &[String]) -> String {
    let b = body.trim().trim_end_matches(',');
    let mut parts: Vec<String> = vec![];
    if !b.is_empty() { parts.push(b.to_string()) }
    parts.extend(extra.iter().cloned());
    if parts.is_empty() { String::new() } else { format!("    {kw} {},\n", parts.join(",\n        ")) }
}

fn header(f: &FnSpec, sig: &str) -> String {
    let (_, _, c) = sig_parens(sig);
    let mut sig = sig.to_string();
    let (mut req, mut ens) = (vec![], vec![]);
    if let Some(p) = &f.panics {
        let has = !sig[..c].trim_end().ends_with('(') && !sig[..c].trim_end().ends_with(',');
        sig.insert_str(c, if has { ", Ghost(vx_allow): Ghost<bool>" } else { "Ghost(vx_allow): Ghost<bool>" });
        req.push(format!("({p}) ==> vx_allow"));
        if !f.flags.contains("may_panic") {
            // over the values at entry
            let q = f.hints.get("panics_old").map(|s| s.trim().to_string()).unwrap_or_else(|| p.clone());
            ens.push(format!("!({q})"));
        }
    }
    let complex = f.hints.values().any(|h| h.contains("invariant_except_break"));
    let iso = if f.attrs.contains("loop_isolation") { "" } else if complex { "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n" } else { "#[verifier::loop_isolation(false)]\n" };
    format!("{iso}{}{}\n{}{}{}", f.attrs, sig, clause("requires", &f.requires, &req), clause("ensures", &f.ensures, &ens), clause("decreases", &f.decreases, &[]))
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let repo = args.remove(0);
    let out = args.remove(0);
    let outj = args.remove(0);
    let mut stub: HashSet<String> = HashSet::new();
    let mut vac = false;
    let mut specs = vec![];
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        if a == "--stub" { stub = it.next().unwrap().split(',').map(String::from).collect() }
        else if a == "--vacuity" { vac = true }
        else { specs.push(a) }
    }
    let mut db = Db::default();
    let mods: Vec<_> = specs.iter().map(|s| parse_spec(s, &mut db)).collect();
    let src = find::Sources::load(&repo);
    let mut o = String::from("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_assignments, non_snake_case, unused_labels, unused_braces, non_camel_case_types, unreachable_code)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut j = String::from("{\"functions\": [");
    let mut first = true;
    for (m, pieces, uses) in &mods {
        let _ = writeln!(o, "pub mod {m} {{\nuse vstd::prelude::*;");
        for u in uses { let _ = writeln!(o, "use super::{u}::*;"); }
        for p in pieces {
            match p {
                Piece::Raw(t) => o.push_str(t),
                Piece::Fn(f) => {
                    let start = o.lines().count() + 1;
                    let (status, line, srcfile, loops, text, dropped) = match src.find(f) {
                        Err(e) => ("lost".to_string(), 0, f.file.clone(), 0, Err(e), vec![]),
                        Ok(found) => match tr::translate(f, &found, &db, &src) {
                            Ok((t, n, d)) => ("extracted".to_string(), found.line, found.file.clone(), n, Ok(t), d),
                            Err(e) => ("unsupported".to_string(), found.line, found.file.clone(), 0, Err(e), vec![]),
                        },
                    };
                    let mut status = status;
                    let h = header(f, &f.sig);
                    let mut reason = String::new();
                    match text {
                        Ok(t) if !stub.contains(&f.id) => { o.push_str(&h); o.push_str(&t); o.push('\n'); }
                        other => {
                            if let Err(e) = other { reason = e } else { status = "stubbed".into() }
                            let _ = writeln!(o, "#[verifier::external_body]\n{h}{{ unimplemented!() }}");
                        }
                    }
                    let end = o.lines().count();
                    if vac && !f.flags.contains("no_vacuity") {
                        // the precondition must be satisfiable: this assertion has to fail
                        let (n, _, _) = sig_parens(&f.sig);
                        let sig = f.sig.replacen(&format!("fn {n}"), &format!("fn vxv_{n}"), 1);
                        let mut g = (**f).clone(); g.ensures = String::new(); g.flags.insert("may_panic".into()); g.decreases = String::new();
                        let vl = o.lines().count();
                        let _ = writeln!(o, "{}{{ proof {{ assert(false); }} vx_any() }}", header(&g, &sig));
                        let _ = (vl,);
                    }
                    if !first { j.push(',') }
                    first = false;
                    let _ = write!(j, "\n {{\"id\": {}, \"module\": {}, \"emitted\": {}, \"name\": {}, \"source\": {}, \"line\": {}, \"status\": {}, \"reason\": {}, \"loops\": {}, \"out_start\": {}, \"out_end\": {}, \"vacuity\": {}, \"dropped\": [{}]}}",
                        json_str(&f.id), json_str(m), json_str(&f.emitted), json_str(&f.name), json_str(&srcfile), line, json_str(&status), json_str(&reason), loops, start, end,
                        !f.flags.contains("no_vacuity"), dropped.iter().map(|s: &String| json_str(s)).collect::<Vec<_>>().join(", "));
                }
            }
        }
        o.push_str("}\n");
    }
    o.push_str("}\nfn main() {}\n");
    j.push_str("\n]}\n");
    std::fs::write(out, o).unwrap();
    std::fs::write(outj, j).unwrap();
}
