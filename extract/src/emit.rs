use crate::contracts::*;
use crate::rewrite::{self, Env, Report};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Res { pub text: String, pub map_json: String }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

/// Print tokens with line breaks after `;`, `{` and `}`.
pub fn pretty(ts: TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut String, ind: usize, brk: bool) {
        let mut prev_joint = false;
        let mut prev: Option<TokenTree> = None;
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (k, t) in v.iter().enumerate() {
            let need_space = match (&prev, t) {
                (None, _) => false,
                (Some(TokenTree::Punct(p)), _) if p.spacing() == Spacing::Joint => { let _ = p; false }
                (Some(TokenTree::Punct(p)), TokenTree::Ident(_)) if p.as_char() == '.' || p.as_char() == '\'' => false,
                (Some(TokenTree::Punct(p)), TokenTree::Literal(_)) if p.as_char() == '.' => false,
                (_, TokenTree::Punct(p)) if p.as_char() == '.' || p.as_char() == ',' || p.as_char() == ';' => false,
                (Some(TokenTree::Ident(_)), TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => false,
                (Some(TokenTree::Ident(_)), TokenTree::Group(g)) if g.delimiter() == Delimiter::Bracket => false,
                (Some(TokenTree::Group(_)), TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis || g.delimiter() == Delimiter::Bracket => false,
                (Some(TokenTree::Punct(p)), TokenTree::Group(g)) if (p.as_char() == '@' || p.as_char() == '!' || p.as_char() == '#') && g.delimiter() == Delimiter::Bracket => false,
                _ => true,
            };
            let _ = prev_joint;
            if need_space && !out.ends_with('\n') && !out.ends_with(' ') { out.push(' '); }
            match t {
                TokenTree::Group(g) => {
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            if inner.is_empty() { out.push_str("{}"); }
                            else {
                                out.push('{'); nl(out, ind + 1);
                                go(g.stream(), out, ind + 1, true);
                                nl(out, ind);
                                out.push('}');
                            }
                            // a block statement followed by another statement
                            if brk && k + 1 < v.len() {
                                let nxt = &v[k + 1];
                                let cont = match nxt { TokenTree::Ident(i) => i == "else", TokenTree::Punct(p) => p.as_char() != '#', TokenTree::Group(g2) => g2.delimiter() != Delimiter::Brace, _ => false };
                                if !cont { nl(out, ind); }
                            }
                        }
                        Delimiter::Parenthesis => { out.push('('); go(g.stream(), out, ind, false); out.push(')'); }
                        Delimiter::Bracket => { out.push('['); go(g.stream(), out, ind, false); out.push(']'); }
                        Delimiter::None => go(g.stream(), out, ind, brk),
                    }
                }
                TokenTree::Punct(p) => {
                    out.push(p.as_char());
                    if p.as_char() == ';' && brk { nl(out, ind); }
                }
                x => out.push_str(&x.to_string()),
            }
            prev_joint = matches!(t, TokenTree::Punct(p) if p.spacing() == Spacing::Joint);
            prev = Some(t.clone());
        }
    }
    fn nl(out: &mut String, ind: usize) {
        while out.ends_with(' ') { out.pop(); }
        if !out.ends_with('\n') { out.push('\n'); }
        for _ in 0..ind { out.push_str("    "); }
    }
    let mut s = String::new();
    go(ts, &mut s, 1, true);
    s
}

struct TypeRw;
impl VisitMut for TypeRw {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::BareFn(_) = t { *t = parse_quote!(CFn); return; }
        if let Type::Path(p) = t {
            let s = p.path.to_token_stream().to_string().replace(' ', "");
            if s == "f64" { *t = parse_quote!(F64); return; }
            if p.path.segments.len() > 1 && ["ndarray::", "std::", "crate::", "core::", "chrono::", "io::", "fs::", "path::"].iter().any(|x| s.starts_with(x)) {
                let last = p.path.segments.last().unwrap().clone();
                let mut np = Path { leading_colon: None, segments: punctuated::Punctuated::new() };
                np.segments.push(last);
                p.path = np;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn strip_bounds(g: &Generics) -> Generics {
    let mut g = g.clone();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = std::mem::take(&mut t.bounds).into_iter().filter(|b| match b { TypeParamBound::Trait(t) => { let n = t.path.segments.last().unwrap().ident.to_string(); n != "Send" && n != "Sync" && n != "Clone" } _ => true }).collect();
        }
    }
    if let Some(w) = &mut g.where_clause { w.predicates = std::mem::take(&mut w.predicates).into_iter().filter(|_| false).collect(); }
    g.where_clause = None;
    g
}

fn ty_name(t: &Type) -> String { if let Type::Path(p) = t { p.path.segments.last().unwrap().ident.to_string() } else { t.to_token_stream().to_string() } }

enum Found<'a> { Method(&'a ItemImpl, &'a ImplItemFn), Free(&'a ItemFn) }

fn find<'a>(f: &'a File, path: &str) -> Option<Found<'a>> {
    let (ty, tr, name) = if let Some(rest) = path.strip_prefix('<') {
        let (a, b) = rest.split_once(">::").unwrap();
        let (t, tr) = a.split_once(" as ").unwrap();
        (Some(t.trim().to_string()), Some(tr.trim().to_string()), b.to_string())
    } else if let Some((a, b)) = path.rsplit_once("::") { (Some(a.to_string()), None, b.to_string()) } else { (None, None, path.to_string()) };
    for i in &f.items {
        match i {
            Item::Fn(x) if ty.is_none() && x.sig.ident == name => return Some(Found::Free(x)),
            Item::Impl(im) => {
                if ty.as_deref() != Some(ty_name(&im.self_ty).as_str()) { continue; }
                let t = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                if t != tr { continue; }
                for it in &im.items { if let ImplItem::Fn(x) = it { if x.sig.ident == name { return Some(Found::Method(im, x)); } } }
            }
            _ => {}
        }
    }
    None
}

pub fn emit(cs: &Contracts, files: &BTreeMap<String, File>, mut problems: Vec<(String, String)>) -> Res {
    let mut text = String::new();
    text.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, non_snake_case, unused_assignments, unreachable_code, unused_must_use, path_statements, clippy::all)]\n");
    text.push_str(&cs.prelude);
    let mut fmap: Vec<String> = vec![];
    let mut cmap: Vec<String> = vec![];
    let lineno = |t: &String| t.matches('\n').count() + 1;

    // pure templates
    let mut global_pures: BTreeMap<String, (Vec<String>, String)> = BTreeMap::new();
    for m in &cs.modules { for f in &m.fns { if let Some(p) = &f.pure {
        let name = f.path.rsplit("::").next().unwrap().to_string();
        let key = if p.0.first().map(|s| s == "self").unwrap_or(false) { format!(".{name}") } else { name };
        global_pures.insert(key, p.clone());
    } } }

    for m in &cs.modules {
        let renamed = { let mut f = match files.get(&m.file) { Some(f) => f.clone(), None => continue }; if !m.renames.is_empty() { Rename(&m.renames).visit_file_mut(&mut f); } if !m.thread.is_empty() { crate::thread::apply(&mut f, &m.thread); } f };
        let file = &renamed;
        text.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::prelude::*;\n", m.name));
        for u in &m.uses { text.push_str(u); text.push_str(";\n"); }
        text.push_str("verus! {\n");
        // consts of the file
        let mut consts: BTreeMap<String, Expr> = BTreeMap::new();
        for i in &file.items { match i { Item::Const(c) => { consts.insert(c.ident.to_string(), (*c.expr).clone()); } Item::Impl(im) => for it in &im.items { if let ImplItem::Const(c) = it { consts.insert(c.ident.to_string(), c.expr.clone()); } }, _ => {} } }
        // types
        for t in &m.types {
            let mut found = false;
            let mut derives_clone = false;
            for i in &file.items {
                let at: Option<(&Ident, &Vec<Attribute>)> = match i { Item::Struct(s) => Some((&s.ident, &s.attrs)), Item::Enum(s) => Some((&s.ident, &s.attrs)), _ => None };
                if let Some((id, at)) = at { if *id == t.name { derives_clone = at.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Clone")); } }
                match i {
                    Item::Struct(s) if s.ident == t.name => {
                        found = true;
                        let mut s = s.clone();
                        s.generics = strip_bounds(&s.generics);
                        s.vis = parse_quote!(pub); s.attrs.clear();
                        for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); }
                        TypeRw.visit_item_struct_mut(&mut s);
                        for o in &t.opts { if let Some(d) = o.strip_prefix("drop=") { if let Fields::Named(n) = &mut s.fields { n.named = std::mem::take(&mut n.named).into_iter().filter(|x| x.ident.as_ref().unwrap() != d).collect(); } } }
                        if t.opts.iter().any(|o| o == "copy") { text.push_str("#[derive(Clone, Copy)]\n"); }
                        if t.opts.iter().any(|o| o == "structural") { text.push_str("#[derive(Structural, PartialEq, Eq)]\n"); }
                        text.push_str(&pretty(s.to_token_stream()));
                        text.push('\n');
                    }
                    Item::Enum(s) if s.ident == t.name => {
                        found = true;
                        let mut s = s.clone();
                        s.vis = parse_quote!(pub); s.attrs.clear();
                        TypeRw.visit_item_enum_mut(&mut s);
                        if t.opts.iter().any(|o| o == "copy") { text.push_str("#[derive(Clone, Copy)]\n"); }
                        if t.opts.iter().any(|o| o == "structural") { text.push_str("#[derive(Structural, PartialEq, Eq)]\n"); }
                        text.push_str(&pretty(s.to_token_stream()));
                        text.push('\n');
                    }
                    Item::Type(s) if s.ident == t.name => {
                        found = true;
                        let mut s = s.clone();
                        s.vis = parse_quote!(pub); s.attrs.clear();
                        TypeRw.visit_item_type_mut(&mut s);
                        text.push_str(&pretty(s.to_token_stream()));
                        text.push('\n');
                    }
                    _ => {}
                }
            }
            if t.clone && found && !derives_clone { problems.push(("?".into(), format!("{} no longer derives Clone", t.name))); }
            if !found { problems.push(("?".into(), format!("lost anchor: type {}::{} not found", m.file, t.name))); }
            if t.clone { text.push_str(&format!("impl Cl for {} {{ #[verifier::external_body] fn cl(&self) -> (r: Self) {{ unimplemented!() }} }}\n", t.name)); }
        }
        for r in &m.raws { text.push_str(r); text.push('\n'); }

        // helper tables: functions of this file that are not under contract
        let under: Vec<String> = m.fns.iter().map(|f| f.path.clone()).collect();
        let mut free_helpers: BTreeMap<String, (Signature, Block)> = BTreeMap::new();
        let mut methods: BTreeMap<String, BTreeMap<String, (Signature, Block)>> = BTreeMap::new();
        for i in &file.items {
            match i {
                Item::Fn(x) => { let n = x.sig.ident.to_string(); if !under.contains(&n) { free_helpers.insert(n, (x.sig.clone(), (*x.block).clone())); } }
                Item::Impl(im) if im.trait_.is_none() => {
                    let tn = ty_name(&im.self_ty);
                    for it in &im.items { if let ImplItem::Fn(x) = it {
                        let n = x.sig.ident.to_string();
                        if !under.contains(&format!("{tn}::{n}")) { methods.entry(tn.clone()).or_default().insert(n, (x.sig.clone(), x.block.clone())); }
                    } }
                }
                _ => {}
            }
        }
        let empty = BTreeMap::new();
        let mut pures = global_pures.clone();
        for f in &m.fns { if let Some(p) = &f.pure {
            let name = f.path.rsplit("::").next().unwrap().to_string();
            let key = if p.0.first().map(|s| s == "self").unwrap_or(false) { format!(".{name}") } else { name };
            pures.insert(key, p.clone());
        } }

        for fc in &m.fns {
            let (im, sig0, block0) = match find(file, &fc.path) {
                Some(Found::Method(im, x)) => (Some(im), x.sig.clone(), x.block.clone()),
                Some(Found::Free(x)) => (None, x.sig.clone(), (*x.block).clone()),
                None => { problems.push((format!("{}::{}", m.name, fc.path), "lost anchor: function not found".into())); continue; }
            };
            let tn = im.map(|i| ty_name(&i.self_ty)).unwrap_or_default();
            let env = Env { pures: &pures, consts: &consts, helpers: methods.get(&tn).unwrap_or(&empty), free_helpers: &free_helpers };
            let mut rep = Report::default();
            let mut fc2 = fc.clone();
            fc2.attrs.clear();
            let (sig, body) = rewrite::rewrite_fn(&env, fc, &sig0, &block0, &mut rep);
            {
                let fname = format!("{}::{}", m.name, fc.path);
                if !fc.assume {
                    for (a, _) in &fc.ghosts { if !rep.used.borrow().contains(a) { problems.push((fname.clone(), format!("lost anchor: {a}"))); } }
                    for k in fc.loops.keys() { if *k >= rep.loops { problems.push((fname.clone(), format!("lost anchor: loop {k}"))); } }
                    for k in fc.closures.keys() { if *k >= rep.closures { problems.push((fname.clone(), format!("lost anchor: closure {k}"))); } }
                }
            }
            let start = lineno(&text);
            let mut sig = sig;
            // header
            if let Some(im) = im {
                let g = strip_bounds(&im.generics);
                let st = { let mut t = (*im.self_ty).clone(); TypeRw.visit_type_mut(&mut t); t };
                if let Some(t) = &im.trait_ {
                    // a trait method is emitted as an inherent method `<trait>_<method>`
                    let mut assoc: BTreeMap<String, Type> = BTreeMap::new();
                    for it in &im.items { if let ImplItem::Type(t) = it { let mut y = t.ty.clone(); TypeRw.visit_type_mut(&mut y); assoc.insert(t.ident.to_string(), y); } }
                    struct A(BTreeMap<String, Type>);
                    impl VisitMut for A { fn visit_type_mut(&mut self, t: &mut Type) { if let Type::Path(p) = t { if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" { if let Some(y) = self.0.get(&p.path.segments[1].ident.to_string()) { *t = y.clone(); return; } } } visit_mut::visit_type_mut(self, t); } }
                    A(assoc).visit_signature_mut(&mut sig);
                    let n = t.1.segments.last().unwrap().ident.to_string().to_lowercase();
                    sig.ident = Ident::new(&format!("{n}_{}", sig.ident), sig.ident.span());
                }
                text.push_str(&pretty(quote!( impl #g #st )));
                text.push_str(" {\n");
            }
            let fname = format!("{}::{}", m.name, fc.path);
            for (k, (ps, b)) in rep.outlined.iter().enumerate() {
                let id = quote::format_ident!("__blk_{}_{}", fc.path.rsplit("::").next().unwrap(), k);
                text.push_str("#[verifier::loop_isolation(false)]\npub ");
                text.push_str(&pretty(quote!( fn #id (&mut self #ps) )));
                text.push('\n');
                let rq: Vec<_> = fc.orequires.iter().filter(|x| x.0.is_none() || x.0 == Some(k)).collect();
                if !rq.is_empty() { text.push_str("    requires\n"); for (_, t) in rq { text.push_str(t); } }
                let en: Vec<_> = fc.oensures.iter().filter(|x| x.0.is_none() || x.0 == Some(k)).collect();
                if !en.is_empty() { text.push_str("    ensures\n"); for (_, tags, t) in en { let a = lineno(&text); text.push_str(t); let b = lineno(&text); cmap.push(format!("{{\"fn\":{},\"kind\":\"ensures\",\"tags\":{},\"from\":{a},\"to\":{}}}", js(&fname), jl(tags), b - 1)); } }
                text.push_str(&pretty(b.clone()));
                text.push('\n');
            }
            for k in fc.oensures.iter().filter_map(|x| x.0).chain(fc.orequires.iter().filter_map(|x| x.0)) { if k >= rep.outlined.len() { problems.push((fname.clone(), format!("lost anchor: outlined statement {k}"))); } }
            for a in &fc.attrs { text.push_str(a); text.push('\n'); }
            if !fc.attrs.iter().any(|a| a.contains("loop_isolation")) { text.push_str("#[verifier::loop_isolation(false)]\n"); }
            if fc.assume { text.push_str("#[verifier::external_body]\n"); }
            text.push_str("pub ");
            let name = &sig.ident;
            let gens = strip_bounds(&sig.generics);
            let inputs = &sig.inputs;
            text.push_str(&pretty(quote!( fn #name #gens (#inputs) )));
            if let ReturnType::Type(_, t) = &sig.output {
                let rn = if fc.ret.is_empty() { "__ret" } else { fc.ret.as_str() };
                let ty = pretty(quote!( #t ));
                text.push_str(&format!(" -> ({rn}: {ty})"));
            }
            text.push('\n');
            let fname = format!("{}::{}", m.name, fc.path);
            if !fc.requires.is_empty() {
                text.push_str("    requires\n");
                for (tags, t) in &fc.requires { let a = lineno(&text); text.push_str(t); if !t.ends_with('\n') { text.push('\n'); } let b = lineno(&text); cmap.push(format!("{{\"fn\":{},\"kind\":\"requires\",\"tags\":{},\"from\":{a},\"to\":{}}}", js(&fname), jl(tags), b - 1)); }
            }
            if !fc.ensures.is_empty() {
                text.push_str("    ensures\n");
                for (tags, t) in &fc.ensures { let a = lineno(&text); text.push_str(t); if !t.ends_with('\n') { text.push('\n'); } let b = lineno(&text); cmap.push(format!("{{\"fn\":{},\"kind\":\"ensures\",\"tags\":{},\"from\":{a},\"to\":{}}}", js(&fname), jl(tags), b - 1)); }
            }
            if !fc.decreases.is_empty() { text.push_str("    decreases "); text.push_str(&fc.decreases); text.push('\n'); }
            if fc.assume { text.push_str("{ unimplemented!() }\n"); } else {
                let mut b = pretty(body);
                for (a, r) in &fc.subst {
                    if !b.contains(a.as_str()) { problems.push((fname.clone(), format!("lost anchor: substitution `{a}`"))); }
                    b = b.replace(a.as_str(), r);
                }
                text.push_str(&b);
            }
            text.push('\n');
            if im.is_some() { text.push_str("}\n"); }
            let end = lineno(&text) - 1;
            let dropped: Vec<String> = rep.dropped.iter().map(|(k, v)| format!("{v} x {k}")).collect();
            fmap.push(format!("{{\"fn\":{},\"file\":{},\"from\":{start},\"to\":{end},\"assumed\":{},\"forced\":{},\"loops\":{},\"closures\":{},\"dropped\":{},\"notes\":{},\"unspec_closures\":{},\"inlined\":{}}}",
                js(&fname), js(&m.file), fc.assume, fc.forced, rep.loops, rep.closures, jl(&dropped), jl(&rep.notes), jl(&rep.unspec_closures), jl(&rep.inlined)));
            let _ = fc2;
        }
        text.push_str("} // verus!\n}\n");
    }
    text.push_str(&cs.tail);
    text.push_str("\nfn main() {}\n");
    let probs: Vec<String> = problems.iter().map(|(a, b)| format!("{{\"at\":{},\"what\":{}}}", js(a), js(b))).collect();
    let map_json = format!("{{\"functions\":[{}],\n\"clauses\":[{}],\n\"problems\":[{}]}}\n", fmap.join(",\n"), cmap.join(",\n"), probs.join(",\n"));
    Res { text, map_json }
}

struct Rename<'a>(&'a [(String, String)]);
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let t: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if t.len() >= 2 { let t = t[t.len() - 2..].join("::"); if let Some((_, n)) = self.0.iter().find(|(o, _)| t == *o) { let l = p.path.segments.last_mut().unwrap(); l.ident = Ident::new(n, l.ident.span()); } }
    }
    fn visit_expr_method_call_mut(&mut self, c: &mut ExprMethodCall) {
        if let Some((_, n)) = self.0.iter().find(|(o, _)| c.method == o) { c.method = Ident::new(n, c.method.span()); }
        syn::visit_mut::visit_expr_method_call_mut(self, c);
    }
}
