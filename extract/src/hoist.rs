//! Structs, impls and functions declared inside a method body are moved to module level under the name
//! NAME_METHOD (Rust gives such items no access to the method's locals, so nothing else changes).
use quote::format_ident;
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Ren<'a>(&'a BTreeMap<String, Ident>);
impl VisitMut for Ren<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if let Some(n) = self.0.get(&i.to_string()) { *i = n.clone(); } }
}

fn of_block(name: &Ident, b: &mut Block, out: &mut Vec<Item>) {
    let mut names = BTreeMap::new();
    for s in &b.stmts { if let Stmt::Item(Item::Struct(x)) = s { names.insert(x.ident.to_string(), format_ident!("{}_{}", x.ident, name)); } }
    if names.is_empty() { return; }
    let stmts = std::mem::take(&mut b.stmts);
    for mut s in stmts {
        let mut r = Ren(&names);
        visit_mut::visit_stmt_mut(&mut r, &mut s);
        match s { Stmt::Item(i @ (Item::Struct(_) | Item::Impl(_))) => out.push(i), s => b.stmts.push(s) }
    }
}

/// `Ordering::Relaxed` and the like are the atomic orderings (the comparison one has other variants)
struct Atomic;
impl VisitMut for Atomic {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let n = p.segments.len();
        if n >= 2 && p.segments[n - 2].ident == "Ordering" && ["Relaxed", "SeqCst", "Acquire", "Release", "AcqRel"].iter().any(|x| p.segments[n - 1].ident == x) {
            let id = p.segments[n - 1].ident.clone();
            *p = parse_quote!(AOrdering::#id);
        }
    }
}

pub fn apply(f: &mut File) {
    Atomic.visit_file_mut(f);
    let mut out = vec![];
    for i in f.items.iter_mut() {
        match i {
            Item::Fn(x) => { let n = x.sig.ident.clone(); of_block(&n, &mut x.block, &mut out); }
            Item::Impl(im) => for it in im.items.iter_mut() { if let ImplItem::Fn(x) = it { let n = x.sig.ident.clone(); of_block(&n, &mut x.block, &mut out); } },
            _ => {}
        }
    }
    f.items.extend(out);
}

/// structs `S<'a, P>` with exactly the fields problem and eval_count that implement the trait
pub fn implementers(f: &File, tr: &str) -> Vec<String> {
    let mut out = vec![];
    for i in &f.items {
        if let Item::Impl(im) = i {
            if im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident != tr).unwrap_or(true) { continue; }
            let n = match &*im.self_ty { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => continue };
            let ok = f.items.iter().any(|i| matches!(i, Item::Struct(s) if s.ident == n
                && s.generics.lifetimes().count() == 1 && s.generics.type_params().count() == 1 && s.generics.params.len() == 2
                && { let mut v: Vec<String> = s.fields.iter().filter_map(|f| f.ident.as_ref().map(|x| x.to_string())).collect(); v.sort(); v == ["eval_count", "problem"] }));
            if ok { out.push(n); }
        }
    }
    out
}
