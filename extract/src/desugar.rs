//! Pass before the rewriting proper: iteration with effects becomes the loop it stands for.
//!  * `for p in B.iter_mut()` (also `.enumerate()`, and zipped with a read-only iterator), and `for_each`
//!    on such an iterator, becomes a counted loop with `let p = B.get_mut_at(k);`
//!  * `X.map(|p| BODY).collect()` and `Array1::from_shape_fn(n, |i| BODY)` whose BODY draws random
//!    numbers becomes a loop that pushes BODY's value
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e } }

struct Effect(bool);
impl<'ast> Visit<'ast> for Effect {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let n = m.method.to_string();
        if n == "random" || n == "random_range" || n == "next_u64" { self.0 = true; }
        visit::visit_expr_method_call(self, m);
    }
}
/// draws from a generator that is not created inside
fn draws(e: &Expr) -> bool {
    let mut x = Effect(false);
    x.visit_expr(e);
    if !x.0 { return false; }
    struct Own(bool);
    impl<'ast> Visit<'ast> for Own { fn visit_local(&mut self, l: &'ast Local) { if l.to_token_stream().to_string().contains("seed_from") { self.0 = true; } } }
    let mut o = Own(false);
    o.visit_expr(e);
    !o.0
}
fn place(e: &Expr) -> bool { match strip(e) { Expr::Path(_) => true, Expr::Field(f) => place(&f.base), _ => false } }
fn place_of(e: &Expr) -> Option<Expr> { match strip(e) { Expr::Reference(r) if place(&r.expr) => Some((*r.expr).clone()), x if place(x) => Some(x.clone()), _ => None } }
enum Src { Mut(Expr), Read(Expr) }
fn src(e: &Expr) -> Option<Src> {
    match strip(e) {
        Expr::MethodCall(m) if m.args.is_empty() && place(&m.receiver) => match m.method.to_string().as_str() {
            "iter_mut" | "par_iter_mut" => Some(Src::Mut((*m.receiver).clone())),
            "iter" | "par_iter" => Some(Src::Read((*m.receiver).clone())),
            _ => None,
        },
        Expr::Reference(r) if r.mutability.is_some() && place(&r.expr) => Some(Src::Mut((*r.expr).clone())),
        _ => None,
    }
}
#[derive(Default)]
pub struct De { pub n: usize }
impl De {
    fn mut_loop(&mut self, f: &ExprForLoop) -> Option<ExprForLoop> {
        self.n += 1;
        let k = format_ident!("__k{}", self.n);
        let body = &f.body.stmts;
        let (bind, len): (proc_macro2::TokenStream, proc_macro2::TokenStream) = match strip(&f.expr) {
            Expr::MethodCall(m) if m.method == "enumerate" => {
                let b = match src(&m.receiver)? { Src::Mut(b) => b, _ => return None };
                let t = match &*f.pat { Pat::Tuple(t) if t.elems.len() == 2 => t, _ => return None };
                let (i, x) = (&t.elems[0], &t.elems[1]);
                let li = if matches!(i, Pat::Wild(_)) { quote!() } else { quote!( let #i = #k; ) };
                (quote!( #li let #x = #b.get_mut_at(#k); ), quote!( #b.len() ))
            }
            Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 => {
                let a = src(&m.receiver)?;
                let b = match src(&m.args[0]) { Some(s) => s, None => Src::Read(place_of(&m.args[0])?) };
                let t = match &*f.pat { Pat::Tuple(t) if t.elems.len() == 2 => t, _ => return None };
                let (p, q) = (&t.elems[0], &t.elems[1]);
                if matches!((&a, &b), (Src::Read(_), Src::Read(_))) { return None; }
                let one = |s: &Src, p: &Pat| match s { Src::Mut(b) => quote!( let #p = #b.get_mut_at(#k); ), Src::Read(b) => quote!( let #p = &#b[#k]; ) };
                let len = |s: &Src| match s { Src::Mut(b) | Src::Read(b) => quote!( #b.len() ) };
                let (x, y) = (one(&a, p), one(&b, q));
                let (l, r) = (len(&a), len(&b));
                (quote!( #x #y ), quote!( std::cmp::min(#l, #r) ))
            }
            e => {
                let b = match src(e)? { Src::Mut(b) => b, _ => return None };
                let p = &f.pat;
                (quote!( let #p = #b.get_mut_at(#k); ), quote!( #b.len() ))
            }
        };
        parse2(quote!( for #k in 0..(#len) { #bind #(#body)* } )).ok()
    }
    fn pushes(&mut self, it: &Expr, c: &ExprClosure) -> Expr {
        self.n += 1;
        let v = format_ident!("__mv{}", self.n);
        let e = format_ident!("__me{}", self.n);
        let p = match c.inputs.first() { Some(Pat::Type(t)) => (*t.pat).clone(), Some(p) => p.clone(), None => parse_quote!(_) };
        let b = &c.body;
        parse_quote!( { let mut #v = Vec::new(); for #p in #it { let #e = #b; #v.push(#e); } #v } )
    }
}
fn for_each(s: &Stmt) -> Option<ExprForLoop> {
    if let Stmt::Expr(Expr::MethodCall(m), _) = s {
        if m.method == "for_each" && m.args.len() == 1 { if let Expr::Closure(c) = strip(&m.args[0]) {
            let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), x => x.clone() };
            let body = match &*c.body { Expr::Block(b) => b.block.clone(), e => parse_quote!( { #e; } ) };
            return Some(ExprForLoop { attrs: vec![], label: None, for_token: Default::default(), pat: Box::new(p), in_token: Default::default(), expr: m.receiver.clone(), body });
        } }
    }
    None
}
fn uses(s: &impl ToTokens, id: &str) -> usize {
    fn go(t: proc_macro2::TokenStream, id: &str) -> usize { t.into_iter().map(|x| match x { proc_macro2::TokenTree::Ident(i) => (i == id) as usize, proc_macro2::TokenTree::Group(g) => go(g.stream(), id), _ => 0 }).sum() }
    go(s.to_token_stream(), id)
}
impl VisitMut for De {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // an iterator bound to a name that the next statement consumes
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let hit = if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                    let t = init.expr.to_token_stream().to_string();
                    let n = id.ident.to_string();
                    let rest: usize = b.stmts[i + 1..].iter().map(|s| uses(s, &n)).sum();
                    if (t.contains("iter_mut")) && uses(&b.stmts[i + 1], &n) == 1 && rest == 1 { Some((n, (*init.expr).clone())) } else { None }
                } else { None }
            } else { None };
            if let Some((n, e)) = hit {
                struct Sub(String, Expr);
                impl VisitMut for Sub { fn visit_expr_mut(&mut self, x: &mut Expr) { if let Expr::Path(p) = x { if p.path.is_ident(&self.0) { *x = self.1.clone(); return; } } visit_mut::visit_expr_mut(self, x); } }
                Sub(n, e).visit_stmt_mut(&mut b.stmts[i + 1]);
                b.stmts.remove(i);
                continue;
            }
            i += 1;
        }
        for s in b.stmts.iter_mut() {
            if let Some(f) = for_each(s) { if let Some(g) = self.mut_loop(&f) { *s = Stmt::Expr(Expr::ForLoop(g), None); } }
            else if let Stmt::Expr(Expr::ForLoop(f), _) = s { if let Some(g) = self.mut_loop(&f.clone()) { *s = Stmt::Expr(Expr::ForLoop(g), None); } }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match &*e {
            Expr::MethodCall(m) if m.method == "collect" => match strip(&m.receiver) {
                Expr::MethodCall(k) if k.method == "map" && k.args.len() == 1 => match strip(&k.args[0]) { Expr::Closure(c) if draws(&c.body) => { let (r, c) = ((*k.receiver).clone(), c.clone()); Some(self.pushes(strip(&r), &c)) } _ => None },
                _ => None,
            },
            Expr::Call(c) if c.args.len() == 2 && c.func.to_token_stream().to_string().replace(' ', "").ends_with("Array1::from_shape_fn") => match strip(&c.args[1]) {
                Expr::Closure(k) if draws(&k.body) => { let n = &c.args[0]; let r: Expr = parse_quote!( 0..(#n) ); let k = k.clone(); let b = self.pushes(&r, &k); Some(parse_quote!( Array1::from_vec(#b) )) }
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new { *e = n; }
    }
}
#[allow(unused)]
fn _t(_: BTreeSet<u8>) {}
