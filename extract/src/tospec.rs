//! Translation of an executable expression to a spec-mode expression (used only to give
//! closures their strongest postcondition, `result == <the closure's own body>`).
//! Every operator goes to a `sp_*` trait method of the prelude; a construct that is not
//! listed here makes the translation fail, and the closure then gets no postcondition.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens, format_ident};
use std::collections::BTreeMap;
use syn::*;

pub struct Ctx<'a> {
    pub pures: &'a BTreeMap<String, (Vec<String>, String)>,
}
type R = std::result::Result<TokenStream, String>;

pub fn float_bits(l: &LitFloat) -> Option<u64> { l.base10_parse::<f64>().ok().map(|f| f.to_bits()) }

fn strip_paren(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(g) => strip_paren(&g.expr), _ => e }
}

impl<'a> Ctx<'a> {
    fn subst_pure(&self, name: &str, args: Vec<TokenStream>) -> Option<R> {
        let (params, text) = self.pures.get(name)?;
        if params.len() != args.len() { return Some(Err(format!("arity of pure {name}"))); }
        let ts: TokenStream = match text.parse() { Ok(t) => t, Err(e) => return Some(Err(format!("{e}"))) };
        let m: BTreeMap<String, TokenStream> = params.iter().cloned().zip(args).collect();
        Some(Ok(subst(ts, &m)))
    }
    pub fn block(&self, b: &Block) -> R { self.stmts(&b.stmts) }
    fn stmts(&self, s: &[Stmt]) -> R {
        if s.is_empty() { return Ok(quote!(())); }
        match &s[0] {
            Stmt::Expr(e, semi) => {
                if s.len() == 1 {
                    if let Expr::Return(r) = e { return match &r.expr { Some(x) => self.expr(x), None => Ok(quote!(())) }; }
                    if semi.is_none() { return self.expr(e); }
                    return Err("statement expression".into());
                }
                // if C { return X; } rest
                if let Expr::If(i) = e {
                    if i.else_branch.is_none() && diverges(&i.then_branch) {
                        let c = self.cond(&i.cond)?;
                        let t = self.block(&i.then_branch)?;
                        let r = self.stmts(&s[1..])?;
                        return Ok(quote!( if #c { #t } else { #r } ));
                    }
                }
                // statements without effect
                if is_unit_noop(e) { return self.stmts(&s[1..]); }
                Err("statement in pure body".into())
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref().ok_or("let without init")?;
                if init.diverge.is_some() { return Err("let-else".into()); }
                let rest = self.stmts(&s[1..])?;
                if let Expr::Try(t) = &*init.expr {
                    // only for Option-returning closures: `let p = E.ok()?;`
                    let v = self.expr(&t.expr)?;
                    let p = self.pat(&l.pat)?;
                    return Ok(quote!( match #v { Some(#p) => { #rest } None => None } ));
                }
                let v = self.expr(&init.expr)?;
                let (p, extra) = self.pat_let(&l.pat, quote!(#v))?;
                let _ = p;
                Ok(quote!( { #extra #rest } ))
            }
            Stmt::Macro(m) => {
                let n = m.mac.path.to_token_stream().to_string();
                if n == "println" || n == "eprintln" { return self.stmts(&s[1..]); }
                Err("macro in pure body".into())
            }
            Stmt::Item(_) => Err("item in pure body".into()),
        }
    }
    pub fn pat_let(&self, p: &Pat, v: TokenStream) -> std::result::Result<(TokenStream, TokenStream), String> {
        let p2 = match p { Pat::Type(t) => &*t.pat, x => x };
        match p2 {
            Pat::Ident(i) => { let id = &i.ident; Ok((quote!(#id), quote!( let #id = #v; ))) }
            Pat::Wild(_) => Ok((quote!(_), quote!())),
            Pat::Reference(r) => self.pat_let(&r.pat, quote!( (*#v) )),
            _ => {
                let mut derefs = vec![];
                let p3 = norm_pat(p2, &mut derefs);
                let q = self.pat(&p3)?;
                let dl: Vec<TokenStream> = derefs.iter().map(|(a, b)| quote!( let #a = *#b; )).collect();
                Ok((q.clone(), quote!( let #q = #v; #(#dl)* )))
            }
        }
    }
    pub fn pat(&self, p: &Pat) -> R {
        match p {
            Pat::Ident(i) => { let id = &i.ident; Ok(quote!(#id)) }
            Pat::Wild(_) => Ok(quote!(_)),
            Pat::Tuple(t) => { let v: std::result::Result<Vec<_>, _> = t.elems.iter().map(|x| self.pat(x)).collect(); let v = v?; Ok(quote!( (#(#v),*) )) }
            Pat::TupleStruct(t) => { let path = &t.path; let v: std::result::Result<Vec<_>, _> = t.elems.iter().map(|x| self.pat(x)).collect(); let v = v?; Ok(quote!( #path(#(#v),*) )) }
            Pat::Reference(r) => self.pat(&r.pat),
            Pat::Path(p) => Ok(p.to_token_stream()),
            Pat::Lit(p) => Ok(p.to_token_stream()),
            Pat::Paren(p) => self.pat(&p.pat),
            Pat::Type(t) => self.pat(&t.pat),
            _ => Err(format!("pattern {}", p.to_token_stream())),
        }
    }
    fn cond(&self, e: &Expr) -> R {
        match e {
            Expr::Let(_) => Err("if let in pure body".into()),
            _ => self.expr(e),
        }
    }
    pub fn expr(&self, e: &Expr) -> R {
        match e {
            Expr::Paren(p) => { let x = self.expr(&p.expr)?; Ok(quote!( (#x) )) }
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Lit(l) => match &l.lit {
                Lit::Float(f) => { let b = float_bits(f).ok_or("float")?; let s = proc_macro2::Literal::u64_suffixed(b); Ok(quote!( sp_lit(#s) )) }
                _ => Ok(l.to_token_stream()),
            },
            Expr::Path(p) => {
                let s = p.to_token_stream().to_string().replace(' ', "");
                if let Some(c) = s.strip_prefix("f64::") { let id = format_ident!("sp_const_{}", c.to_lowercase()); return Ok(quote!( #id() )); }
                Ok(p.to_token_stream())
            }
            Expr::Field(f) => { let b = self.expr(&f.base)?; let m = &f.member; Ok(quote!( #b.#m )) }
            Expr::Reference(r) => self.expr(&r.expr),
            Expr::Unary(u) => {
                let x = self.expr(&u.expr)?;
                match u.op {
                    UnOp::Deref(_) => Ok(quote!( (*#x) )),
                    UnOp::Not(_) => Ok(quote!( (!(#x)) )),
                    UnOp::Neg(_) => {
                        if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = strip_paren(&u.expr) {
                            let b = (-f.base10_parse::<f64>().map_err(|e| e.to_string())?).to_bits();
                            let s = proc_macro2::Literal::u64_suffixed(b);
                            return Ok(quote!( sp_lit(#s) ));
                        }
                        Ok(quote!( (#x).sp_neg() ))
                    }
                    _ => Err("unary".into()),
                }
            }
            Expr::Binary(b) => {
                let l = self.expr(&b.left)?;
                let r = self.expr(&b.right)?;
                let m = match b.op {
                    BinOp::Add(_) => "sp_add", BinOp::Sub(_) => "sp_sub", BinOp::Mul(_) => "sp_mul",
                    BinOp::Div(_) => "sp_div", BinOp::Rem(_) => "sp_rem",
                    BinOp::Lt(_) => "sp_lt", BinOp::Le(_) => "sp_le", BinOp::Gt(_) => "sp_gt", BinOp::Ge(_) => "sp_ge",
                    BinOp::Eq(_) => "sp_eq", BinOp::Ne(_) => "sp_ne",
                    BinOp::And(_) => return Ok(quote!( (#l && #r) )),
                    BinOp::Or(_) => return Ok(quote!( (#l || #r) )),
                    _ => return Err("binary".into()),
                };
                let m = format_ident!("{m}");
                Ok(quote!( (#l).#m(#r) ))
            }
            Expr::MethodCall(c) => {
                let name = c.method.to_string();
                match name.as_str() {
                    "to_string" | "elapsed" | "random" | "random_range" | "sample" | "shuffle" | "fetch_add" | "lock" | "read" | "write" | "objective" | "solve" | "solve_with_tracking" => return Err(format!("effectful call {name}")),
                    "clone" | "to_owned" | "copied" | "cloned" | "as_ref" | "iter" | "into_iter" | "par_iter" | "into_par_iter" | "borrow" => {
                        if c.args.is_empty() {
                            let r = self.expr(&c.receiver)?;
                            if name == "as_ref" { return Ok(quote!( #r )); }
                            return Ok(r);
                        }
                    }
                    "unwrap" | "expect" => { let r = self.expr(&c.receiver)?; return Ok(quote!( (#r).sp_unwrap() )); }
                    "ok" if c.args.is_empty() => { let r = self.expr(&c.receiver)?; return Ok(quote!( (#r).sp_ok() )); }
                    _ => {}
                }
                let recv = self.expr(&c.receiver)?;
                let mut args = vec![];
                for a in &c.args { args.push(self.arg(a)?); }
                let mut all = vec![recv.clone()];
                all.extend(args.clone());
                // pure function template: method on self or on anything
                if let Some(r) = self.subst_pure(&format!(".{name}"), all) { return r; }
                if !known(&name) { return Err(format!("call of {name}, which has no specification function")); }
                let id = format_ident!("sp_{}", name);
                Ok(quote!( (#recv).#id(#(#args),*) ))
            }
            Expr::Call(c) => {
                let f = strip_paren(&c.func);
                let mut args = vec![];
                for a in &c.args { args.push(self.arg(a)?); }
                if let Expr::Path(p) = f {
                    let s = p.to_token_stream().to_string().replace(' ', "");
                    if let Some(r) = self.subst_pure(&s, args.clone()) { return r; }
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if last.chars().next().unwrap().is_uppercase() {
                        return Ok(quote!( #p(#(#args),*) ));
                    }
                }
                Err(format!("call {}", c.func.to_token_stream()))
            }
            Expr::Tuple(t) => { let v: std::result::Result<Vec<_>, _> = t.elems.iter().map(|x| self.expr(x)).collect(); let v = v?; Ok(quote!( (#(#v),*) )) }
            Expr::If(i) => {
                let c = self.cond(&i.cond)?;
                let t = self.block(&i.then_branch)?;
                let e = match &i.else_branch { Some((_, e)) => self.expr(e)?, None => return Err("if without else".into()) };
                Ok(quote!( if #c { #t } else { #e } ))
            }
            Expr::Block(b) => { let x = self.block(&b.block)?; Ok(quote!( { #x } )) }
            Expr::Match(m) => {
                let x = self.expr(&m.expr)?;
                let mut arms = vec![];
                for a in &m.arms {
                    if a.guard.is_some() { return Err("guard".into()); }
                    let p = self.pat(&a.pat)?;
                    let b = self.expr(&a.body)?;
                    arms.push(quote!( #p => { #b } ));
                }
                Ok(quote!( match #x { #(#arms)* } ))
            }
            Expr::Index(i) => {
                let b = self.expr(&i.expr)?;
                match strip_paren(&i.index) {
                    Expr::Array(a) if a.elems.len() == 2 => {
                        let x = self.expr(&a.elems[0])?; let y = self.expr(&a.elems[1])?;
                        Ok(quote!( (#b).sp_at2(#x as int, #y as int) ))
                    }
                    Expr::Range(_) => Err("range index".into()),
                    ix => { let x = self.expr(ix)?; Ok(quote!( (#b).sp_at(#x as int) )) }
                }
            }
            Expr::Struct(s) => {
                if s.rest.is_some() { return Err("struct update".into()); }
                let p = &s.path;
                let mut fs = vec![];
                for f in &s.fields { let m = &f.member; let v = self.expr(&f.expr)?; fs.push(quote!( #m: #v )); }
                Ok(quote!( #p { #(#fs),* } ))
            }
            Expr::Cast(c) => { let x = self.expr(&c.expr)?; let t = c.ty.to_token_stream().to_string(); let id = format_ident!("sp_as_{}", t); Ok(quote!( (#x).#id() )) }
            Expr::Return(r) => match &r.expr { Some(x) => self.expr(x), None => Ok(quote!(())) },
            _ => Err(format!("expr {}", e.to_token_stream())),
        }
    }
    fn arg(&self, e: &Expr) -> R {
        match strip_paren(e) {
            Expr::Closure(c) => {
                let mut names = vec![];
                let mut lets = TokenStream::new();
                for (k, p) in c.inputs.iter().enumerate() {
                    let p2 = match p { Pat::Type(t) => &*t.pat, x => x };
                    match p2 {
                        Pat::Ident(i) => { let id = &i.ident; names.push(quote!(#id)); }
                        _ => {
                            let id = format_ident!("__sc{}", k);
                            names.push(quote!(#id));
                            let (_, l) = self.pat_let(p2, quote!(#id))?;
                            lets.extend(l);
                        }
                    }
                }
                let b = self.expr(&c.body)?;
                Ok(quote!( |#(#names),*| { #lets #b } ))
            }
            x => self.expr(x),
        }
    }
}

pub fn is_unit_noop(e: &Expr) -> bool {
    match e {
        Expr::Tuple(t) => t.elems.is_empty(),
        Expr::Block(b) => b.block.stmts.is_empty(),
        Expr::If(i) => i.then_branch.stmts.iter().all(|s| match s { Stmt::Macro(m) => { let n = m.mac.path.to_token_stream().to_string(); n == "println" || n == "eprintln" } _ => false }) && i.else_branch.is_none(),
        _ => false,
    }
}

/// the prelude defines a specification function for this method
fn known(name: &str) -> bool {
    const P: &str = include_str!("../../contracts/00_prelude.rs");
    ["len", "check", "should_observe_stage1", "should_observe_stage2"].contains(&name) || P.contains(&format!("fn sp_{name}(")) || P.contains(&format!("fn sp_{name}<"))
}
pub fn diverges(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

/// Replace nested `&ident` patterns by a fresh binding and record `let ident = *fresh;`.
pub fn norm_pat(p: &Pat, derefs: &mut Vec<(Ident, Ident)>) -> Pat {
    let mut p = p.clone();
    // below `&` every binding is by copy
    fn go(p: &mut Pat, derefs: &mut Vec<(Ident, Ident)>, below: bool) {
        match p {
            Pat::Ident(i) if below && i.by_ref.is_none() => {
                let fresh = format_ident!("{}__r", i.ident);
                derefs.push((i.ident.clone(), fresh.clone()));
                *p = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: fresh, subpat: None });
            }
            Pat::Reference(r) => { let inner = (*r.pat).clone(); *p = inner; go(p, derefs, true); }
            Pat::Tuple(t) => for x in t.elems.iter_mut() { go(x, derefs, below) },
            Pat::TupleStruct(t) => for x in t.elems.iter_mut() { go(x, derefs, below) },
            Pat::Paren(x) => go(&mut x.pat, derefs, below),
            Pat::Type(x) => go(&mut x.pat, derefs, below),
            _ => {}
        }
    }
    go(&mut p, derefs, false);
    p
}

pub fn subst(ts: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    use proc_macro2::{Group, TokenTree};
    let mut out = TokenStream::new();
    let mut prev_dot = false;
    for t in ts {
        match t {
            TokenTree::Ident(ref i) if !prev_dot && m.contains_key(&i.to_string()) => { let r = &m[&i.to_string()]; out.extend(quote!( (#r) )); prev_dot = false; }
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), subst(g.stream(), m)); n.set_span(g.span()); out.extend([TokenTree::Group(n)]); prev_dot = false; }
            TokenTree::Punct(ref p) => { prev_dot = p.as_char() == '.'; out.extend([t]); }
            _ => { prev_dot = false; out.extend([t]); }
        }
    }
    out
}
