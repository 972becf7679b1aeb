//! Body rewriting: the executable text stays statement by statement the source's, apart from
//! the renamings listed in DESIGN.md.
use crate::contracts::FnC;
use crate::tospec::{self, norm_pat};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Env<'a> {
    pub pures: &'a BTreeMap<String, (Vec<String>, String)>,
    pub consts: &'a BTreeMap<String, Expr>,
    /// uncontracted helper functions of the same file: name -> (has self, fn)
    pub helpers: &'a BTreeMap<String, (Signature, Block)>,
    pub free_helpers: &'a BTreeMap<String, (Signature, Block)>,
}
#[derive(Default)]
pub struct Report {
    pub dropped: BTreeMap<String, usize>,
    pub notes: Vec<String>,
    pub unspec_closures: Vec<String>,
    pub inlined: Vec<String>,
    pub loops: usize,
    pub closures: usize,
    pub used: std::cell::RefCell<BTreeSet<String>>,
    /// outlined statements: parameters and body
    pub outlined: Vec<(TokenStream, TokenStream)>,
}

fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e } }

// ---------- pass 0: constants + helper inlining ----------
struct Inline<'a, 'b> { env: &'a Env<'a>, rep: &'b mut Report, depth: usize, n: usize }

struct Escapes(bool);
impl<'ast> Visit<'ast> for Escapes {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true; }
    fn visit_expr_break(&mut self, _: &'ast ExprBreak) { self.0 = true; }
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) { self.0 = true; }
}
fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts { match t { proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => idents(g.stream(), out), _ => {} } }
}
struct HasReturn(bool, bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, e: &'ast ExprTry) { self.1 = true; visit::visit_expr_try(self, e); }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
}

/// `if c { return x; } rest` -> `if c { x } else { rest }`; None when a `return` remains.
fn unreturn(b: &Block) -> Option<Block> {
    fn go(s: &[Stmt]) -> Option<Vec<Stmt>> {
        let mut out = vec![];
        for (k, st) in s.iter().enumerate() {
            let last = k + 1 == s.len();
            if let Stmt::Expr(Expr::Return(r), _) = st {
                if last { if let Some(e) = &r.expr { out.push(Stmt::Expr((**e).clone(), None)); } return Some(out); }
                return None;
            }
            if let Stmt::Expr(Expr::If(i), _) = st {
                let mut h = HasReturn(false, false); h.visit_block(&i.then_branch);
                if h.0 && i.else_branch.is_none() && tospec::diverges(&i.then_branch) && !last {
                    let t = go(&i.then_branch.stmts)?;
                    let r = go(&s[k + 1..])?;
                    let c = &i.cond;
                    let e: Expr = parse_quote!( if #c { #(#t)* } else { #(#r)* } );
                    out.push(Stmt::Expr(e, None));
                    return Some(out);
                }
            }
            let mut h = HasReturn(false, false); h.visit_stmt(st);
            if h.0 { return None; }
            out.push(st.clone());
        }
        Some(out)
    }
    Some(Block { brace_token: b.brace_token, stmts: go(&b.stmts)? })
}

impl<'a, 'b> Inline<'a, 'b> {
    fn build(&mut self, name: &str, sig: &Signature, body: &Block, args: Vec<Expr>, tried: bool) -> Option<Expr> {
        if self.depth > 3 { return None; }
        let mut h = HasReturn(false, false); h.visit_block(body);
        if h.1 && !tried { return None; } // `?` inside a helper whose call is not followed by `?`
        let b = unreturn(body)?;
        let params: Vec<(Pat, Type)> = sig.inputs.iter().filter_map(|i| match i { FnArg::Typed(t) => Some(((*t.pat).clone(), (*t.ty).clone())), _ => None }).collect();
        if params.len() != args.len() || !sig.generics.params.is_empty() && sig.generics.type_params().next().is_some() { return None; }
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        for ((p, t), a) in params.iter().zip(args) {
            self.n += 1;
            let id = format_ident!("__in{}", self.n);
            // `&mut x` arguments are bound as-is, `&x` too
            let has_impl = t.to_token_stream().to_string().contains("impl ");
            let keepty = !has_impl && !t.to_token_stream().to_string().contains('\'');
            if keepty { pre.push(parse_quote!( let #id: #t = #a; )); } else { pre.push(parse_quote!( let #id = #a; )); }
            post.push(parse_quote!( let #p = #id; ));
        }
        let stmts = &b.stmts;
        self.rep.inlined.push(name.to_string());
        let e: Expr = parse_quote!( { #(#pre)* #(#post)* #(#stmts)* } );
        Some(e)
    }
}
impl<'a, 'b> VisitMut for Inline<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::If(i) = e { if let Expr::Let(l) = &mut *i.cond {
            let mut d = vec![];
            let np = tospec::norm_pat(&l.pat, &mut d);
            if !d.is_empty() && !matches!(*l.pat, Pat::Reference(_)) {
                l.pat = Box::new(np);
                let mut st: Vec<Stmt> = d.iter().map(|(x, r)| parse_quote!( let #x = *#r; )).collect();
                st.append(&mut i.then_branch.stmts);
                i.then_branch.stmts = st;
            }
        } }
        // constants
        if let Expr::Path(p) = e {
            if p.path.segments.len() == 1 || (p.path.segments.len() == 2 && p.path.segments[0].ident == "Self") {
                let id = p.path.segments.last().unwrap().ident.to_string();
                if let Some(c) = self.env.consts.get(&id) { let c = c.clone(); *e = parse_quote!( (#c) ); self.visit_expr_mut(e); return; }
            }
        }
        let (tried, call) = match &*e { Expr::Try(t) => (true, (*t.expr).clone()), x => (false, x.clone()) };
        let repl: Option<Expr> = match &call {
            Expr::MethodCall(c) if matches!(strip(&c.receiver), Expr::Path(p) if p.path.is_ident("self")) => {
                match self.env.helpers.get(&c.method.to_string()) {
                    Some((s, b)) if s.receiver().is_some() => { let (s, b) = (s.clone(), b.clone()); self.build(&c.method.to_string(), &s, &b, c.args.iter().cloned().collect(), tried) }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let h = if segs.len() == 1 { self.env.free_helpers.get(&segs[0]) }
                        else if segs.len() == 2 && segs[0] == "Self" { self.env.helpers.get(&segs[1]).filter(|(s, _)| s.receiver().is_none()) } else { None };
                    match h { Some((s, b)) => { let (s, b) = (s.clone(), b.clone()); self.build(segs.last().unwrap(), &s, &b, c.args.iter().cloned().collect(), tried) } None => None }
                } else { None }
            }
            _ => None,
        };
        if let Some(r) = repl {
            let mut r = r;
            self.depth += 1;
            self.visit_expr_mut(&mut r);
            self.depth -= 1;
            *e = if tried { parse_quote!( (#r)? ) } else { r };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------- pass 1: the main rewriting ----------
pub struct Rw<'a, 'b> {
    pub env: &'a Env<'a>,
    pub fc: &'a FnC,
    pub rep: &'b mut Report,
    pub loop_no: usize,
    pub closure_no: usize,
    pub tmp: usize,
    pub mut_self: bool,
    pub let_no: BTreeMap<String, usize>,
}

fn ts(s: &str) -> TokenStream { s.parse().unwrap_or_else(|e| panic!("contract text does not lex: {e}: {s}")) }

impl<'a, 'b> Rw<'a, 'b> {
    fn ghost(&self, anchor: &str) -> TokenStream {
        let mut out = TokenStream::new();
        for (a, t) in &self.fc.ghosts { if a == anchor { self.rep.used.borrow_mut().insert(a.clone()); out.extend(ts(t)); } }
        out
    }
    /// ghost text anchored at the k-th statement that begins with the given text
    fn ghost_at(&mut self, kind: &str, txt: &str) -> TokenStream {
        let mut out = TokenStream::new();
        for (a, t) in &self.fc.ghosts { if let Some(rest) = a.strip_prefix(kind) {
            let (t0, k) = match rest.rsplit_once('#') { Some((x, n)) if n.parse::<usize>().is_ok() => (x, n.parse::<usize>().unwrap()), _ => (rest, 0) };
            if txt.starts_with(&t0.replace(' ', "")) {
                let c = self.let_no.entry(format!("{kind}{a}")).or_insert(0); *c += 1;
                if *c - 1 == k { self.rep.used.borrow_mut().insert(a.clone()); out.extend(ts(t)); }
            }
        } }
        out
    }
    fn drop(&mut self, what: &str) { *self.rep.dropped.entry(what.to_string()).or_insert(0) += 1; }

    fn is_print(m: &Macro) -> bool {
        let n = m.path.to_token_stream().to_string().replace(' ', "");
        matches!(n.as_str(), "println" | "eprintln" | "print" | "eprint" | "log::info" | "log::debug" | "debug_assert" | "debug_assert_eq")
    }
    fn clean_block(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match &s {
                Stmt::Macro(m) if Self::is_print(&m.mac) => { self.drop("print statement"); continue; }
                Stmt::Expr(Expr::Macro(m), _) if Self::is_print(&m.mac) => { self.drop("print statement"); continue; }
                Stmt::Item(Item::Use(_)) => { self.drop("local use"); continue; }
                Stmt::Item(Item::Struct(_)) | Stmt::Item(Item::Impl(_)) => { self.drop("nested item"); continue; }
                Stmt::Item(Item::Fn(_)) => { self.drop("nested fn"); continue; }
                Stmt::Item(Item::Const(_)) => { self.drop("local const (inlined)"); continue; }
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn lets_for(&mut self, p: &Pat, v: TokenStream) -> TokenStream {
        let p2 = match p { Pat::Type(t) => &*t.pat, x => x };
        match p2 {
            Pat::Reference(r) => self.lets_for(&r.pat, quote!( (*#v) )),
            _ => {
                let mut d = vec![];
                let q = norm_pat(p2, &mut d);
                let dl: Vec<TokenStream> = d.iter().map(|(a, b)| quote!( let #a = *#b; )).collect();
                quote!( let #q = #v; #(#dl)* )
            }
        }
    }
    /// iterator-source expression of a `for`
    fn iter_src(&mut self, e: &Expr) -> TokenStream {
        if let Expr::Range(_) = strip(e) { return self.range(strip(e)); }
        let mut e2 = e.clone();
        // `for x in &v` / `for x in &mut v`
        self.visit_expr_mut(&mut e2);
        quote!( ForIt::for_it(#e2) )
    }
    fn range(&mut self, e: &Expr) -> TokenStream {
        if let Expr::Range(r) = e {
            let mut a = r.start.clone().map(|x| *x).unwrap_or(parse_quote!(0));
            let mut b = match &r.end { Some(b) => (**b).clone(), None => { self.rep.notes.push("open range".into()); parse_quote!(0) } };
            self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
            return match r.limits { RangeLimits::HalfOpen(_) => quote!( rng_it(#a, #b) ), RangeLimits::Closed(_) => quote!( rng_it_incl(#a, #b) ) };
        }
        unreachable!()
    }
    fn for_loop(&mut self, f: &ExprForLoop) -> TokenStream {
        let k = self.loop_no; self.loop_no += 1;
        let it = format_ident!("__it{}", k);
        let i = format_ident!("__i{}", k);
        let src = self.iter_src(&f.expr);
        // a borrowed array literal is bound first
        let (pre, src) = match strip(&f.expr) {
            Expr::Reference(r) => { let mut x = (*r.expr).clone(); self.visit_expr_mut(&mut x); if let Expr::Array(xs) = strip(&x) { let a = format_ident!("__src{}", k); let el = xs.elems.iter(); (quote!( let mut #a = Vec::new(); #( #a.push(#el); )* ), quote!( ForIt::for_it(&#a) )) } else { (quote!(), src) } }
            _ => (quote!(), src),
        };
        let inv = self.fc.loops.get(&k).cloned().unwrap_or_default();
        let inv = if inv.trim_start().starts_with("invariant_except_break") { ts(&inv) } else { let inv = ts(&inv); quote!( invariant #i <= #it.sp_len(), #inv ) };
        let before = self.ghost(&format!("before:{k}"));
        let after = self.ghost(&format!("after:{k}"));
        let ls = self.ghost(&format!("loopstart:{k}"));
        let le = self.ghost(&format!("loopend:{k}"));
        let lets = self.lets_for(&f.pat, quote!( #it.take_at(#i) ));
        let mut body = f.body.clone();
        self.visit_block_mut(&mut body);
        let stmts = &body.stmts;
        let lab = f.label.as_ref().map(|l| l.to_token_stream());
        quote!( #pre let mut #it = #src; let mut #i: usize = 0; #before
            #lab while #i < #it.len() #inv decreases #it.sp_len() - #i
            { #ls #lets #i = #i + 1; #(#stmts)* #le } ; #after )
    }
    fn while_loop(&mut self, w: &ExprWhile) -> TokenStream {
        let k = self.loop_no; self.loop_no += 1;
        let inv = ts(&self.fc.loops.get(&k).cloned().unwrap_or_default());
        let before = self.ghost(&format!("before:{k}"));
        let after = self.ghost(&format!("after:{k}"));
        let ls = self.ghost(&format!("loopstart:{k}"));
        let le = self.ghost(&format!("loopend:{k}"));
        let mut c = (*w.cond).clone();
        self.visit_expr_mut(&mut c);
        let mut body = w.body.clone();
        self.visit_block_mut(&mut body);
        let stmts = &body.stmts;
        let inv = if inv.is_empty() { quote!() } else { quote!( invariant #inv ) };
        quote!( #before while #c #inv { #ls #(#stmts)* #le } ; #after )
    }
    fn closure(&mut self, c: &ExprClosure, want: &str) -> TokenStream {
        let n = self.closure_no; self.closure_no += 1;
        self.rep.closures += 1;
        let ctx = tospec::Ctx { pures: self.env.pures };
        // params
        let mut params = vec![];
        let mut lets = TokenStream::new();
        let mut slets = TokenStream::new();
        let mut fail: Option<String> = None;
        for p in c.inputs.iter() {
            // a user-data argument of unit type carries nothing
            if let Pat::Type(t) = p { if t.ty.to_token_stream().to_string().replace(' ', "") == "&mut()" { self.drop("closure argument of type &mut ()"); continue; } }
            let (p2, ty) = match p { Pat::Type(t) => (&*t.pat, Some((*t.ty).clone())), x => (x, None) };
            let ty = ty.map(|mut t| { self.visit_type_mut(&mut t); quote!( : #t ) }).unwrap_or_default();
            match p2 {
                Pat::Ident(i) => { let id = &i.ident; params.push(quote!( #id #ty )); }
                _ => {
                    self.tmp += 1;
                    let id = format_ident!("__c{}", self.tmp);
                    params.push(quote!( #id #ty ));
                    lets.extend(self.lets_for(p2, quote!(#id)));
                    match ctx.pat_let(p2, quote!(#id)) { Ok((_, l)) => slets.extend(l), Err(e) => fail = Some(e) }
                }
            }
        }
        let spec = match fail { Some(e) => Err(e), None if want == "err" => Err(String::new()), None => ctx.expr(&c.body) };
        let mut body = (*c.body).clone();
        self.visit_expr_mut(&mut body);
        let req = self.fc.closures.get(&n).cloned().unwrap_or_default();
        let (ret_decl, req) = match req.strip_prefix("ret ") { Some(r) => { let (t, rest) = r.split_once('\n').unwrap_or((r, "")); (Some(ts(t)), rest.to_string()) } None => (None, req) };
        let req = ts(&req);
        let ret_ty = if let Some(t) = ret_decl { t } else { match &c.output { ReturnType::Type(_, t) => { let mut t = (**t).clone(); self.visit_type_mut(&mut t); quote!(#t) } _ => if want == "bool" { quote!(bool) } else { quote!(_) } } };
        let mv = &c.capture;
        let _ = mv;
        match spec {
            Ok(s) => quote!( |#(#params),*| -> (__r: #ret_ty) #req ensures same(__r, { #slets #s }) { #lets #body } ),
            Err(e) => {
                if !e.is_empty() { self.rep.unspec_closures.push(format!("closure {n}: {e}")); }
                if req.is_empty() {
                    if matches!(c.output, ReturnType::Default) { quote!( |#(#params),*| { #lets #body } ) } else { quote!( |#(#params),*| -> #ret_ty { #lets #body } ) }
                } else {
                    quote!( |#(#params),*| -> (__r: #ret_ty) #req { #lets #body } )
                }
            }
        }
    }
    fn stmt_list(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        for (idx, s) in stmts.into_iter().enumerate() {
            let last = idx + 1 == n;
            if let (Some((sub, vars)), Stmt::Expr(Expr::If(i), _)) = (&self.fc.outline, &s) {
                let scr = match &*i.cond { Expr::Let(l) => l.expr.to_token_stream().to_string().replace(' ', ""), _ => String::new() };
                let mut esc = Escapes(false); esc.visit_stmt(&s);
                if scr.contains(sub.as_str()) && i.else_branch.is_none() && !esc.0 {
                    let mut used = BTreeSet::new(); idents(s.to_token_stream(), &mut used);
                    let mut s2 = s.clone();
                    let ms = std::mem::replace(&mut self.mut_self, false);
                    self.visit_stmt_mut(&mut s2);
                    self.mut_self = ms;
                    let (mut ps, mut ar) = (TokenStream::new(), TokenStream::new());
                    for (n, t, a) in vars { if used.contains(n) { let n = format_ident!("{}", n); let (t, a) = (ts(t), ts(a)); ps.extend(quote!( , #n: #t )); ar.extend(quote!( #a, )); } }
                    let id = format_ident!("__blk_{}_{}", self.fc.path.rsplit("::").next().unwrap(), self.rep.outlined.len());
                    self.rep.outlined.push((ps, quote!( { #s2 } )));
                    let me = if self.mut_self { quote!(self_) } else { quote!(self) };
                    out.push(Stmt::Expr(Expr::Verbatim(quote!( #me.#id(#ar); )), None));
                    continue;
                }
            }
            let anch = self.fc.ghosts.iter().any(|(a, _)| a.starts_with("at:") || a.starts_with("post:"));
            let txt = if anch { s.to_token_stream().to_string().replace([' ', '\n'], "") } else { String::new() };
            if anch { let g = self.ghost_at("at:", &txt); if !g.is_empty() { out.push(Stmt::Expr(Expr::Verbatim(g), None)); } }
            match s {
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    let t = self.for_loop(&f);
                    out.push(Stmt::Expr(Expr::Verbatim(t), None));
                    let _ = last;
                }
                Stmt::Expr(Expr::While(w), _) => {
                    let t = self.while_loop(&w);
                    out.push(Stmt::Expr(Expr::Verbatim(t), None));
                }
                // E.for_each(|p| B)  ->  for p in E { B }
                Stmt::Expr(Expr::MethodCall(m), _) if m.method == "for_each" && m.args.len() == 1 && matches!(strip(&m.args[0]), Expr::Closure(_)) => {
                    if let Expr::Closure(c) = strip(&m.args[0]).clone() {
                        let p = &c.inputs[0];
                        let p = match p { Pat::Type(t) => (*t.pat).clone(), x => x.clone() };
                        let body = &c.body;
                        let recv = &m.receiver;
                        let f: ExprForLoop = ExprForLoop { attrs: vec![], label: None, for_token: Default::default(), pat: Box::new(p), in_token: Default::default(), expr: recv.clone(), body: match &**body { Expr::Block(b) => b.block.clone(), e => parse_quote!( { #e; } ) } };
                        let t = self.for_loop(&f);
                        out.push(Stmt::Expr(Expr::Verbatim(t), None));
                    }
                }
                Stmt::Local(mut l) => {
                    // `let (mut) f = |x| ...` closures keep their definition; type of the pattern rewritten
                    if let Some(init) = &mut l.init { self.visit_expr_mut(&mut init.expr); if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d); } }
                    self.visit_pat_mut(&mut l.pat);
                    if let Pat::Reference(_) = &l.pat {
                        let e = &l.init.as_ref().unwrap().expr;
                        let t = self.lets_for(&l.pat.clone(), quote!( (#e) ));
                        out.push(Stmt::Expr(Expr::Verbatim(t), None));
                    } else {
                        let mut names = vec![];
                        collect_idents(&l.pat, &mut names);
                        out.push(Stmt::Local(l));
                        for n in names { let k = { let c = self.let_no.entry(n.clone()).or_insert(0); *c += 1; *c - 1 }; let mut g = self.ghost(&format!("let:{n}#{k}")); g.extend(self.ghost(&format!("let:{n}"))); if !g.is_empty() { out.push(Stmt::Expr(Expr::Verbatim(g), None)); } }
                    }
                }
                mut s => {
                    self.visit_stmt_mut(&mut s);
                    if let Stmt::Expr(Expr::If(i), _) = &s { if !last && i.else_branch.is_none() && i.then_branch.stmts.is_empty() && plain_cond(&i.cond) { self.drop("empty if"); continue; } }
                    out.push(s);
                }
            }
            if anch && (!last || txt.ends_with(';')) { let g = self.ghost_at("post:", &txt); if !g.is_empty() { out.push(Stmt::Expr(Expr::Verbatim(g), None)); } }
        }
        b.stmts = out;
    }
}

fn plain_cond(e: &Expr) -> bool {
    match strip(e) { Expr::Path(_) => true, Expr::Field(f) => plain_cond(&f.base), Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && plain_cond(&u.expr), Expr::Binary(b) => matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && plain_cond(&b.left) && plain_cond(&b.right), _ => false }
}
/// every use of `x` in the block is a call of a reading method
struct OnlyReads<'s> { x: &'s str, uses: usize, reads: usize }
impl<'ast, 's> Visit<'ast> for OnlyReads<'s> {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) { if p.path.is_ident(self.x) { self.uses += 1; } }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let n = m.method.to_string();
        if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(self.x)) && (n.starts_with("should_") || n.starts_with("is_")) { self.reads += 1; }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'ast Macro) { let mut s = BTreeSet::new(); idents(m.tokens.clone(), &mut s); if s.contains(self.x) { self.uses += 1; } }
}
/// operands that are syntactically integers: native arithmetic (with native overflow checks)
fn int_like(e: &Expr) -> bool {
    match strip(e) {
        Expr::Lit(ExprLit { lit: Lit::Int(_), .. }) => true,
        Expr::MethodCall(m) => m.method == "len",
        Expr::Cast(c) => matches!(c.ty.to_token_stream().to_string().as_str(), "usize" | "u64" | "u32" | "i32" | "i64"),
        Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_)) => int_like(&b.left) || int_like(&b.right),
        _ => false,
    }
}

fn collect_idents(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Type(t) => collect_idents(&t.pat, out),
        Pat::Tuple(t) => for x in &t.elems { collect_idents(x, out) },
        _ => {}
    }
}

fn is_str_pat(p: &Pat) -> bool { !str_lits(p).is_empty() }
fn str_lits(p: &Pat) -> Vec<LitStr> {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => vec![s.clone()],
        Pat::Or(o) if o.cases.iter().all(|c| matches!(c, Pat::Lit(ExprLit { lit: Lit::Str(_), .. }))) => o.cases.iter().flat_map(str_lits).collect(),
        Pat::Paren(x) => str_lits(&x.pat),
        _ => vec![],
    }
}
fn mac_args(m: &Macro) -> Option<Vec<Expr>> {
    m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
}

impl<'a, 'b> VisitMut for Rw<'a, 'b> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::BareFn(_) = t { *t = parse_quote!(CFn); return; }
        if let Type::ImplTrait(i) = t {
            // impl Iterator<Item = T> -> It<T>
            if let Some(TypeParamBound::Trait(b)) = i.bounds.first() {
                let seg = b.path.segments.last().unwrap();
                if seg.ident == "Iterator" { if let PathArguments::AngleBracketed(a) = &seg.arguments { if let Some(GenericArgument::AssocType(at)) = a.args.first() { let mut y = at.ty.clone(); self.visit_type_mut(&mut y); *t = parse_quote!( It<#y> ); return; } } }
            }
        }
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                if s == "f64" { *t = parse_quote!(F64); return; }
                for pre in ["ndarray::", "std::time::", "std::path::", "std::sync::", "crate::", "std::fs::", "std::io::"] {
                    if let Some(_) = s.strip_prefix(pre) {
                        let last = p.path.segments.last().unwrap().clone();
                        let mut np = Path { leading_colon: None, segments: punctuated::Punctuated::new() };
                        np.segments.push(last);
                        p.path = np;
                        break;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.clean_block(b);
        self.stmt_list(b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::If(i) = e { if let Expr::Let(l) = &mut *i.cond { if let Pat::TupleStruct(t) = &mut *l.pat { if t.elems.len() == 1 { if let Pat::Ident(id) = &mut t.elems[0] { if id.by_ref.is_some() && id.mutability.is_some() {
            let n = id.ident.to_string();
            let mut o = OnlyReads { x: &n, uses: 0, reads: 0 };
            o.visit_block(&i.then_branch);
            if o.uses == o.reads { id.mutability = None; self.drop("unused `mut` in a `ref mut` pattern"); }
        } } } } } }
        match e {
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                let b = proc_macro2::Literal::u64_suffixed(tospec::float_bits(f).unwrap());
                *e = Expr::Verbatim(quote!( flit(#b) ));
                return;
            }
            Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => {
                if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = strip(expr) {
                    let b = proc_macro2::Literal::u64_suffixed((-f.base10_parse::<f64>().unwrap()).to_bits());
                    *e = Expr::Verbatim(quote!( flit(#b) ));
                    return;
                }
            }
            Expr::Path(p) => {
                let s = p.to_token_stream().to_string().replace(' ', "");
                if let Some(c) = s.strip_prefix("f64::") {
                    if c.chars().all(|c| c.is_uppercase() || c == '_') { let id = format_ident!("fconst_{}", c.to_lowercase()); *e = Expr::Verbatim(quote!( #id() )); }
                    else { let id = format_ident!("{}", c); *e = Expr::Verbatim(quote!( F64::#id )); }
                    return;
                }
                if let Some(o) = s.strip_prefix("Ordering::").or(s.strip_prefix("std::sync::atomic::Ordering::")) { if matches!(o, "Relaxed" | "SeqCst" | "Acquire" | "Release" | "AcqRel") { *e = Expr::Verbatim(quote!( AOrdering::Relaxed )); return; } }
                if self.mut_self && s == "self" { *e = Expr::Verbatim(quote!( self_ )); return; }
            }
            Expr::Match(mt) if mt.arms.iter().any(|a| is_str_pat(&a.pat)) && mt.arms.iter().all(|a| a.guard.is_none() && (is_str_pat(&a.pat) || matches!(a.pat, Pat::Wild(_)))) && matches!(mt.arms.last().map(|a| &a.pat), Some(Pat::Wild(_))) => {
                // match on string literals: the same chain of comparisons
                let mut x = (*mt.expr).clone();
                if let Expr::MethodCall(mc) = strip(&x).clone() { if mc.method == "as_str" && mc.args.is_empty() { x = (*mc.receiver).clone(); } }
                self.visit_expr_mut(&mut x);
                let mut out = TokenStream::new();
                for a in &mt.arms {
                    let mut b = (*a.body).clone();
                    self.visit_expr_mut(&mut b);
                    match &a.pat {
                        Pat::Wild(_) => { out.extend(quote!( { #b } )); }
                        p => { let lits = str_lits(p); let c: Vec<TokenStream> = lits.iter().map(|l| quote!( str_eq_(__m, #l) )).collect(); out.extend(quote!( if #(#c)||* { #b } else )); }
                    }
                }
                *e = Expr::Verbatim(quote!( { let __mo = #x; let __m = __mo.as_str_(); #out } ));
                return;
            }
            Expr::Closure(c) => { let c = c.clone(); *e = Expr::Verbatim(self.closure(&c, "")); return; }
            Expr::ForLoop(f) => { let f = f.clone(); let t = self.for_loop(&f); *e = Expr::Verbatim(quote!( { #t } )); return; }
            Expr::While(w) => { let w = w.clone(); let t = self.while_loop(&w); *e = Expr::Verbatim(quote!( { #t } )); return; }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                if t != "_" {
                    let mut x = (*c.expr).clone();
                    self.visit_expr_mut(&mut x);
                    let id = format_ident!("as_{}", t);
                    *e = Expr::Verbatim(quote!( (#x).#id() ));
                    return;
                }
            }
            Expr::Binary(b) => {
                let op = match b.op { BinOp::AddAssign(_) => Some(quote!(+)), BinOp::SubAssign(_) => Some(quote!(-)), BinOp::MulAssign(_) => Some(quote!(*)), BinOp::DivAssign(_) => Some(quote!(/)), _ => None };
                let m = match b.op { BinOp::Add(_) => "op_add", BinOp::Sub(_) => "op_sub", BinOp::Mul(_) => "op_mul", BinOp::Div(_) => "op_div", BinOp::Rem(_) => "op_rem", _ => "" };
                if !m.is_empty() && !int_like(&b.left) && !int_like(&b.right) {
                    let mut l = (*b.left).clone(); let mut r = (*b.right).clone();
                    self.visit_expr_mut(&mut l); self.visit_expr_mut(&mut r);
                    let id = format_ident!("{m}");
                    *e = Expr::Verbatim(quote!( (#l).#id(#r) ));
                    return;
                }
                if let Some(op) = op {
                    let l = &b.left; let r = &b.right;
                    let op: TokenStream = op;
                    let mut ne: Expr = parse2(quote!( #l = #l #op (#r) )).unwrap();
                    self.visit_expr_mut(&mut ne);
                    *e = ne;
                    return;
                }
            }
            Expr::Assign(a) => {
                if let Expr::Index(ix) = strip(&a.left).clone() {
                    let mut base = (*ix.expr).clone(); let mut i = (*ix.index).clone(); let mut r = (*a.right).clone();
                    self.visit_expr_mut(&mut base); self.visit_expr_mut(&mut i); self.visit_expr_mut(&mut r);
                    self.tmp += 1;
                    let t = format_ident!("__s{}", self.tmp);
                    *e = Expr::Verbatim(quote!( { let #t = #r; #base.set_at(#i, #t) } ));
                    return;
                }
            }
            Expr::Index(ix) => {
                if let Expr::Array(a) = strip(&ix.index) {
                    if a.elems.len() == 2 {
                        let mut base = (*ix.expr).clone(); let mut i = a.elems[0].clone(); let mut j = a.elems[1].clone();
                        self.visit_expr_mut(&mut base); self.visit_expr_mut(&mut i); self.visit_expr_mut(&mut j);
                        *e = Expr::Verbatim(quote!( #base.at2(#i, #j) ));
                        return;
                    }
                }
                if let Expr::Range(r) = strip(&ix.index).clone() {
                    let mut base = (*ix.expr).clone();
                    self.visit_expr_mut(&mut base);
                    let a = match r.start { Some(x) => { let mut x = *x; self.visit_expr_mut(&mut x); quote!( Some(#x) ) } None => quote!( None::<usize> ) };
                    let b = match r.end { Some(x) => { let mut x = *x; self.visit_expr_mut(&mut x); quote!( Some(#x) ) } None => quote!( None::<usize> ) };
                    *e = Expr::Verbatim(quote!( (*#base.slice_(#a, #b)) ));
                    return;
                }
            }
            Expr::Range(_) => { let x = e.clone(); *e = Expr::Verbatim(self.range(&x)); return; }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "random_range" && m.args.len() == 1 {
                    if let Expr::Range(r) = strip(&m.args[0]).clone() { if let (Some(a), Some(b)) = (r.start, r.end) {
                        let (mut a, mut b, mut x) = (*a, *b, (*m.receiver).clone());
                        self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); self.visit_expr_mut(&mut x);
                        *e = Expr::Verbatim(match r.limits { RangeLimits::HalfOpen(_) => quote!( #x.random_range_(#a, #b) ), RangeLimits::Closed(_) => quote!( #x.random_range_incl_(#a, #b) ) });
                        return;
                    } }
                }
                // (X[a..b]).method(..)
                if let Expr::Index(ix) = strip(&m.receiver).clone() {
                    if let Expr::Range(r) = strip(&ix.index).clone() {
                        let mut base = (*ix.expr).clone();
                        self.visit_expr_mut(&mut base);
                        let a = match r.start { Some(x) => { let mut x = *x; self.visit_expr_mut(&mut x); quote!( #x ) } None => quote!( 0 ) };
                        let b = match r.end { Some(x) => { let mut x = *x; self.visit_expr_mut(&mut x); quote!( #x ) } None => quote!( #base.len() ) };
                        let mut args = vec![];
                        for x in m.args.iter() { let mut x = x.clone(); self.visit_expr_mut(&mut x); args.push(x); }
                        let id = format_ident!("range_{}", name);
                        *e = Expr::Verbatim(quote!( #base.#id(#a, #b, #(#args),*) ));
                        return;
                    }
                }
                let new = match name.as_str() {
                    "iter" => "it", "iter_mut" => "it_mut", "into_iter" => "into_it", "par_iter" => "par_it", "par_iter_mut" => "par_it_mut",
                    "into_par_iter" => "into_par_it", "outer_iter" => "outer_it", "drain" => "drain_it",
                    "clone" | "to_owned" => "cl", "max" => "max_", "min" => "min_", "clamp" => "clamp_", "expect" => "expect_", "unwrap" => "unwrap_",
                    "to_vec" => "to_vec_", "copied" => "copied_", "cloned" => "cloned_", "chunks" => "chunks_", "random" => "random_", "as_slice" => "as_slice_",
                    "last" => "last_", "first" => "first_", "get" => "get_", "truncate" => "truncate_", "retain" => "retain_", "extend" => "extend_", "to_string" => "to_string_",
                    "swap_remove" => "swap_remove_", "is_some_and" => "is_some_and_", "map_or" => "map_or_", "and_then" => "and_then_", "ok_or" => "ok_or_", "ok_or_else" => "ok_or_else_", "unwrap_or_else" => "unwrap_or_else_", "unwrap_or_default" => "unwrap_or_default_", "unwrap_or" => "unwrap_or_", "map_err" => "map_err_", "as_str" => "as_str_", "saturating_sub" => "saturating_sub_", "wrapping_add" => "wrapping_add_", "checked_add" => "checked_add_", "saturating_add" => "saturating_add_", "is_none_or" => "is_none_or_", "parse" => "parse_", "starts_with" => "starts_with_", "ends_with" => "ends_with_", "strip_prefix" => "strip_prefix_", "strip_suffix" => "strip_suffix_", "into" => "into_", "to_lowercase" => "to_lowercase_", "remove" => "remove_", "shuffle" => "shuffle_", "concat" => "concat_", "swap" => "swap_", "is_multiple_of" => "is_multiple_of_",
                    "map" if matches!(strip(&m.receiver), Expr::MethodCall(r) if is_opt_method(&r.method.to_string())) || self.is_opt_expr(&m.receiver) => "omap_",
                    x => x,
                };
                let want = match name.as_str() { "all" | "any" | "filter" | "retain" | "position" | "take_while" | "skip_while" | "partition" | "is_some_and" | "find" => "bool", "map_err" | "ok_or_else" => "err", _ => "" };
                self.visit_expr_mut(&mut m.receiver);
                if let Some(t) = &mut m.turbofish { for a in t.args.iter_mut() { if let GenericArgument::Type(t) = a { self.visit_type_mut(t); } } }
                for a in m.args.iter_mut() {
                    if let Expr::Closure(c) = strip(a) { let c = c.clone(); *a = Expr::Verbatim(self.closure(&c, want)); } else { self.visit_expr_mut(a); }
                    // a constructor used as a function value
                    if matches!(name.as_str(), "map_err" | "map" | "and_then" | "map_or") { if let Expr::Path(p) = strip(a).clone() { if p.path.segments.len() == 2 && p.path.segments[1].ident.to_string().starts_with(|c: char| c.is_uppercase()) {
                        *a = Expr::Verbatim(quote!( |__e| -> (__r: _) ensures same(__r, #p(__e)) { #p(__e) } ));
                    } } }
                }
                m.method = Ident::new(new, m.method.span());
                return;
            }
            Expr::Call(c) => {
                let s = c.func.to_token_stream().to_string().replace(' ', "");
                let ren = match s.as_str() {
                    "std::mem::take" | "mem::take" | "core::mem::take" => Some("mem_take"),
                    "std::mem::replace" | "mem::replace" => Some("mem_replace"),
                    "std::mem::swap" | "mem::swap" => Some("mem_swap"),
                    "std::time::Instant::now" | "Instant::now" => Some("instant_now"),
                    "chrono::Utc::now" | "Utc::now" => Some("utc_now_"),
                    "rayon::current_num_threads" => Some("num_threads_"),
                    "std::hint::black_box" => Some("black_box_"),
                    "usize::max" | "std::cmp::max" => Some("max_fn"),
                    "usize::min" | "std::cmp::min" => Some("min_fn"),
                    _ => None,
                };
                if c.args.len() == 2 && c.args[1].to_token_stream().to_string().replace(' ', "") == "&mut()" && matches!(strip(&c.func), Expr::Path(_)) {
                    let mut f = (*c.func).clone(); let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut f); self.visit_expr_mut(&mut a);
                    *e = Expr::Verbatim(quote!( #f.call_(#a) ));
                    return;
                }
                if c.args.is_empty() { if let Expr::Path(p) = strip(&c.func).clone() { let n = p.path.segments.len(); if n == 2 && p.path.segments[1].ident == "default" && p.path.segments[1].arguments.is_empty() { let t = &p.path.segments[0]; *e = Expr::Verbatim(quote!( #t::default_default() )); return; } } }
                if let Some(r) = ren { let id = format_ident!("{r}"); c.func = Box::new(parse_quote!(#id)); }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.to_token_stream().to_string().replace(' ', "");
                match n.as_str() {
                    "vec" => {
                        if let Some(args) = mac_args(&m.mac) {
                            let mut v = vec![];
                            for mut a in args { self.visit_expr_mut(&mut a); v.push(a); }
                            *e = Expr::Verbatim(quote!( vec![#(#v),*] ));
                            return;
                        }
                        // vec![x; n]
                        let toks = m.mac.tokens.clone();
                        if let Ok(r) = parse2::<ExprRepeat>(quote!( [#toks] )) {
                            let mut x = (*r.expr).clone(); let mut l = (*r.len).clone();
                            self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut l);
                            *e = Expr::Verbatim(quote!( vec_repeat(#x, #l) ));
                            return;
                        }
                    }
                    "array" | "ndarray::array" => {
                        if let Some(args) = mac_args(&m.mac) {
                            let mut v = vec![];
                            for mut a in args { self.visit_expr_mut(&mut a); v.push(a); }
                            *e = Expr::Verbatim(quote!( Array1::from_vec(vec![#(#v),*]) ));
                            return;
                        }
                    }
                    "format" => {
                        if let Some(args) = mac_args(&m.mac) {
                            let fmt = args.first().cloned();
                            if let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = fmt {
                                let mut rest = vec![];
                                for mut a in args.into_iter().skip(1) { self.visit_expr_mut(&mut a); rest.push(a); }
                                let t = match fmt_parts(&s.value(), &rest) { Some(t) => t, None => { let id = format_ident!("fmt{}_", rest.len()); quote!( #id(#s, #(&#rest),*) ) } };
                                *e = Expr::Verbatim(t);
                                return;
                            }
                        }
                    }
                    "unreachable" | "panic" => { *e = Expr::Verbatim(quote!( panic_() )); return; }
                    "matches" => {
                        let toks = m.mac.tokens.clone();
                        struct M(Expr, Pat);
                        impl parse::Parse for M { fn parse(i: parse::ParseStream) -> Result<Self> { let a = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi(i)?; Ok(M(a, p)) } }
                        if let Ok(M(mut a, p)) = parse2::<M>(toks) {
                            self.visit_expr_mut(&mut a);
                            *e = Expr::Verbatim(quote!( (match #a { #p => true, _ => false }) ));
                            return;
                        }
                    }
                    "println" | "eprintln" => { self.drop("print expression"); *e = parse_quote!( () ); return; }
                    _ => { self.rep.notes.push(format!("macro {n}")); }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl<'a, 'b> Rw<'a, 'b> {
    fn is_opt_expr(&self, e: &Expr) -> bool {
        // `self.field.map(..)`, `opt.map(..)`: a field or variable, never an iterator in this code base
        matches!(strip(e), Expr::Field(_) | Expr::Path(_))
    }
}
/// `format!("a{}b{:06}", x, y)` as a concatenation of its parts
fn fmt_parts(f: &str, rest: &[Expr]) -> Option<TokenStream> {
    let mut out: Vec<TokenStream> = vec![];
    let mut lit = String::new();
    let mut next = 0;
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{'); }
            '}' => { if it.next() != Some('}') { return None; } lit.push('}'); }
            '{' => {
                let mut spec = String::new();
                loop { match it.next()? { '}' => break, c => spec.push(c) } }
                let (arg, sp) = match spec.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (spec.clone(), String::new()) };
                let a = if arg.is_empty() { next += 1; rest.get(next - 1)?.to_token_stream() } else if let Ok(k) = arg.parse::<usize>() { rest.get(k)?.to_token_stream() } else { let id: Ident = parse_str(&arg).ok()?; quote!( #id ) };
                if !lit.is_empty() { let l = std::mem::take(&mut lit); out.push(quote!( flit_(#l) )); }
                let zero = sp.strip_prefix('0').and_then(|w| w.parse::<usize>().ok());
                out.push(if sp.is_empty() { quote!( fshow_(&#a) ) } else if let Some(w) = zero { quote!( fzero_(&#a, #w) ) } else { quote!( fother_(&#a, #sp) ) });
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() || out.is_empty() { out.push(quote!( flit_(#lit) )); }
    let mut o = out.into_iter();
    let first = o.next()?;
    Some(o.fold(first, |a, b| quote!( fcat_(#a, #b) )))
}
fn is_opt_method(n: &str) -> bool {
    matches!(n, "as_ref" | "as_mut" | "min_by" | "max_by" | "ok" | "last" | "first" | "and_then" | "file_name" | "best_solution" | "next" | "position" | "copied" | "get" | "pop" | "take" | "min_by_key" | "observer")
}

pub struct Out { pub body: TokenStream }

pub fn rewrite_fn(env: &Env, fc: &FnC, sig: &Signature, block: &Block, rep: &mut Report) -> (Signature, TokenStream) {
    let mut sig = sig.clone();
    let mut block = block.clone();
    // local consts are inlined
    let mut consts = env.consts.clone();
    for s in &block.stmts { if let Stmt::Item(Item::Const(c)) = s { consts.insert(c.ident.to_string(), (*c.expr).clone()); } }
    let env2 = Env { pures: env.pures, consts: &consts, helpers: env.helpers, free_helpers: env.free_helpers };
    let mut inl = Inline { env: &env2, rep, depth: 0, n: 0 };
    inl.visit_block_mut(&mut block);
    crate::desugar::De::default().visit_block_mut(&mut block);
    let mut lits: BTreeSet<String> = BTreeSet::new();
    let mut mut_self = false;
    for i in sig.inputs.iter_mut() {
        match i {
            FnArg::Receiver(r) => { if r.reference.is_none() && r.mutability.is_some() { r.mutability = None; mut_self = true; } }
            FnArg::Typed(_) => {}
        }
    }
    let mut rw = Rw { env: &env2, fc, rep, loop_no: 0, closure_no: 0, tmp: 0, mut_self, let_no: BTreeMap::new() };
    let mut params_mut: Vec<TokenStream> = vec![];
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            rw.visit_type_mut(&mut t.ty);
            if let Pat::Ident(pi) = &mut *t.pat { if pi.mutability.is_some() { pi.mutability = None; let id = &pi.ident; params_mut.push(quote!( let mut #id = #id; )); } }
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output { rw.visit_type_mut(t); }
    rw.visit_block_mut(&mut block);
    if fc.lits {
        fn of(t: TokenStream, out: &mut BTreeSet<String>) {
            let v: Vec<proc_macro2::TokenTree> = t.into_iter().collect();
            for (i, t) in v.iter().enumerate() { match t {
                proc_macro2::TokenTree::Literal(l) => if let Ok(l) = parse_str::<LitStr>(&l.to_string()) { let text = v.get(i + 2).map(|x| x.to_string() == "to_string_").unwrap_or(false); if !text && l.value().len() <= 12 && !l.value().is_empty() { out.insert(l.value()); } },
                proc_macro2::TokenTree::Group(g) => of(g.stream(), out), _ => {} } }
        }
        of(block.to_token_stream(), &mut lits);
    }
    let mut start = rw.ghost("start");
    for l in &lits {
        let n = l.chars().count(); let last = l.chars().last().unwrap();
        let mut f = quote!( #l @ .len() == #n && #l @ .last() == #last );
        if !l.contains('/') { f.extend(quote!( && !#l @ .contains('/') )); }
        start.extend(quote!( assert(#f) by { reveal_strlit(#l); } ));
    }
    let end = rw.ghost("end");
    let resg = rw.ghost("result");
    let loops = rw.loop_no;
    rep.loops = loops;
    let mut stmts: Vec<TokenStream> = block.stmts.iter().map(|s| s.to_token_stream()).collect();
    if !resg.is_empty() {
        if matches!(block.stmts.last(), Some(Stmt::Expr(_, None))) {
            let l = stmts.pop().unwrap();
            let r = format_ident!("{}", if fc.ret.is_empty() { "__ret" } else { fc.ret.as_str() });
            stmts.push(quote!( let #r = #l; #resg #r ));
        } else { stmts.push(resg); }
    }
    if !end.is_empty() {
        // ghost code before the tail expression
        let has_tail = matches!(block.stmts.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Verbatim(_)) || true);
        let tail_is_loop = match block.stmts.last() { Some(Stmt::Expr(Expr::Verbatim(t), None)) => t.to_string().starts_with("let mut __it"), _ => false };
        if has_tail && !tail_is_loop {
            let l = stmts.pop().unwrap();
            stmts.push(end);
            stmts.push(l);
        } else { stmts.push(end); }
    }
    let ms = if mut_self { quote!( let mut self_ = self; ) } else { quote!() };
    // `hide(..)` headers have to come first
    let st = start.to_string();
    let mut cut = 0;
    while st[cut..].trim_start().starts_with("hide") { match st[cut..].find(';') { Some(k) => cut += k + 1, None => break } }
    let (hides, start) = (ts(&st[..cut]), if cut > 0 { ts(&st[cut..]) } else { start });
    let body = quote!( { #hides #ms #(#params_mut)* #start #(#stmts)* } );
    let _: BTreeSet<u8> = BTreeSet::new();
    (sig, body)
}
