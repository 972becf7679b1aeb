//! The state of the file system as a ghost argument: in a module with a `@thread` directive, the functions
//! named there get one more parameter `fs__: &mut Fs`, and every call of one of them, of a function of
//! `std::fs`, and of a method that looks at the file system (`exists`, ...) passes it on. The parameter has
//! no counterpart at run time; nothing else of the text changes.
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const LOOKS: [&str; 5] = ["exists", "is_file", "is_dir", "try_exists", "read_dir"];

struct Th<'a>(&'a [String]);
impl VisitMut for Th<'_> {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = segs.len();
            let fsop = n >= 2 && segs[n - 2] == "fs";
            let own = self.0.contains(&segs[n - 1]) && (n == 1 || segs[n - 2] == "Self" || segs[n - 2] == "CheckpointManager");
            if fsop { let id = p.path.segments[n - 1].ident.clone(); c.func = Box::new(parse_quote!( fs::#id )); }
            if fsop || own { c.args.push(parse_quote!(fs__)); }
        }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        let n = m.method.to_string();
        if LOOKS.contains(&n.as_str()) || (self.0.contains(&n) && m.receiver.to_token_stream().to_string() == "self") { m.args.push(parse_quote!(fs__)); }
    }
}

pub fn apply(f: &mut File, names: &[String]) {
    for i in f.items.iter_mut() {
        match i {
            Item::Fn(x) => { Th(names).visit_block_mut(&mut x.block); if names.contains(&x.sig.ident.to_string()) { x.sig.inputs.push(parse_quote!( fs__: &mut Fs )); } }
            Item::Impl(im) if im.trait_.is_none() => for it in im.items.iter_mut() { if let ImplItem::Fn(x) = it {
                Th(names).visit_block_mut(&mut x.block);
                if names.contains(&x.sig.ident.to_string()) { x.sig.inputs.push(parse_quote!( fs__: &mut Fs )); }
            } },
            _ => {}
        }
    }
}
