//! cfg evaluation: drops items/statements/expressions/fields whose #[cfg] is false for the
//! chosen feature set, and strips all attributes and doc comments.
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn eval(meta: &Meta, f: &[String]) -> bool {
    match meta {
        Meta::Path(p) => {
            // test, kani, doctest, debug_assertions ... : all off except debug_assertions
            p.is_ident("debug_assertions")
        }
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    return f.iter().any(|x| *x == s.value());
                }
            }
            if nv.path.is_ident("target_pointer_width") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value { return s.value() == "64"; }
            }
            false
        }
        Meta::List(l) => {
            let inner: punctuated::Punctuated<Meta, Token![,]> =
                l.parse_args_with(punctuated::Punctuated::parse_terminated).unwrap_or_default();
            if l.path.is_ident("not") { !inner.iter().any(|m| eval(m, f)) }
            else if l.path.is_ident("all") { inner.iter().all(|m| eval(m, f)) }
            else if l.path.is_ident("any") { inner.iter().any(|m| eval(m, f)) }
            else { false }
        }
    }
}

pub fn keep(attrs: &[Attribute], f: &[String]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                if let Ok(m) = l.parse_args::<Meta>() {
                    if !eval(&m, f) { return false; }
                }
            }
        }
    }
    true
}

struct V<'a> { f: &'a [String] }

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs, Item::Enum(x) => &x.attrs, Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs, Item::Mod(x) => &x.attrs, Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs, Item::Type(x) => &x.attrs, Item::Use(x) => &x.attrs,
        Item::Static(x) => &x.attrs, Item::Macro(x) => &x.attrs,
        _ => &[],
    }
}
fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs, Expr::If(x) => &x.attrs, Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs, Expr::Assign(x) => &x.attrs, Expr::ForLoop(x) => &x.attrs,
        Expr::While(x) => &x.attrs, Expr::Match(x) => &x.attrs, Expr::Macro(x) => &x.attrs,
        Expr::Return(x) => &x.attrs, Expr::Try(x) => &x.attrs, Expr::Unsafe(x) => &x.attrs,
        Expr::Tuple(x) => &x.attrs, Expr::Struct(x) => &x.attrs, Expr::Path(x) => &x.attrs,
        Expr::Let(x) => &x.attrs, Expr::Loop(x) => &x.attrs, Expr::Field(x) => &x.attrs,
        Expr::Binary(x) => &x.attrs,
        _ => &[],
    }
}

impl<'a> VisitMut for V<'a> {
    fn visit_file_mut(&mut self, n: &mut File) {
        n.items.retain(|i| keep(item_attrs(i), self.f));
        visit_mut::visit_file_mut(self, n);
    }
    fn visit_item_mod_mut(&mut self, n: &mut ItemMod) {
        if let Some((_, items)) = &mut n.content { items.retain(|i| keep(item_attrs(i), self.f)); }
        visit_mut::visit_item_mod_mut(self, n);
    }
    fn visit_item_impl_mut(&mut self, n: &mut ItemImpl) {
        n.items.retain(|i| match i {
            ImplItem::Fn(x) => keep(&x.attrs, self.f),
            ImplItem::Const(x) => keep(&x.attrs, self.f),
            _ => true,
        });
        visit_mut::visit_item_impl_mut(self, n);
    }
    fn visit_fields_named_mut(&mut self, n: &mut FieldsNamed) {
        n.named = std::mem::take(&mut n.named).into_iter().filter(|x| keep(&x.attrs, self.f)).collect();
        visit_mut::visit_fields_named_mut(self, n);
    }
    fn visit_item_enum_mut(&mut self, n: &mut ItemEnum) {
        n.variants = std::mem::take(&mut n.variants).into_iter().filter(|x| keep(&x.attrs, self.f)).collect();
        visit_mut::visit_item_enum_mut(self, n);
    }
    fn visit_expr_match_mut(&mut self, n: &mut ExprMatch) {
        n.arms.retain(|x| keep(&x.attrs, self.f));
        visit_mut::visit_expr_match_mut(self, n);
    }
    fn visit_expr_struct_mut(&mut self, n: &mut ExprStruct) {
        n.fields = std::mem::take(&mut n.fields).into_iter().filter(|x| keep(&x.attrs, self.f)).collect();
        if n.dot2_token.is_some() && !n.fields.empty_or_trailing() { n.fields.push_punct(Default::default()); }
        visit_mut::visit_expr_struct_mut(self, n);
    }
    fn visit_block_mut(&mut self, n: &mut Block) {
        n.stmts.retain(|s| match s {
            Stmt::Local(l) => keep(&l.attrs, self.f),
            Stmt::Item(i) => keep(item_attrs(i), self.f),
            Stmt::Expr(e, _) => keep(expr_attrs(e), self.f),
            Stmt::Macro(m) => keep(&m.attrs, self.f),
        });
        // Several complementary #[cfg] blocks can leave one block expression with a trailing
        // position: nothing to do, syn keeps the missing semicolon.
        visit_mut::visit_block_mut(self, n);
    }
    fn visit_attributes_mut(&mut self, n: &mut Vec<Attribute>) {
        n.retain(|a| a.path().is_ident("derive"));
    }
}

pub fn apply(f: &mut File, feats: &[String]) {
    V { f: feats }.visit_file_mut(f);
}
