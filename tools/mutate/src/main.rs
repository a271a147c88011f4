//! Development tool, not part of any check: puts many small faults into a copy
//! of the sources, each switched on by its number in the environment variable
//! MU at run time. Usage: mutate <src dir> <list file> [<drop file>] files...
use proc_macro2::Span;
use std::collections::HashSet;
use std::fmt::Write;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

struct V<'a> {
    src: &'a str,
    file: &'a str,
    ins: Vec<(usize, i64, String)>,
    list: &'a mut String,
    next: &'a mut usize,
    drop: &'a HashSet<usize>,
    depth: i64,
}
fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}
fn has_let(e: &Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr_let(&mut self, _: &'a ExprLet) {
            self.0 = true;
        }
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}
impl<'a> V<'a> {
    /// a new mutant; None if it is dropped
    fn id(&mut self, sp: Span, kind: &str) -> Option<usize> {
        let n = *self.next;
        *self.next += 1;
        if self.drop.contains(&n) {
            return None;
        }
        let (a, b) = rng(sp);
        let t: String = self.src[a..b].split_whitespace().collect::<Vec<_>>().join(" ").chars().take(90).collect();
        writeln!(self.list, "{}\t{}\t{}\t{}\t{}\t{}", n, self.file, sp.start().line, sp.end().line, kind, t).unwrap();
        Some(n)
    }
    fn wrap(&mut self, sp: Span, pre: String, post: String) {
        let (a, b) = rng(sp);
        self.ins.push((a, self.depth, pre));
        self.ins.push((b, -self.depth, post));
    }
    fn text(&self, sp: Span) -> &'a str {
        let (a, b) = rng(sp);
        &self.src[a..b]
    }
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || (a.path().is_ident("cfg") && matches!(&a.meta, Meta::List(l) if l.tokens.to_string().contains("test"))))
}
impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_pat(&mut self, _: &'ast Pat) {}
    fn visit_type(&mut self, _: &'ast Type) {}
    fn visit_attribute(&mut self, _: &'ast Attribute) {}
    fn visit_item_const(&mut self, _: &'ast ItemConst) {}
    fn visit_item_static(&mut self, _: &'ast ItemStatic) {}
    fn visit_item_macro(&mut self, _: &'ast ItemMacro) {}
    fn visit_item_enum(&mut self, _: &'ast ItemEnum) {}
    fn visit_generic_argument(&mut self, _: &'ast GenericArgument) {}
    fn visit_item_mod(&mut self, i: &'ast ItemMod) {
        if !is_test(&i.attrs) {
            visit::visit_item_mod(self, i);
        }
    }
    fn visit_item_fn(&mut self, i: &'ast ItemFn) {
        if is_test(&i.attrs) || i.sig.constness.is_some() {
            return;
        }
        visit::visit_item_fn(self, i);
    }
    fn visit_impl_item_fn(&mut self, i: &'ast ImplItemFn) {
        if i.sig.constness.is_some() {
            return;
        }
        visit::visit_impl_item_fn(self, i);
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        self.depth += 1;
        if let Stmt::Expr(e, Some(_)) = s {
            if matches!(e, Expr::MethodCall(_) | Expr::Call(_) | Expr::Try(_) | Expr::Assign(_) | Expr::Binary(_)) {
                if let Some(n) = self.id(s.span(), "del") {
                    self.wrap(s.span(), format!("if !crate::mu::on({}) {{ ", n), " }".into());
                }
            }
        }
        self.depth += 1;
        visit::visit_stmt(self, s);
        self.depth -= 2;
    }
    fn visit_arm(&mut self, a: &'ast Arm) {
        visit::visit_arm(self, a);
    }
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        self.depth += 1;
        let last = m.arms.last();
        let open = last.is_some_and(|l| l.guard.is_none() && match &l.pat { Pat::Wild(_) => true, Pat::Ident(i) => i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_'), _ => false });
        if open {
            for a in &m.arms[..m.arms.len() - 1] {
                match &a.guard {
                    None => {
                        if let Some(n) = self.id(a.pat.span(), "arm") {
                            let (_, e) = rng(a.pat.span());
                            self.ins.push((e, -self.depth, format!(" if !crate::mu::on({}) ", n)));
                        }
                    }
                    Some((_, g)) if !has_let(g) => {
                        if let Some(n) = self.id(g.span(), "arm") {
                            self.wrap(g.span(), format!("!crate::mu::on({}) && (", n), ")".into());
                        }
                    }
                    _ => {}
                }
            }
        }
        self.depth += 1;
        visit::visit_expr_match(self, m);
        self.depth -= 2;
    }
    fn visit_expr_if(&mut self, i: &'ast ExprIf) {
        self.depth += 1;
        if !has_let(&i.cond) {
            if let Some(n) = self.id(i.cond.span(), "if!") {
                self.wrap(i.cond.span(), format!("(crate::mu::on({}) ^ (", n), "))".into());
            }
        }
        self.depth += 1;
        visit::visit_expr_if(self, i);
        self.depth -= 2;
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        self.depth += 1;
        let alt = match b.op {
            BinOp::Lt(_) => "<=",
            BinOp::Le(_) => "<",
            BinOp::Gt(_) => ">=",
            BinOp::Ge(_) => ">",
            BinOp::Eq(_) => "!=",
            BinOp::Ne(_) => "==",
            BinOp::And(_) => "||",
            BinOp::Or(_) => "&&",
            BinOp::Add(_) => "-",
            BinOp::Sub(_) => "+",
            BinOp::Mul(_) => "/",
            BinOp::Div(_) => "*",
            BinOp::Rem(_) => "/",
            _ => "",
        };
        let le = Expr::Binary(b.clone());
        if !alt.is_empty() && !has_let(&le) {
            if let Some(n) = self.id(b.span(), alt) {
                let orig = format!("{} {} {}", self.text(b.left.span()), alt, self.text(b.right.span()));
                self.wrap(b.span(), format!("(if crate::mu::on({}) {{ {} }} else {{ ", n, orig.replace('\n', " ")), " })".into());
            }
        }
        self.depth += 1;
        visit::visit_expr_binary(self, b);
        self.depth -= 2;
    }
    fn visit_expr_lit(&mut self, l: &'ast ExprLit) {
        self.depth += 1;
        match &l.lit {
            Lit::Bool(b) => {
                if let Some(n) = self.id(b.span(), "bool") {
                    self.wrap(b.span(), format!("(crate::mu::on({}) ^ ", n), ")".into());
                }
            }
            Lit::Int(i) => {
                if let Some(n) = self.id(i.span(), "int+1") {
                    self.wrap(i.span(), "(".into(), format!(" + if crate::mu::on({}) {{ 1 }} else {{ 0 }})", n));
                }
            }
            Lit::Str(i) => {
                if let Some(n) = self.id(i.span(), "str") {
                    let v = i.value();
                    self.wrap(i.span(), format!("(if crate::mu::on({}) {{ {:?} }} else {{ ", n, if v.is_empty() { "~".to_string() } else { v.clone() + "~" }), "})".into());
                }
            }
            _ => {}
        }
        self.depth -= 1;
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (dir, listf, dropf) = (&a[1], &a[2], &a[3]);
    let drop: HashSet<usize> = std::fs::read_to_string(dropf).unwrap_or_default().split_whitespace().filter_map(|v| v.parse().ok()).collect();
    let mut list = String::new();
    let mut next = 1;
    for f in &a[4..] {
        let p = format!("{}/{}", dir, f);
        let src = std::fs::read_to_string(&p).unwrap();
        let ast = parse_file(&src).unwrap();
        let mut v = V { src: &src, file: f, ins: vec![], list: &mut list, next: &mut next, drop: &drop, depth: 0 };
        v.visit_file(&ast);
        // at one position: closing parts (inner first), then opening parts (outer first)
        let mut ins = v.ins;
        ins.sort_by_key(|(p, d, _)| (*p, *d > 0, *d));
        let mut o = String::new();
        let mut at = 0;
        for (p, _, t) in ins {
            o.push_str(&src[at..p]);
            o.push_str(&t);
            at = p;
        }
        o.push_str(&src[at..]);
        std::fs::write(&p, o).unwrap();
    }
    std::fs::write(listf, list).unwrap();
}
