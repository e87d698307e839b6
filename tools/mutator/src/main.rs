//! Development tool, used by no check: rewrites a copy of phoenix-v1 so that one build holds
//! every mutant ("mutant schemata"), each behind `crate::mutid::get() == N`.
//!
//!   mutator <src dir of the copy> <list out> [excluded ids file]
//!
//! Ids are stable from one invocation to the next on the same sources.
use quote::{quote, ToTokens};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    next: u32,
    file: String,
    func: String,
    excl: HashSet<u32>,
    list: Vec<String>,
}

fn s(t: &impl ToTokens) -> String {
    let x = t.to_token_stream().to_string();
    if x.len() > 160 { format!("{}...", x.chars().take(160).collect::<String>()) } else { x }
}

const SWAPS: &[(&str, &str)] = &[
    ("base_account", "quote_account"), ("base_vault", "quote_vault"), ("base_params", "quote_params"),
    ("base_lot_size", "quote_lot_size"), ("bids", "asks"), ("base_lots_free", "base_lots_locked"),
    ("quote_lots_free", "quote_lots_locked"), ("last_valid_slot", "last_valid_unix_timestamp_in_seconds"),
    ("Bid", "Ask"), ("base", "quote"), ("base_mint", "quote_mint"), ("slot", "unix_timestamp"),
    ("current_slot", "current_unix_timestamp"), ("num_base_lots_in", "num_base_lots_out"),
    ("num_quote_lots_in", "num_quote_lots_out"), ("num_base_lots_in", "num_quote_lots_in"),
    ("num_base_lots_out", "num_quote_lots_out"), ("min", "max"), ("is_some", "is_none"),
    ("base_lots_in", "base_lots_out"), ("quote_lots_in", "quote_lots_out"),
    ("collected_quote_lot_fees", "unclaimed_quote_lot_fees"), ("num_bids", "num_asks"),
    ("bids_size", "asks_size"), ("authority", "successor"), ("trader", "signer"), ("payer", "trader"),
    ("checked_sub", "checked_add"), ("saturating_sub", "wrapping_sub"), ("base_lots", "quote_lots"),
    ("base_atoms", "quote_atoms"), ("base_lots_released", "quote_lots_released"),
    ("maker_id", "taker_id"), ("next", "next_back"), ("base_params", "quote_params"),
    ("Ok", "Err"), ("first", "last"), ("seat", "market"), ("any", "all"),
    ("num_base_atoms_to_withdraw", "num_quote_atoms_to_withdraw"),
    ("num_base_atoms_to_deposit", "num_quote_atoms_to_deposit"),
    ("fee_recipient", "authority"), ("new_signer", "signer"), ("vault_key", "mint_key"),
    ("size_in_base_lots", "price_in_ticks"), ("lot_size", "decimals"),
    ("base_lots_to_post", "quote_lots_to_post"), ("base_lots_removed","base_lots_remaining"),
    ("num_base_lots", "num_quote_lots"), ("min_base_lots_to_fill", "min_quote_lots_to_fill"),
    ("Abort", "CancelProvide"), ("Active", "PostOnly"), ("Paused", "Closed"), ("Closed", "Tombstoned"),
    ("PostOnly", "Paused"), ("Approved", "Retired"), ("NotApproved", "Approved"),
    ("unclaimed_quote_lot_fees", "collected_quote_lot_fees"), ("base_lot_budget", "quote_lot_budget"),
    ("adjusted_quote_lot_budget", "quote_lot_budget"), ("matched_base_lots", "matched_quote_lots"),
    ("matched_adjusted_quote_lots", "matched_quote_lots"), ("limit_price_in_ticks", "price_in_ticks"),
    ("use_only_deposited_funds", "fail_silently_on_insufficient_funds"),
    ("taker_fee_bps", "tick_size_in_quote_lots_per_base_unit"), ("round_up","round_down"),
];

/// replaces the k-th candidate token by its partner, in a token stream
fn swap_tokens(ts: proc_macro2::TokenStream, k: &mut i32, hit: &mut Option<String>) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, Ident, Literal, TokenTree};
    let mut out = Vec::new();
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), swap_tokens(g.stream(), k, hit));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            TokenTree::Ident(i) => {
                let name = i.to_string();
                let mut rep = None;
                for (a, b) in SWAPS {
                    for (x, y) in [(a, b), (b, a)] {
                        if name == **x {
                            if *k == 0 { rep = Some(y.to_string()); }
                            *k -= 1;
                        }
                    }
                }
                if name == "true" || name == "false" {
                    if *k == 0 { rep = Some(if name == "true" { "false".into() } else { "true".into() }); }
                    *k -= 1;
                }
                if let Some(r) = rep {
                    *hit = Some(format!("{name} -> {r}"));
                    out.push(TokenTree::Ident(Ident::new(&r, i.span())));
                } else {
                    out.push(TokenTree::Ident(i));
                }
            }
            TokenTree::Literal(l) => {
                let txt = l.to_string();
                let digits: String = txt.chars().take_while(|c| c.is_ascii_digit() || *c == '_').collect();
                let suf = &txt[digits.len()..];
                let ok = !digits.is_empty() && (suf.is_empty() || suf.starts_with('u') || suf.starts_with('i'));
                let mut cur = TokenTree::Literal(l.clone());
                if ok {
                    if let Ok(v) = digits.replace('_', "").parse::<u128>() {
                        let mut alts = vec![v + 1];
                        if v > 0 { alts.push(v - 1); }
                        if v > 1 { alts.push(0); }
                        for a in alts {
                            if *k == 0 {
                                *hit = Some(format!("{txt} -> {a}{suf}"));
                                if let Ok(n) = format!("{a}{suf}").parse::<Literal>() {
                                    cur = TokenTree::Literal(n);
                                }
                            }
                            *k -= 1;
                        }
                    }
                }
                out.push(cur);
            }
            o => out.push(o),
        }
    }
    out.into_iter().collect()
}

struct HasBlock(bool);
impl<'a> syn::visit::Visit<'a> for HasBlock {
    fn visit_block(&mut self, _: &'a Block) { self.0 = true }
    fn visit_expr_match(&mut self, _: &'a ExprMatch) { self.0 = true }
}
fn has_block(e: &Expr) -> bool {
    let mut h = HasBlock(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}

fn logging(e: &Expr) -> bool {
    let t = s(e);
    t.starts_with("phoenix_log") || t.contains("const_assert") || t.starts_with("msg") || t.starts_with("println") || t.starts_with("eprintln")
}

impl M {
    fn id(&mut self, what: String) -> Option<u32> {
        let n = self.next;
        self.next += 1;
        if self.excl.contains(&n) {
            return None;
        }
        self.list.push(format!("{n}\t{}\t{}\t{}", self.file, self.func, what));
        Some(n)
    }
    fn choose(&mut self, orig: Expr, alts: Vec<(Expr, String)>) -> Expr {
        let mut arms = Vec::new();
        for (a, w) in alts {
            if let Some(n) = self.id(w) {
                arms.push(quote!(#n => #a,));
            }
        }
        if arms.is_empty() { return orig; }
        parse_quote!((match crate::mutid::get() { #(#arms)* _ => #orig }))
    }
    /// whole-expression alternatives by token replacement (only when it has no block inside)
    fn token_alts(&mut self, orig: &Expr) -> Vec<(Expr, String)> {
        let mut v = Vec::new();
        if has_block(orig) || logging(orig) { return v; }
        let t = s(orig);
        if t.contains("assert_with_msg") && t.len() < 3 { return v; }
        for k0 in 0..400 {
            let (mut k, mut hit) = (k0, None);
            let ts = swap_tokens(orig.to_token_stream(), &mut k, &mut hit);
            match hit {
                Some(h) => {
                    if let Ok(e) = syn::parse2::<Expr>(ts) {
                        v.push((e, format!("[{h}] {}", s(orig))));
                    }
                }
                None => break,
            }
        }
        v
    }
}

impl VisitMut for M {
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_item_enum_mut(&mut self, _: &mut ItemEnum) {}
    fn visit_item_mod_mut(&mut self, i: &mut ItemMod) {
        if i.attrs.iter().any(|a| s(a).contains("test")) { return; }
        visit_mut::visit_item_mod_mut(self, i)
    }
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        if i.sig.constness.is_some() || i.attrs.iter().any(|a| s(a).contains("test")) { return; }
        let old = std::mem::replace(&mut self.func, i.sig.ident.to_string());
        visit_mut::visit_item_fn_mut(self, i);
        self.func = old;
    }
    fn visit_impl_item_method_mut(&mut self, i: &mut ImplItemMethod) {
        if i.sig.constness.is_some() { return; }
        let n = i.sig.ident.to_string();
        if n == "fmt" { return; }
        let old = std::mem::replace(&mut self.func, n);
        visit_mut::visit_impl_item_method_mut(self, i);
        self.func = old;
    }
    fn visit_trait_item_method_mut(&mut self, i: &mut TraitItemMethod) {
        let old = std::mem::replace(&mut self.func, i.sig.ident.to_string());
        visit_mut::visit_trait_item_method_mut(self, i);
        self.func = old;
    }
    fn visit_expr_repeat_mut(&mut self, i: &mut ExprRepeat) { self.visit_expr_mut(&mut i.expr) }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}

    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (ix, st) in b.stmts.iter_mut().enumerate() {
            let tail = ix + 1 == n;
            match st {
                Stmt::Local(l) => {
                    if let Some((_, init)) = &mut l.init {
                        let orig = (**init).clone();
                        let is_ref = matches!(orig, Expr::Reference(_) | Expr::Closure(_)) || s(&orig).contains("& mut");
                        let alts = if is_ref { vec![] } else { self.token_alts(&orig) };
                        let mut inner = orig.clone();
                        self.visit_expr_mut(&mut inner);
                        **init = self.choose(inner, alts);
                    }
                }
                Stmt::Semi(e, semi) => {
                    if logging(e) { continue; }
                    let orig = e.clone();
                    if let Expr::Return(_) = orig {
                        self.visit_expr_mut(e);
                        continue;
                    }
                    let alts = self.token_alts(&orig);
                    let mut inner = orig.clone();
                    self.visit_expr_mut(&mut inner);
                    let mut arms = Vec::new();
                    for (a, w) in alts {
                        if let Some(n) = self.id(w) { arms.push(quote!(#n => { #a; })); }
                    }
                    if !matches!(orig, Expr::Break(_) | Expr::Continue(_)) {
                        if let Some(n) = self.id(format!("[delete] {}", s(&orig))) { arms.push(quote!(#n => {})); }
                    } else if !tail {
                        if let Some(n) = self.id(format!("[delete] {}", s(&orig))) { arms.push(quote!(#n => {})); }
                    }
                    if let Expr::Try(t) = &orig {
                        let x = &t.expr;
                        if let Some(n) = self.id(format!("[ignore error] {}", s(&orig))) { arms.push(quote!(#n => { let _ = #x; })); }
                    }
                    if !arms.is_empty() {
                        *st = parse_quote!(match crate::mutid::get() { #(#arms)* _ => { #inner #semi } });
                    } else {
                        *e = inner;
                    }
                }
                Stmt::Expr(e) => {
                    if logging(e) { continue; }
                    let orig = e.clone();
                    let mut inner = orig.clone();
                    let blockish = matches!(orig, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Block(_) | Expr::Unsafe(_));
                    let alts = if tail && !blockish { self.token_alts(&orig) } else { vec![] };
                    self.visit_expr_mut(&mut inner);
                    if blockish && !tail && matches!(orig, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_)) {
                        if let Some(n) = self.id(format!("[delete] {}", s(&orig))) {
                            *st = parse_quote!(if crate::mutid::get() != #n { #inner });
                            continue;
                        }
                    }
                    *e = self.choose(inner, alts);
                }
                _ => visit_mut::visit_stmt_mut(self, st),
            }
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
        if logging(&a.body) { return; }
        let orig = (*a.body).clone();
        let alts = if matches!(orig, Expr::Block(_) | Expr::Reference(_)) || s(&orig).contains("& mut") { vec![] } else { self.token_alts(&orig) };
        let mut inner = orig;
        self.visit_expr_mut(&mut inner);
        *a.body = self.choose(inner, alts);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) => {
                let is_let = s(&i.cond).starts_with("let ") ;
                if !is_let {
                    let alts0 = self.token_alts(&i.cond);
                    let c = s(&i.cond);
                    let mut inner = (*i.cond).clone();
                    self.visit_expr_mut(&mut inner);
                    let mut alts = alts0;
                    alts.push((parse_quote!(true), format!("[if true] {c}")));
                    alts.push((parse_quote!(false), format!("[if false] {c}")));
                    *i.cond = self.choose(inner, alts);
                } else {
                    self.visit_expr_mut(&mut i.cond);
                }
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    // stays a block or an if
                    match &mut **x {
                        Expr::Block(b) => self.visit_block_mut(&mut b.block),
                        o => self.visit_expr_mut(o),
                    }
                }
            }
            Expr::While(w) => {
                let is_let = s(&w.cond).starts_with("let ");
                let alts = if is_let { vec![] } else { self.token_alts(&w.cond) };
                self.visit_expr_mut(&mut w.cond);
                if !is_let {
                    *w.cond = self.choose((*w.cond).clone(), alts);
                }
                self.visit_block_mut(&mut w.body);
            }
            Expr::Let(l) => self.visit_expr_mut(&mut l.expr),
            Expr::Closure(c) => {
                let body = (*c.body).clone();
                let alts = if matches!(body, Expr::Block(_) | Expr::Match(_) | Expr::If(_)) { vec![] } else { self.token_alts(&body) };
                let mut inner = body;
                self.visit_expr_mut(&mut inner);
                *c.body = self.choose(inner, alts);
            }
            Expr::Binary(b) => {
                let orig = b.clone();
                let mut bb = b.clone();
                self.visit_expr_mut(&mut bb.left);
                self.visit_expr_mut(&mut bb.right);
                let (l, r) = (&orig.left, &orig.right);
                let txt = s(&orig);
                let reps: Vec<Expr> = match orig.op {
                    BinOp::Lt(_) => vec![parse_quote!(#l <= #r), parse_quote!(#l > #r)],
                    BinOp::Le(_) => vec![parse_quote!(#l < #r), parse_quote!(#l > #r)],
                    BinOp::Gt(_) => vec![parse_quote!(#l >= #r), parse_quote!(#l < #r)],
                    BinOp::Ge(_) => vec![parse_quote!(#l > #r), parse_quote!(#l < #r)],
                    BinOp::Eq(_) => vec![parse_quote!(#l != #r)],
                    BinOp::Ne(_) => vec![parse_quote!(#l == #r)],
                    BinOp::And(_) => vec![parse_quote!(#l || #r), parse_quote!(#l), parse_quote!(#r)],
                    BinOp::Or(_) => vec![parse_quote!(#l && #r), parse_quote!(#l), parse_quote!(#r)],
                    BinOp::Add(_) => vec![parse_quote!(#l - #r), parse_quote!(#l)],
                    BinOp::Sub(_) => vec![parse_quote!(#l + #r), parse_quote!(#l)],
                    BinOp::Mul(_) => vec![parse_quote!(#l)],
                    BinOp::Div(_) => vec![parse_quote!(#l)],
                    BinOp::Rem(_) => vec![parse_quote!(#l)],
                    BinOp::BitAnd(_) => vec![parse_quote!(#l)],
                    BinOp::AddEq(_) => vec![parse_quote!(#l -= #r), parse_quote!(#l = #r)],
                    BinOp::SubEq(_) => vec![parse_quote!(#l += #r)],
                    BinOp::Shl(_) => vec![parse_quote!(#l >> #r)],
                    BinOp::Shr(_) => vec![parse_quote!(#l << #r)],
                    _ => vec![],
                };
                let alts = reps.into_iter().map(|x: Expr| { let w = format!("[{txt}] => [{}]", s(&x)); (x, w) }).collect();
                *e = self.choose(Expr::Binary(bb), alts);
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                let inner0 = (*u.expr).clone();
                let txt = s(u);
                self.visit_expr_mut(&mut u.expr);
                let o = Expr::Unary(u.clone());
                *e = self.choose(o, vec![(inner0, format!("[drop !] {txt}"))]);
            }
            Expr::Macro(_) | Expr::Lit(_) | Expr::Path(_) => {}
            // places must stay places
            Expr::Assign(a) => { let old = (*a.right).clone(); let mut r = old; self.visit_expr_mut(&mut r); *a.right = r; }
            Expr::AssignOp(a) => {
                let (l, r) = (a.left.clone(), a.right.clone());
                let txt = s(a);
                let alts: Vec<Expr> = match a.op {
                    BinOp::AddEq(_) => vec![parse_quote!(#l -= #r), parse_quote!(#l = #r)],
                    BinOp::SubEq(_) => vec![parse_quote!(#l += #r), parse_quote!(#l = #r)],
                    _ => vec![],
                };
                self.visit_expr_mut(&mut a.right);
                let o = Expr::AssignOp(a.clone());
                let alts = alts.into_iter().map(|x| { let w = format!("[{txt}] => [{}]", s(&x)); (x, w) }).collect();
                *e = self.choose(o, alts);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn walk(d: &Path, v: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|x| x.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() { walk(&p, v) } else if p.extension().map(|x| x == "rs").unwrap_or(false) { v.push(p) }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = PathBuf::from(&a[1]);
    let excl = a.get(3).and_then(|f| std::fs::read_to_string(f).ok())
        .map(|t| t.split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let mut m = M { next: 1, file: String::new(), func: String::new(), excl, list: vec![] };
    let mut fs = vec![];
    walk(&src, &mut fs);
    for f in fs {
        let rel = f.strip_prefix(&src).unwrap().display().to_string();
        if rel.contains("test_market") || rel.contains("shank_structs") || rel == "log.rs" { continue; }
        let text = std::fs::read_to_string(&f).unwrap();
        let mut file = syn::parse_file(&text).unwrap();
        m.file = rel.clone();
        m.visit_file_mut(&mut file);
        if rel == "lib.rs" {
            let x: Item = parse_quote! {
                pub mod mutid {
                    use std::sync::atomic::{AtomicU32, Ordering};
                    pub static MUT: AtomicU32 = AtomicU32::new(0);
                    #[inline(always)]
                    pub fn get() -> u32 { MUT.load(Ordering::Relaxed) }
                }
            };
            file.items.push(x);
        }
        std::fs::write(&f, prettyplease::unparse(&file)).unwrap();
    }
    std::fs::write(&a[2], m.list.join("\n") + "\n").unwrap();
    eprintln!("{} ids, {} active", m.next - 1, m.list.len());
}
