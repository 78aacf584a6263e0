use crate::fmtspec::{Arg, Piece, Width};
use crate::{die, parse_tokens, Block, Sources};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::parse::{Parse, Parser};
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::{Expr, Stmt};

/// R2: methods of std types. They are resolved by the traits of the prelude.
const MODEL: &[&str] = &[
    "all", "any", "as_bytes", "as_deref", "as_ref", "as_str", "bytes", "capacity", "char_indices", "chars", "checked_ilog10", "chunks", "collect",
    "contains", "count", "enumerate", "ends_with", "extend", "fill", "filter", "filter_map", "find", "first", "flatten", "fold",
    "insert_str", "into_boxed_str", "into_owned", "into_string", "is_alphabetic", "is_alphanumeric", "is_ascii", "is_ascii_alphanumeric", "is_ascii_alphabetic",
    "is_ascii_control", "is_ascii_digit", "is_ascii_punctuation", "is_ascii_whitespace", "is_char_boundary", "is_control", "is_empty", "is_numeric", "is_some_and",
    "is_none_or", "is_whitespace", "iter", "iter_mut", "join", "last", "len", "lines", "map", "map_or", "match_indices", "max", "min",
    "next", "next_back", "next_if", "nth", "ok", "or", "or_else", "parse", "peek", "peekable", "position", "pop", "push", "push_str", "repeat", "replace", "replace_range", "retain", "rev", "rfind",
    "rsplit_once", "saturating_sub", "saturating_add", "skip", "skip_while", "split", "split_at", "split_inclusive", "split_once", "split_whitespace", "starts_with",
    "strip_prefix", "strip_suffix", "sum", "take", "take_while", "then", "then_some", "to_owned", "to_string", "to_vec", "trim", "trim_end",
    "trim_end_matches", "trim_matches", "trim_start", "trim_start_matches", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "width", "windows", "with_capacity",
    "write_str", "zip", "zip_longest", "char_count", "and_then", "map_or_else", "len_utf8", "eq_ignore_ascii_case", "copied", "cloned", "drain", "splitn", "or_insert", "entry", "checked_sub", "checked_add", "saturating_mul", "to_ascii_lowercase", "to_lowercase", "rposition", "find_map", "truncate", "write_char", "skip_ws", "rev_chars", "by_ref", "chain", "flat_map", "tuple_windows", "group_by", "dedup", "lt", "is_ok_and", "borrow", "borrow_mut",
    "write_event_str", "write_tag_str",
];

/// Free functions and associated functions of std.
const PATHS: &[(&str, &str)] = &[
    ("String::new", "vx_string_new"),
    ("String::with_capacity", "vx_string_with_capacity"),
    ("String::from", "vx_string_from"),
    ("Vec::with_capacity", "vx_vec_with_capacity"),
    ("std::cmp::max", "vx_max"),
    ("std::cmp::min", "vx_min"),
    ("std::mem::take", "vx_take"),
    ("std::mem::replace", "vx_replace"),
    ("char::is_whitespace", "vx_char_is_whitespace"),
    ("std::fmt::Result", "FmtResult"),
    ("std::fmt::Error", "FmtError"),
    ("fmt::Result", "FmtResult"),
    ("fmt::Error", "FmtError"),
    ("textwrap::fill", "vx_textwrap_fill"),
    ("std::iter::repeat", "vx_iter_repeat"),
];

struct Punct(Punctuated<Expr, syn::Token![,]>);
impl Parse for Punct {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        Ok(Punct(Punctuated::parse_terminated(i)?))
    }
}
struct Matches(Expr, syn::Pat, Option<Expr>);
impl Parse for Matches {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let e = i.parse()?;
        i.parse::<syn::Token![,]>()?;
        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(syn::Token![if]) {
            i.parse::<syn::Token![if]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _ = i.parse::<Option<syn::Token![,]>>();
        Ok(Matches(e, p, g))
    }
}
struct VecRepeat(Expr, Expr);
impl Parse for VecRepeat {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let e = i.parse()?;
        i.parse::<syn::Token![;]>()?;
        Ok(VecRepeat(e, i.parse()?))
    }
}

pub struct Rewrite<'a> {
    src: &'a Sources,
    b: &'a Block,
    what: &'a str,
    loops: usize,
    closures: usize,
    lits: BTreeSet<String>,
    lets: HashMap<String, usize>,
    used: BTreeSet<usize>,
    /// locals that are closures
    named: BTreeSet<String>,
    temps: usize,
}

fn text(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().replace([' ', '\n'], "")
}

impl<'a> Rewrite<'a> {
    pub fn new(src: &'a Sources, b: &'a Block, what: &'a str) -> Self {
        Rewrite { src, b, what, loops: 0, closures: 0, lits: BTreeSet::new(), lets: HashMap::new(), used: BTreeSet::new(), named: BTreeSet::new(), temps: 0 }
    }
    fn die(&self, m: impl std::fmt::Display) -> ! {
        die(format!("{}: {m}", self.what))
    }

    pub fn signature(&mut self, s: &mut syn::Signature) {
        for i in s.inputs.iter_mut() {
            match i {
                syn::FnArg::Receiver(r) => r.attrs.clear(),
                syn::FnArg::Typed(t) => t.attrs.clear(),
            }
        }
        visit_mut::visit_signature_mut(self, s);
    }

    pub fn body(&mut self, b: &mut syn::Block) {
        let mut top = self.proofs("start");
        if let Some(i) = self.find_proof("tail") {
            // after the last expression, whose value is vx_ret
            let t = self.proof_tokens(i);
            self.used.insert(i);
            self.visit_block_mut(b);
            if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                b.stmts.pop();
                b.stmts.push(verbatim_stmt(quote!(let vx_ret = #e;)));
                b.stmts.push(verbatim_stmt(t));
                b.stmts.push(verbatim_stmt(quote!(vx_ret)));
            } else {
                b.stmts.push(verbatim_stmt(t));
            }
        } else {
            self.visit_block_mut(b);
        }
        let mut lits = TokenStream::new();
        for l in &self.lits {
            lits.extend(quote!(reveal_strlit(#l);));
            // consequences that are proved here, so that they are at hand where the literal is used
            let cs: Vec<char> = l.chars().collect();
            if !cs.is_empty() && cs.iter().all(|c| *c == cs[0]) {
                let (c, n) = (cs[0], proc_macro2::Literal::usize_unsuffixed(cs.len()));
                let eq = parse_tokens("=~=", "");
                lits.extend(quote!(assert(#l@ #eq fill_seq(#c, #n));));
            } else if cs.len() <= 16 {
                let eq = parse_tokens("=~=", "");
                lits.extend(quote!(assert(#l@ #eq seq![#(#cs),*]);));
            }
            if (2..=4).contains(&cs.len()) {
                // the literal at an index, char by char
                let n = proc_macro2::Literal::usize_unsuffixed(cs.len());
                let is = (0..cs.len()).map(proc_macro2::Literal::usize_unsuffixed);
                let eq = parse_tokens("=~=", "");
                lits.extend(quote!(assert forall|s: Seq<char>, k: int| #![trigger text_at(#l@, s, k)] text_at(#l@, s, k) == (0 <= k && k + #n <= s.len() #(&& s[k + #is] == #cs)*) by { lemma_text_at(#l@, s, k); assert(#l@ #eq seq![#(#cs),*]); }));
            }
            if l.is_ascii() {
                lits.extend(quote!(assert(ascii(#l@));));
            }
        }
        if !self.lits.is_empty() {
            b.stmts.insert(0, verbatim_stmt(quote!(proof { #lits })));
        }
        if !top.is_empty() {
            let at = usize::from(!self.lits.is_empty());
            b.stmts.insert(at, verbatim_stmt(std::mem::take(&mut top)));
        }
        let head = self.proofs("head");
        if !head.is_empty() {
            b.stmts.insert(0, verbatim_stmt(head));
        }
        for (i, (n, _)) in self.b.proofs.iter().enumerate() {
            if !self.used.contains(&i) {
                self.die(format!("lost the place of the proof at '{n}'"));
            }
        }
        for k in self.b.loops.keys() {
            if *k >= self.loops {
                self.die(format!("there is no loop {k} any more"));
            }
        }
        let shape = self.b.shape.unwrap_or((self.b.loops.len(), self.b.closures.len()));
        if self.b.shape.is_some() && shape != (self.loops, self.closures) {
            self.die(format!("has {} loops and {} closures, the contract is for {} and {}", self.loops, self.closures, shape.0, shape.1));
        }
        if self.loops != self.b.loops.len() {
            self.die(format!("has {} loops, the contract is for {}", self.loops, self.b.loops.len()));
        }
    }

    fn find_proof(&self, name: &str) -> Option<usize> {
        self.b.proofs.iter().position(|p| p.0 == name)
    }
    fn proof_tokens(&self, i: usize) -> TokenStream {
        parse_tokens(&self.b.proofs[i].1, &self.b.proofs[i].0)
    }
    fn proofs(&mut self, name: &str) -> TokenStream {
        match self.find_proof(name) {
            Some(i) => {
                self.used.insert(i);
                self.proof_tokens(i)
            }
            None => TokenStream::new(),
        }
    }

    fn visit_expr_new(&mut self, mut e: Expr) -> Expr {
        self.visit_expr_mut(&mut e);
        e
    }

    /// get_config and set_config do nothing but call their argument
    fn check_config_access(&self) {
        let (_, g) = crate::find_fn(self.src, "formatter.rs", "MarkdownFormatter::get_config");
        let (_, s) = crate::find_fn(self.src, "formatter.rs", "MarkdownFormatter::set_config");
        if text(g) != "{f(&self.config.borrow())}" || text(s) != "{f(&mutself.config.borrow_mut())}" {
            self.die("get_config or set_config has changed");
        }
    }

    fn loop_expr(&mut self, e: &mut Expr) {
        let n = self.loops;
        self.loops += 1;
        let Some(inv) = self.b.loops.get(&n) else {
            self.die(format!("has a loop (number {n}) that has no contract"));
        };
        let inv = parse_tokens(inv, "loop contract");
        let inv = if inv.to_string().contains("invariant_except_break") || inv.to_string().contains("ensures") {
            // (attribute, contract)
            (quote!(#[verifier::allow_complex_invariants]), inv)
        } else {
            (quote!(), inv)
        };
        let (attr, inv) = inv;
        let begin = self.proofs(&format!("loop {n} begin"));
        let end = self.proofs(&format!("loop {n} end"));
        let after = self.proofs(&format!("loop {n} after"));
        let before = self.proofs(&format!("loop {n} before"));
        let (head, label, mut body, extra) = match e {
            Expr::While(w) => {
                let label = w.label.clone();
                let head = match &*w.cond {
                    Expr::Let(l) => {
                        let mut pat = (*l.pat).clone();
                        self.visit_pat_mut(&mut pat);
                        let x = self.visit_expr_new((*l.expr).clone());
                        quote!(while let #pat = #x)
                    }
                    c => {
                        let c = self.visit_expr_new(c.clone());
                        quote!(while #c)
                    }
                };
                (head, label, w.body.clone(), (quote!(), quote!(), quote!()))
            }
            Expr::Loop(l) => (quote!(loop), l.label.clone(), l.body.clone(), (quote!(), quote!(), quote!())),
            Expr::ForLoop(f) => {
                let mut pat = (*f.pat).clone();
                self.visit_pat_mut(&mut pat);
                let iter = (*f.expr).clone();
                let label = f.label.clone();
                match iter {
                    // for x in E.iter_mut()
                    Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => {
                        let recv = self.visit_expr_new((*m.receiver).clone());
                        let i = format_ident!("vx_i{n}");
                        (
                            quote!(while #i < #recv.vx_len()),
                            label,
                            f.body.clone(),
                            (quote!(let mut #i: usize = 0;), quote!(let #pat = &mut #recv[#i];), quote!(#i += 1;)),
                        )
                    }
                    Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_)) => {
                        let (a, b) = (self.visit_expr_new(*r.start.unwrap()), self.visit_expr_new(*r.end.unwrap()));
                        let i = format_ident!("vx_i{n}");
                        let m = format_ident!("vx_end{n}");
                        (
                            quote!(while #i < #m),
                            label,
                            f.body.clone(),
                            (quote!(let mut #i = #a; let #m = #b;), quote!(let #pat = #i; #i += 1;), quote!()),
                        )
                    }
                    iter => {
                        let x = self.visit_expr_new(iter);
                        let it = format_ident!("vx_it{n}");
                        (
                            quote!(while let Some(#pat) = #it.vx_next()),
                            label,
                            f.body.clone(),
                            (quote!(let mut #it = (#x).vx_into_iter();), quote!(), quote!()),
                        )
                    }
                }
            }
            _ => unreachable!(),
        };
        self.visit_block_mut(&mut body);
        let stmts = &body.stmts;
        let (pre, bind, step) = extra;
        // a trailing expression of type () needs a semicolon when something follows
        let mut list = TokenStream::new();
        for s in stmts {
            match s {
                Stmt::Expr(x, None) if !matches!(x, Expr::Verbatim(_)) => list.extend(quote!(#x;)),
                s => list.extend(quote!(#s)),
            }
        }
        let out = quote!({ #pre #before #attr #label #head #inv { #bind #begin #list #end #step } #after });
        // a loop that is an expression statement can stay without its own block
        *e = Expr::Verbatim(out);
    }

    fn closure(&mut self, e: &mut Expr) {
        let n = self.closures;
        self.closures += 1;
        let Expr::Closure(c) = e else { unreachable!() };
        let mut c = c.clone();
        c.attrs.clear();
        for i in c.inputs.iter_mut() {
            self.visit_pat_mut(i);
        }
        self.visit_expr_mut(&mut c.body);
        // parameters that are patterns
        let mut binds = TokenStream::new();
        for (k, i) in c.inputs.iter_mut().enumerate() {
            let name = format_ident!("arg_{k}");
            match i {
                syn::Pat::Ident(i) if i.mutability.is_none() => {}
                syn::Pat::Wild(_) => {}
                syn::Pat::Type(t) if matches!(*t.pat, syn::Pat::Ident(_)) => {}
                syn::Pat::Type(t) => {
                    let pat = (*t.pat).clone();
                    binds.extend(quote!(let #pat = #name;));
                    *t.pat = syn::parse_quote!(#name);
                }
                pat => {
                    let old = pat.clone();
                    binds.extend(quote!(let #old = #name;));
                    *pat = syn::parse_quote!(#name);
                }
            }
        }
        if !binds.is_empty() {
            let b = &c.body;
            c.body = Box::new(Expr::Verbatim(quote!({ #binds #b })));
        }
        let p0 = self.proofs(&format!("closure {n}"));
        let p1 = self.proofs(&format!("closure {n} end"));
        if !p0.is_empty() || !p1.is_empty() {
            let b = &c.body;
            c.body = Box::new(Expr::Block(syn::ExprBlock {
                attrs: vec![],
                label: None,
                block: syn::Block { brace_token: Default::default(), stmts: vec![verbatim_stmt(quote!(#p0 let vx_ret = #b; #p1 vx_ret))] },
            }));
        }
        let inputs = &c.inputs;
        let body = &c.body;
        let spec = match self.b.closures.get(&n) {
            Some(t) if t.trim() == "plain" => {
                *e = Expr::Verbatim(quote!(|#inputs| #body));
                return;
            }
            Some(t) => parse_tokens(t, "closure contract"),
            None => {
                let b = spec_copy(strip_block(body));
                quote!(-> (vx_r: bool) ensures vx_r == (#b),)
            }
        };
        let body = match &**body {
            Expr::Block(b) => quote!(#b),
            b if binds.is_empty() => quote!({ #b }),
            b => quote!({ #b }),
        };
        *e = Expr::Verbatim(quote!(|#inputs| #spec #body));
    }

    /// The text of a value in a format string.
    fn value(&mut self, args: &[Expr], next: &mut usize, p: &Piece) -> TokenStream {
        let Piece::Val { arg, fill, align, width } = p else { unreachable!() };
        let get = |a: &Arg, next: &mut usize| -> Expr {
            match a {
                Arg::Next => {
                    *next += 1;
                    args.get(*next - 1).cloned().unwrap_or_else(|| die("format argument"))
                }
                Arg::Pos(i) => args.get(*i).cloned().unwrap_or_else(|| die("format argument")),
                Arg::Name(n) => {
                    for a in args {
                        if let Expr::Assign(x) = a {
                            if text(&x.left) == *n {
                                return (*x.right).clone();
                            }
                        }
                    }
                    syn::parse_str(n).unwrap()
                }
            }
        };
        let x = get(arg, next);
        let x = self.visit_expr_new(x);
        let base = quote!(vx_display(&#x));
        match width {
            None => base,
            Some(w) => {
                let w = match w {
                    Width::Num(n) => quote!(#n),
                    Width::Arg(a) => {
                        let mut k = 0;
                        let w = get(a, &mut k);
                        let w = self.visit_expr_new(w);
                        quote!(vx_usize(#w))
                    }
                };
                let f = match align {
                    '<' => quote!(vx_pad_right),
                    '>' => quote!(vx_pad_left),
                    '^' => quote!(vx_pad_both),
                    _ => self.die("padding without an alignment"),
                };
                quote!(#f(#base, #fill, #w))
            }
        }
    }

    fn write_macro(&mut self, dest: TokenStream, args: &[Expr], newline: bool, method: &str) -> TokenStream {
        let mut pieces = match args.first() {
            None => vec![],
            Some(Expr::Lit(l)) => match &l.lit {
                syn::Lit::Str(s) => crate::fmtspec::parse(&s.value()).unwrap_or_else(|| self.die("format string")),
                _ => self.die("format string"),
            },
            _ => self.die("format string"),
        };
        if newline {
            match pieces.last_mut() {
                Some(Piece::Lit(s)) => s.push('\n'),
                _ => pieces.push(Piece::Lit("\n".into())),
            }
        }
        let rest: Vec<Expr> = args.iter().skip(1).cloned().collect();
        let mut next = 0;
        let m = format_ident!("{method}");
        let mut calls = vec![];
        for p in &pieces {
            match p {
                Piece::Lit(s) => {
                    self.lits.insert(s.clone());
                    calls.push(quote!(#dest.#m(#s)));
                }
                p => {
                    let v = self.value(&rest, &mut next, p);
                    calls.push(quote!(#dest.#m(&#v)));
                }
            }
        }
        let Some(mut t) = calls.pop() else { return quote!(vx_fmt_ok()) };
        while let Some(c) = calls.pop() {
            t = quote!(match #c { Err(vx_e) => Err(vx_e), Ok(_) => #t });
        }
        t
    }

    fn macro_expr(&mut self, m: &syn::Macro) -> Expr {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let first = m.path.segments.first().unwrap().ident.to_string();
        if first == "tracing" || ["debug", "trace", "info", "warn", "error"].contains(&name.as_str()) {
            return Expr::Verbatim(quote!(()));
        }
        let args = |s: &Self| -> Vec<Expr> {
            Punct::parse.parse2(m.tokens.clone()).unwrap_or_else(|_| s.die(format!("arguments of {name}!"))).0.into_iter().collect()
        };
        match name.as_str() {
            "matches" => {
                let Ok(Matches(e, mut p, g)) = Matches::parse.parse2(m.tokens.clone()) else { self.die("matches!") };
                let e = self.visit_expr_new(e);
                self.visit_pat_mut(&mut p);
                let g = g.map(|g| {
                    let g = self.visit_expr_new(g);
                    quote!(if #g)
                });
                Expr::Verbatim(quote!((match #e { #p #g => true, _ => false })))
            }
            "write" | "writeln" => {
                let a = args(self);
                let dest = self.visit_expr_new(a[0].clone());
                let t = self.write_macro(quote!(#dest), &a[1..], name == "writeln", "vx_write_str");
                Expr::Verbatim(t)
            }
            "format" => {
                let a = args(self);
                self.temps += 1;
                let s = format_ident!("vx_s{}", self.temps);
                let t = self.write_macro(quote!(#s), &a, false, "vx_write_str");
                Expr::Verbatim(quote!({ let mut #s = vx_string_new(); let _ = #t; #s }))
            }
            "print" | "println" | "eprint" | "eprintln" if self.b.io.contains(&name) => {
                let a = args(self);
                self.temps += 1;
                let s = format_ident!("vx_s{}", self.temps);
                let t = self.write_macro(quote!(#s), &a, name.ends_with("ln"), "vx_write_str");
                let f = format_ident!("vx_io_{}", name.trim_end_matches("ln"));
                Expr::Verbatim(quote!({ let mut #s = vx_string_new(); let _ = #t; #f(&#s, Tracked(vx_world)); }))
            }
            "write_context" | "writeln_context" => {
                let a = args(self);
                let dest = self.visit_expr_new(a[0].clone());
                // the arguments are formatted first, see WriteContext::write_context_fmt
                let ctx = match &a[1] {
                    Expr::Path(p) if p.path.is_ident("Escape") => quote!(MarkdownContext::Escape),
                    e => {
                        let e = self.visit_expr_new(e.clone());
                        quote!(MarkdownContext::Event(#e))
                    }
                };
                let mut calls = vec![];
                if a.len() > 2 {
                    self.temps += 1;
                    let s = format_ident!("vx_s{}", self.temps);
                    let t = self.write_macro(quote!(#s), &a[2..], false, "vx_write_str");
                    calls.push(quote!({ let mut #s = vx_string_new(); let _ = #t; #dest.vx_write_context_str(#ctx, &#s) }));
                }
                if name == "writeln_context" {
                    self.lits.insert("\n".into());
                    calls.push(quote!(#dest.vx_write_context_str(#ctx, "\n")));
                }
                let mut t = calls.pop().unwrap_or_else(|| quote!(vx_fmt_ok()));
                while let Some(c) = calls.pop() {
                    t = quote!(match #c { Err(vx_e) => Err(vx_e), Ok(_) => #t });
                }
                Expr::Verbatim(t)
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Expr::Verbatim(quote!(vx_unreachable())),
            "debug_assert_eq" | "assert_eq" => {
                let a = args(self);
                let x = self.visit_expr_new(a[0].clone());
                if let Expr::Lit(l) = &a[1] {
                    if let syn::Lit::Str(s) = &l.lit {
                        self.lits.insert(s.value());
                        return Expr::Verbatim(quote!(vx_assert(#x.vx_same(#s))));
                    }
                }
                let y = self.visit_expr_new(a[1].clone());
                Expr::Verbatim(quote!(vx_assert_eq(#x, #y)))
            }
            "debug_assert" | "assert" => {
                let a = args(self);
                let x = self.visit_expr_new(a[0].clone());
                Expr::Verbatim(quote!(vx_assert(#x)))
            }
            "vec" => {
                if let Ok(VecRepeat(a, b)) = VecRepeat::parse.parse2(m.tokens.clone()) {
                    let (a, b) = (self.visit_expr_new(a), self.visit_expr_new(b));
                    return Expr::Verbatim(quote!(vx_vec_repeat(#a, #b)));
                }
                let a: Vec<Expr> = args(self).into_iter().map(|x| self.visit_expr_new(x)).collect();
                if a.is_empty() {
                    return Expr::Verbatim(quote!(vx_vec_with_capacity(0)));
                }
                Expr::Verbatim(quote!(vec![#(#a),*]))
            }
            _ => self.die(format!("macro {name}!")),
        }
    }

    fn literal(&self, p: &syn::Path) -> Option<syn::Lit> {
        let id = p.segments.last()?.ident.to_string();
        let all_upper = id.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit());
        let modules_only = p.segments.iter().rev().skip(1).all(|s| s.ident.to_string().chars().all(|c| c.is_lowercase() || c == '_'));
        if all_upper && modules_only {
            self.src.consts.get(&id).cloned()
        } else {
            None
        }
    }
}

fn str_literal(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(s.value()),
            _ => None,
        },
        _ => None,
    }
}

/// The body of a closure as its specification: `vx_f` is specified by `sp_f`.
fn spec_copy(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|x| match x {
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), spec_copy(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            TokenTree::Ident(i) => match i.to_string().strip_prefix("vx_") {
                Some(r) => TokenTree::Ident(format_ident!("sp_{r}")),
                None => TokenTree::Ident(i),
            },
            x => x,
        })
        .collect()
}

fn strip_block(e: &Expr) -> TokenStream {
    match e {
        Expr::Block(b) if b.block.stmts.len() == 1 => {
            if let Stmt::Expr(e, None) = &b.block.stmts[0] {
                return quote!(#e);
            }
            quote!(#b)
        }
        e => quote!(#e),
    }
}

fn verbatim_stmt(t: TokenStream) -> Stmt {
    Stmt::Expr(Expr::Verbatim(t), None)
}

/// An index that is a range in a variable: a clone, or a variable with such a name
fn range_value(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => m.method == "clone" && m.args.is_empty(),
        Expr::Path(p) => p.path.get_ident().is_some_and(|i| i == "range" || i.to_string().ends_with("_range")),
        _ => false,
    }
}

impl VisitMut for Rewrite<'_> {
    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &mut s {
                l.attrs.clear();
                if let (syn::Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
                    if matches!(&*x.expr, Expr::Closure(_)) {
                        self.named.insert(i.ident.to_string());
                    }
                }
            }
            let t = text(&s);
            let bound: Vec<String> = match &s {
                Stmt::Local(l) => {
                    struct Idents(Vec<String>);
                    impl<'ast> syn::visit::Visit<'ast> for Idents {
                        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
                            self.0.push(i.ident.to_string());
                        }
                    }
                    let mut v = Idents(vec![]);
                    syn::visit::Visit::visit_pat(&mut v, &l.pat);
                    v.0
                }
                _ => vec![],
            };
            if let Stmt::Item(syn::Item::Static(_) | syn::Item::Const(_) | syn::Item::Use(_)) = &s {
                continue;
            }
            let mut before = TokenStream::new();
            let mut after = TokenStream::new();
            // two with the same text are for two statements
            let mut here = std::collections::HashSet::new();
            for (i, (n, _)) in self.b.proofs.iter().enumerate() {
                if self.used.contains(&i) || here.contains(n) {
                    continue;
                }
                if let Some(x) = n.strip_prefix("before ") {
                    if t.starts_with(&x.replace(' ', "")) {
                        self.used.insert(i);
                        here.insert(n.clone());
                        before.extend(self.proof_tokens(i));
                    }
                }
                if let Some(x) = n.strip_prefix("after ") {
                    if t.starts_with(&x.replace(' ', "")) {
                        self.used.insert(i);
                        here.insert(n.clone());
                        after.extend(self.proof_tokens(i));
                    }
                }
            }
            for x in bound {
                let k = self.lets.entry(x.clone()).or_insert(0);
                *k += 1;
                let k = *k;
                let p = self.proofs(&format!("let {x} {k}"));
                after.extend(p);
                if k == 1 {
                    let p = self.proofs(&format!("let {x}"));
                    after.extend(p);
                }
            }
            if !before.is_empty() {
                out.push(verbatim_stmt(before));
            }
            self.visit_stmt_mut(&mut s);
            if let Stmt::Expr(Expr::Verbatim(t), None) = &s {
                // an empty statement (tracing)
                if t.to_string() == "()" {
                    continue;
                }
            }
            out.push(s);
            if !after.is_empty() {
                out.push(verbatim_stmt(after));
            }
        }
        b.stmts = out;
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let x = self.macro_expr(&m.mac);
            let semi = m.semi_token;
            if text(&x) == "()" {
                *s = Stmt::Expr(x, None);
            } else {
                *s = Stmt::Expr(x, semi);
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => return self.loop_expr(e),
            Expr::Closure(_) => return self.closure(e),
            Expr::Macro(m) => {
                let m = m.mac.clone();
                *e = self.macro_expr(&m);
                return;
            }
            // R13: x == "..."
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && str_literal(&b.right).is_some() => {
                let s = str_literal(&b.right).unwrap();
                self.lits.insert(s.clone());
                let l = self.visit_expr_new((*b.left).clone());
                let not = if matches!(b.op, syn::BinOp::Ne(_)) { quote!(!) } else { quote!() };
                *e = Expr::Verbatim(quote!(#not #l.vx_same(#s)));
                return;
            }
            // R4: &s[a..b]
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr {
                    if matches!(&*ix.index, Expr::Range(_)) || range_value(&ix.index) {
                        let mut inner = (*r.expr).clone();
                        self.visit_expr_mut(&mut inner);
                        *e = inner;
                        return;
                    }
                }
            }
            Expr::Index(ix) if range_value(&ix.index) => {
                let base = self.visit_expr_new((*ix.expr).clone());
                let r = match &*ix.index {
                    Expr::MethodCall(m) if m.method == "clone" => {
                        let r = self.visit_expr_new((*m.receiver).clone());
                        Expr::Verbatim(quote!(vx_range(&#r)))
                    }
                    r => self.visit_expr_new(r.clone()),
                };
                *e = Expr::Verbatim(quote!(#base.vx_slice_range(#r)));
                return;
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    let base = self.visit_expr_new((*ix.expr).clone());
                    let a = r.start.as_ref().map(|x| self.visit_expr_new((**x).clone()));
                    let b = r.end.as_ref().map(|x| self.visit_expr_new((**x).clone()));
                    let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                    let b = b.map(|b| if incl { quote!(#b + 1) } else { quote!(#b) });
                    let t = match (a, b) {
                        (None, None) => quote!(#base.vx_slice_all()),
                        (Some(a), None) => quote!(#base.vx_slice_from(#a)),
                        (None, Some(b)) => quote!(#base.vx_slice_to(#b)),
                        (Some(a), Some(b)) => quote!(#base.vx_slice(#a, #b)),
                    };
                    *e = Expr::Verbatim(t);
                    return;
                }
            }
            Expr::Path(p) => {
                if let Some(l) = self.literal(&p.path) {
                    if let syn::Lit::Str(s) = &l {
                        self.lits.insert(s.value());
                    }
                    *e = Expr::Lit(syn::ExprLit { attrs: vec![], lit: l });
                    return;
                }
            }
            Expr::Lit(l) => {
                if let syn::Lit::Str(s) = &l.lit {
                    self.lits.insert(s.value());
                }
                return;
            }
            _ => {}
        }
        // R9: the RefCell of the configuration (get_config and set_config call their closure on its value)
        if let Expr::MethodCall(m) = &*e {
            if (m.method == "get_config" || m.method == "set_config") && m.args.len() == 1 {
                if let Some(Expr::Closure(c)) = m.args.first() {
                    self.check_config_access();
                    let recv = self.visit_expr_new((*m.receiver).clone());
                    let body = self.visit_expr_new((*c.body).clone());
                    let p = &c.inputs;
                    *e = Expr::Verbatim(if m.method == "get_config" {
                        quote!({ let #p = &#recv.config; #body })
                    } else {
                        quote!({ let #p = &mut #recv.config; #body; })
                    });
                    return;
                }
            }
        }
        // R10: a call of the code formatter that is stored in a field
        if let Expr::Call(c) = &*e {
            let mut f = &*c.func;
            if let Expr::Paren(p) = f {
                f = &*p.expr;
            }
            if let Expr::Field(x) = f {
                if matches!(&x.member, syn::Member::Named(n) if n == "code_block_formatter") {
                    let f = self.visit_expr_new(Expr::Field(x.clone()));
                    let args: Vec<Expr> = c.args.iter().map(|a| self.visit_expr_new(a.clone())).collect();
                    *e = Expr::Verbatim(quote!(#f.vx_call(#(#args),*)));
                    return;
                }
            }
        }
        // R11: functions with effects outside of the program get the world as an argument
        if let Expr::Call(c) = &*e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if self.b.io.contains(&n) {
                    let f = if p.path.segments.len() == 1 { format_ident!("{n}") } else { format_ident!("vx_io_{n}") };
                    let args: Vec<Expr> = c.args.iter().map(|a| self.visit_expr_new(a.clone())).collect();
                    *e = Expr::Verbatim(quote!(#f(#(#args,)* Tracked(vx_world))));
                    return;
                }
                // R12: a boxed code formatter, or the one that returns the code as it is
                if p.path.segments.len() == 2 && text(&p.path) == "Box::new" && c.args.len() == 1 {
                    match &c.args[0] {
                        Expr::Closure(k) if k.inputs.len() == 3 && text(&k.inputs[2]) == text(&k.body) => {
                            *e = Expr::Verbatim(quote!(vx_identity_formatter()));
                        }
                        Expr::Path(a) => *e = Expr::Verbatim(quote!(vx_box_formatter(#a))),
                        _ => self.die("Box::new"),
                    }
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = &*e {
            let mut r = &*m.receiver;
            while let Expr::MethodCall(x) = r {
                r = &*x.receiver;
            }
            // the set-up of the log
            if matches!(r, Expr::Call(c) if text(&c.func).starts_with("tracing_subscriber::")) {
                *e = Expr::Verbatim(quote!(()));
                return;
            }
        }
        for (from, to) in &self.b.rename {
            if text(&*e) == from.replace(' ', "") {
                let t = parse_tokens(to, "rename");
                *e = Expr::Verbatim(t);
                return;
            }
        }
        let keep = match e {
            Expr::MethodCall(m) => {
                let t = format!("{}.{}", text(&m.receiver), m.method);
                self.b.keep.contains(&t) || self.b.keep.contains(&m.method.to_string())
            }
            _ => false,
        };
        // the empty slice
        if let Expr::Reference(r) = &*e {
            if matches!(&*r.expr, Expr::Array(a) if a.elems.is_empty()) && r.mutability.is_none() {
                *e = Expr::Verbatim(quote!(vx_no_items()));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if !keep && MODEL.contains(&n.as_str()) {
                    // `char::is_whitespace` as an argument
                    if let Some(Expr::Path(p)) = m.args.first() {
                        if text(&p.path) == "vx_char_is_whitespace" {
                            let x = if ["all", "any", "position", "rposition"].contains(&n.as_str()) {
                                quote!(|vx_c: char| -> (vx_r: bool) ensures vx_r == sp_is_whitespace(vx_c), { vx_c.vx_is_whitespace() })
                            } else if ["strip_prefix", "strip_suffix", "contains", "starts_with", "ends_with", "find", "rfind", "trim_end_matches", "trim_start_matches"].contains(&n.as_str()) {
                                quote!(VxIsWhitespace {})
                            } else {
                                self.die(format!("char::is_whitespace as the argument of {n}"))
                            };
                            m.args = std::iter::once(Expr::Verbatim(x)).collect();
                        }
                    }
                    // a set of chars as a pattern is a value of its own
                    if m.args.len() == 1 && ["trim_end_matches", "trim_start_matches", "trim_matches", "contains", "starts_with", "ends_with", "split", "find", "rfind", "strip_prefix", "strip_suffix"].contains(&n.as_str()) {
                        if let Some(Expr::Array(a)) = m.args.first() {
                            let chars = a.elems.iter().all(|x| matches!(x, Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_))));
                            if chars && (2..=4).contains(&a.elems.len()) {
                                let (name, cs) = (format_ident!("VxAny{}", a.elems.len()), &a.elems);
                                let set = Expr::Verbatim(quote!(#name(#cs)));
                                m.args = std::iter::once(set).collect();
                            }
                        }
                    }
                    // closures and functions as patterns have methods of their own
                    let f = matches!(m.args.first(), Some(Expr::Verbatim(t)) if t.to_string().starts_with('|'))
                        || matches!(m.args.first(), Some(Expr::Path(p)) if p.path.get_ident().is_some_and(|i| self.named.contains(&i.to_string())));
                    let f = f
                        && ["trim_end_matches", "trim_start_matches", "trim_matches", "contains", "starts_with", "ends_with", "split", "rfind"].contains(&n.as_str());
                    m.method = syn::Ident::new(&format!("vx_{n}{}", if f { "_fn" } else { "" }), m.method.span());
                    // a name for the value of the receiver
                    if let Some(i) = (0..self.b.proofs.len()).find(|i| self.b.proofs[*i].0 == format!("chain {n}") && !self.used.contains(i)) {
                        self.used.insert(i);
                        let (p, r) = (self.proof_tokens(i), m.receiver.clone());
                        *m.receiver = Expr::Verbatim(quote!({ let mut vx_chain = #r; #p vx_chain }));
                    }
                }
            }
            _ => {}
        }
    }

    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        let lit = match p {
            syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => self.literal(&i.ident.clone().into()),
            syn::Pat::Path(q) => self.literal(&q.path),
            _ => None,
        };
        if let Some(l) = lit {
            if let syn::Lit::Str(s) = &l {
                self.lits.insert(s.value());
            }
            *p = syn::Pat::Lit(syn::ExprLit { attrs: vec![], lit: l });
            return;
        }
        // a reference pattern around a literal: the default binding modes dereference as well
        if let syn::Pat::Reference(r) = p {
            let mut inner = (*r.pat).clone();
            let id = matches!(inner, syn::Pat::Ident(_));
            self.visit_pat_mut(&mut inner);
            if !id || matches!(inner, syn::Pat::Lit(_)) {
                *p = inner;
                return;
            }
        }
        if let syn::Pat::Lit(l) = p {
            if let syn::Lit::Str(s) = &l.lit {
                self.lits.insert(s.value());
            }
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        clean_path(p);
    }
}

fn clean_path(p: &mut syn::Path) {
    let t: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let joined = t.join("::");
    if let Some((_, to)) = PATHS.iter().find(|x| x.0 == joined) {
        let args = p.segments.last().unwrap().arguments.clone();
        let _ = args;
        *p = syn::Ident::new(to, proc_macro2::Span::call_site()).into();
        return;
    }
    // R7: module paths are dropped
    const PRIM: &[&str] = &["usize", "u8", "u16", "u32", "u64", "i32", "char", "str", "bool", "isize", "i64"];
    while p.segments.len() > 1 {
        let s = p.segments.first().unwrap().ident.to_string();
        let lower = s.chars().next().unwrap().is_lowercase() || s == "_";
        if lower && !PRIM.contains(&s.as_str()) {
            let rest: Punctuated<_, _> = p.segments.iter().skip(1).cloned().collect();
            p.segments = rest;
            p.leading_colon = None;
        } else {
            break;
        }
    }
    // Cow<'a, str> is a type of its own
    for s in p.segments.iter_mut() {
        if s.ident == "Cow" {
            if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                let keep: Punctuated<_, _> = a.args.iter().filter(|x| matches!(x, syn::GenericArgument::Lifetime(_))).cloned().collect();
                a.args = keep;
                if a.args.is_empty() {
                    s.arguments = syn::PathArguments::None;
                }
            }
        }
    }
}

struct Cleaner;
impl VisitMut for Cleaner {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        clean_path(p);
    }
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        *v = syn::parse_quote!(pub);
    }
}

/// Attributes are dropped, everything is public.
pub fn clean_type(i: &mut syn::Item) {
    match i {
        syn::Item::Struct(s) => {
            s.attrs.clear();
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                Cleaner.visit_type_mut(&mut f.ty);
                f.vis = syn::parse_quote!(pub);
            }
            s.vis = syn::parse_quote!(pub);
        }
        syn::Item::Enum(e) => {
            e.attrs.clear();
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                    Cleaner.visit_type_mut(&mut f.ty);
                }
            }
            e.vis = syn::parse_quote!(pub);
        }
        _ => {}
    }
}

/// Tokens with line breaks after statements and braces.
pub fn print(t: TokenStream) -> String {
    let mut o = String::new();
    go(t, &mut o, 0);
    o
}

fn go(t: TokenStream, o: &mut String, depth: usize) {
    let mut joint = true;
    let nl = |o: &mut String, d: usize| {
        while o.ends_with(' ') {
            o.pop();
        }
        if !o.ends_with('\n') {
            o.push('\n');
        }
        for _ in 0..d {
            o.push_str("  ");
        }
    };
    let mut it = t.into_iter().peekable();
    while let Some(x) = it.next() {
        if !joint && !o.ends_with([' ', '\n', '(', '[']) {
            o.push(' ');
        }
        joint = false;
        match x {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    o.push('{');
                    if !g.stream().is_empty() {
                        nl(o, depth + 1);
                        go(g.stream(), o, depth + 1);
                        nl(o, depth);
                    }
                    o.push('}');
                    let stay = matches!(it.peek(), Some(TokenTree::Ident(i)) if i == "else")
                        || matches!(it.peek(), Some(TokenTree::Punct(_)))
                        || it.peek().is_none();
                    if !stay {
                        nl(o, depth);
                        joint = true;
                    }
                }
                d => {
                    let (a, b) = match d {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    // no space between a name and its arguments
                    if d == Delimiter::Parenthesis && o.ends_with(' ') {
                        let k = o.trim_end().chars().last();
                        if k.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '!') && !ends_with_keyword(o) {
                            o.pop();
                        }
                    }
                    o.push_str(a);
                    go(g.stream(), o, depth);
                    while o.ends_with(' ') {
                        o.pop();
                    }
                    o.push_str(b);
                }
            },
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, ',' | ';' | '.' | '?') && o.ends_with(' ') {
                    o.pop();
                }
                o.push(c);
                if c == ';' {
                    nl(o, depth);
                    joint = true;
                } else if p.spacing() == Spacing::Joint || c == '.' || c == '\'' {
                    joint = true;
                }
            }
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if matches!(s.as_str(), "requires" | "ensures" | "invariant" | "decreases" | "invariant_except_break") && depth > 0 {
                    nl(o, depth + 1);
                }
                o.push_str(&s);
            }
            TokenTree::Literal(l) => o.push_str(&l.to_string()),
        }
    }
}

fn ends_with_keyword(o: &str) -> bool {
    let w: String = o.trim_end().chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>().chars().rev().collect();
    ["match", "if", "while", "in", "return", "let", "else", "ensures", "requires", "invariant", "decreases", "mut", "implies", "proof"].contains(&w.as_str())
}

pub fn rename_self(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::Ident::new("vx_self", i.span()).into(),
            proc_macro2::TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_self(g.stream()));
                n.set_span(g.span());
                n.into()
            }
            t => t,
        })
        .collect()
}
